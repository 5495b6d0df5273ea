"""C28: arguments are converted by the nearest registered converter, late and completely."""
import json
import types

from ..node import draw_age
from ..observe import CallFaults, reaches
from ..session import Session
from ..sim import Check, SimFault, Violation
from ..threads import Scheduler, simulated_locks

ERRORS = {"fault": lambda: SimFault("injected"), "memory": lambda: MemoryError("injected"),
          "value": lambda: ValueError("injected"), "key": lambda: KeyError("injected"),
          "interrupt": lambda: KeyboardInterrupt("injected"),
          "exit": lambda: SystemExit("injected")}
NAMES = ["S0", "S1", "S2", "T0", "M", "N"]
DSTS = ["str", "dict", "Box", "Tint"]
METHODS = {"put_s": ["str"], "put_d": ["dict"], "put_b": ["Box"], "put_t": ["Tint"],
           "put_u": ["str", "dict"], "put_w": ["dict", "str"], "put_x": ["Box", "dict"],
           "put_i": ["int", "str"], "put_j": ["str", "int"], "put_e": ["str"]}
DEEP = [f"{k}{n}" for k in "VDI" for n in (1, 2, 4)]     # deep below str, dict and int
RAW = ["str", "none", "dict", "int"]
THREADED = ["S0", "T0", "A", "B"]


def gen_names(r, pool):
    names = r.sample(pool, r.choice([1, 1, 2, 3]))
    return names, (r.choice(["list", "tuple"]) if len(names) > 1 or r.random() < .2 else "one")


def gen_fault(r, p):
    return [r.randrange(7), r.choice(sorted(ERRORS))] if r.random() < p else None


def x_of(v):
    x = getattr(v, "x", v)
    return int(x) if isinstance(x, int) else len(x)


class Failing:
    """Tells converters when to fail."""

    def __init__(self):
        self.left, self.error, self.fired, self.hook = None, None, None, None

    def arm(self, fault):
        self.fired = None
        self.left, self.error = fault if fault else (None, None)

    def called(self):
        if self.hook is not None:
            hook, self.hook = self.hook, None
            hook()
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.left = None
                self.fired = ERRORS[self.error]()
                raise self.fired


class C28(Check):
    id = "C28"
    quick, thorough = 6000, 200000
    rule = ("A run registers and unregisters converters between a small hierarchy of classes and "
            "the types of parameters, alone or in lists, with wildcards, amid recorded calls whose "
            "arguments may need a conversion, changes of these arguments, conversions asked for, "
            "dumps and runs of the queue; converters fail or are interrupted, unregister others "
            "while they work; calls of libraries fail. In a third of the runs, 2-3 threads register "
            "and unregister converters at the same time, switched at drawn lines or bytecodes.")
    state_measure = "converters registered, number of commands and conversions of the queue"
    stub = "backend for replays, thread scheduler and locks of the code under test"

    def plan(self, r, tier):
        if r.random() < .35:
            threads = []
            for t in range(r.randrange(2, 4)):
                ops = []
                for _ in range(r.randrange(1, 5)):
                    names, form = gen_names(r, THREADED)
                    ops.append([r.choice(["reg", "reg", "unreg"]), names, form, r.choice(DSTS[:2])])
                threads.append(ops)
            fine = r.random() < .5
            span = r.choice([2, 4, 9]) * (3 if fine else 1)
            prelude = [["reg", [n], "one", d] for n in THREADED for d in DSTS[:2] if r.random() < .3]
            return {"mode": "threads", "threads": threads, "fine": fine, "ops": prelude,
                    "focus": r.choice(["", "convert.py", "convert.py"]),
                    "switch": [[r.randrange(1, span * 2), r.randrange(3)]
                               for _ in range(r.randrange(3, 30))]}
        ops = []
        for _ in range(r.randrange(8, 32)):
            c = r.random()
            if c < .25:
                names, form = gen_names(r, NAMES + ["object", "*"] if r.random() < .3 else NAMES)
                ops.append(["reg", names, form, r.choice(DSTS), gen_fault(r, .15),
                            r.random() < .15])
            elif c < .35:
                names, form = gen_names(r, NAMES + ["object", "*"])
                ops.append(["unreg", names, form, r.choice(DSTS), gen_fault(r, .1)])
            elif c < .65:
                m = r.choice(sorted(METHODS))
                ops.append(["put", m, r.choice(NAMES * 3 + RAW + DEEP), r.randrange(9),
                            "omit" if m == "put_e" and r.random() < .5 else r.choice(["pos", "kw"]),
                            gen_fault(r, .15)])
            elif c < .72:
                ops.append(["mutate", r.randrange(9), r.randrange(9)])
            elif c < .82:
                ops.append(["convert", r.choice(NAMES), r.randrange(9), r.choice(DSTS),
                            r.random() < .5, gen_fault(r, .3),
                            gen_fault(r, .15)])
            elif c < .9:
                ops.append(["dump", gen_fault(r, .35)])
            elif c < .97:
                ops.append(["run", gen_fault(r, .35)])
            elif c < .985:
                ops.append(["meddle", r.choice(["unreg", "reg"]), r.choice(NAMES), r.choice(DSTS)])
            else:
                ops.append(["empty"])
        return {"mode": "history", "age": draw_age(r), "ops": ops}

    def simpler(self, plan):
        if plan["mode"] == "threads":
            for t in range(len(plan["threads"])):
                for i in range(len(plan["threads"][t])):
                    p = json.loads(json.dumps(plan))
                    del p["threads"][t][i]
                    yield p
        for i, op in enumerate(plan["ops"]):
            for j, v in enumerate(op):
                if isinstance(v, list) and len(v) > 1 and j == 1:
                    for k in range(len(v)):
                        p = json.loads(json.dumps(plan))
                        del p["ops"][i][1][k]
                        yield p

    # ------------------------------------------------------------------
    def world(self, s):
        """Classes of the run; all have to be as user code would write them."""
        command = s.node.mod("gsp.io.command").command
        Object = s.node.mod("gsp.object").Object
        sink = []

        class S0:
            def __init__(self, x):
                self.x = x

        class S1(S0):
            pass

        class S2(S1):
            pass

        class T0:
            def __init__(self, x):
                self.x = x

        class M(T0, S1):
            pass

        class N(int):
            x = property(int)

        class T9(T0):
            pass

        class Tint(str):
            __immediate__ = True

        class Box(Object):
            @command()
            def __init__(self, k: str):
                super().__init__()
                self.k = k

        default = S1(5)

        class Rig(Object):
            @command()
            def __init__(self):
                super().__init__()

            @command()
            def put_s(self, v: str):
                sink.append(("put_s", v))

            @command()
            def put_d(self, v: dict = None):
                sink.append(("put_d", v))

            @command()
            def put_b(self, v: Box):
                sink.append(("put_b", v))

            @command()
            def put_t(self, v: Tint):
                sink.append(("put_t", v))

            @command()
            def put_u(self, v: str | dict):
                sink.append(("put_u", v))

            @command()
            def put_w(self, v: dict | str):
                sink.append(("put_w", v))

            @command()
            def put_x(self, v: Box | dict):
                sink.append(("put_x", v))

            @command()
            def put_i(self, v: int | str):
                sink.append(("put_i", v))

            @command()
            def put_j(self, v: str | int):
                sink.append(("put_j", v))

            @command()
            def put_e(self, v: str = default):
                sink.append(("put_e", v))

        w = types.SimpleNamespace(**{k: v for k, v in locals().items() if k not in ("self", "s")})
        w.types = {"str": str, "dict": dict, "int": int, "Box": Box, "Tint": Tint}
        w.values = [default]
        w.deep = {}
        return w

    def converter(self, w, number, dst, failing):
        def text(v):
            return f"{number}:{type(v).__name__}:{x_of(v)}"

        def convert(v):
            failing.called()
            t = text(v)
            if dst == "Box":
                return w.Box(w.T9(x_of(v) + 100 * number) if number % 3 == 0 else t)
            return {"str": t, "dict": {"t": t}, "Tint": w.Tint(t)}[dst]
        convert.number, convert.text = number, text
        return convert

    @staticmethod
    def expected(number, dst, v):
        """What converter `number` makes of v, as plain data."""
        t = f"{number}:{type(v).__name__}:{x_of(v)}"
        if dst == "dict":
            return {"t": t}
        if dst == "Box" and number % 3 == 0:
            return f"9:{'T9'}:{x_of(v) + 100 * number}"
        return t

    @staticmethod
    def lookup(table, cls, dst):
        for c in cls.__mro__:
            if (c.__name__, dst) in table:
                return table[c.__name__, dst]
        return table.get(("*", dst))

    def run(self, ctx, plan):
        with simulated_locks():
            s = Session(ctx, backend=False)
            with s.node:
                if plan["mode"] == "threads":
                    self.threads(ctx, plan, s)
                else:
                    self.history(ctx, plan, s)

    # ------------------------------------------------------------------
    def history(self, ctx, plan, s):
        gsp = s.node.gsp
        s.node.age(plan["age"])
        w = self.world(s)
        mod = s.node.mod("gsp.io.convert")
        dump = s.node.mod("gsp.io.json").dump
        failing = Failing()
        foreign = dict(gsp.io.converters)
        gsp.io.register("T9", "str")(
            lambda v: f"9:T9:{x_of(v)}")
        table = {}              # (source, destination) -> converter
        numbers = iter(range(10, 10 ** 6))
        latest = {}             # converter registered last, to register it again
        queue = gsp.io.queue("default")
        rig = w.Rig()
        log = [["Rig/__init__", int(rig.id), None, None]]
        backend = types.ModuleType("backend")
        backend.Rig, backend.Box = w.Rig, w.Box

        def names_of(names, form):
            return names[0] if form == "one" else (tuple if form == "tuple" else list)(names)

        def call(func, fault, within=None):
            """Outcome of a call during which a call of a library may fail."""
            faults = CallFaults(fault[0], ERRORS[fault[1]], within="gsp/io",
                                skip=("__exit__", "__enter__", "release", "acquire")) \
                if fault else None
            try:
                if faults:
                    with faults:
                        return func(), None, None
                return func(), None, None
            except (Exception, KeyboardInterrupt, SystemExit) as e:
                injected = faults.error if faults else None
                if injected is not None:
                    ctx.fault(f"call-{fault[1]}")
                elif not isinstance(e, Exception):
                    raise
                return None, e, injected

        def holds(note):
            """Is the table what the model says? (asked through the public functions)"""
            for n in NAMES:
                cls = getattr(w, n)
                for dst in DSTS:
                    want = self.lookup(table, cls, dst)
                    got = mod.get_converter(cls, dst)
                    if got is not want and getattr(got, "number", None) != \
                            getattr(want, "number", None):
                        return (f"{note}: {n} -> {dst} by "
                                f"{getattr(got, 'number', got)}, not "
                                f"{getattr(want, 'number', want)}")
                    here = table.get((n, dst)) or table.get(("*", dst))
                    if bool(mod.is_registered(n, dst)) != bool(here):
                        return f"{note}: is_registered({n}, {dst})"
            for key, f in foreign.items():
                if gsp.io.converters.get(key) is not f:
                    return f"{note}: converter {key} of the library"
            return None

        def verify(note):
            wrong = holds(note)
            ctx.check(wrong is None, "wrong-converter", wrong)
            ctx.state(sorted(table), len(log), sum(e[3] is not None for e in log))

        def wire(entry):
            """The parameter the command has to show now."""
            _, _, value, conv = entry
            if conv is None:
                return value
            number, dst = conv
            return self.expected(number, dst, value)

        for op in plan["ops"]:
            kind, outcome = op[0], "ok"
            failing.arm(None)
            if kind == "reg":
                _, names, form, dst, fault, again = op
                if not (again and dst in latest):
                    latest[dst] = self.converter(w, next(numbers), dst, failing)
                func = latest[dst]
                taken = [n for n in names if (n, dst) in table]
                got, err, injected = call(
                    lambda: gsp.io.register(names_of(names, form), dst)(func), fault)
                if err is None:
                    ctx.check(not taken, "registered-twice", lambda: f"{taken} -> {dst}")
                    ctx.check(got is func, "decorator", "the function is not returned")
                    table.update({(n, dst): func for n in names})
                else:
                    outcome = "raised"
                    ctx.check(taken or injected is not None, "refused",
                              lambda: f"{names} -> {dst}: {err!r}")
                    if injected is None:
                        ctx.check(isinstance(err, TypeError), "refusal", lambda: repr(err))
                        ctx.fault("refused")
                    elif holds("") is not None and not taken:
                        # failed after its effect: all of it
                        table.update({(n, dst): func for n in names})
                verify("register")
            elif kind == "unreg":
                _, names, form, dst, fault = op
                before = dict(table)
                got, err, injected = call(
                    lambda: gsp.io.unregister(names_of(names, form), dst), fault)
                if err is not None:
                    ctx.check(injected is not None, "unregister", lambda: repr(err))
                    outcome = "raised"
                # (interrupted amid several names: a part of them)
                for n in names:
                    if err is None or (n, dst) in table and \
                            gsp.io.converters.get((n, dst)) is None:
                        table.pop((n, dst), None)
                verify("unregister")
            elif kind == "put":
                _, method, cls, x, style, fault = op
                value = self.value(w, cls, x) if style != "omit" else w.default
                accepted = [w.types[t] for t in METHODS[method]]
                direct = value is None or isinstance(value, tuple(accepted))
                conv = None
                if not direct:
                    for t in METHODS[method]:
                        f = self.lookup(table, type(value), t)
                        if f is not None:
                            conv = (f.number, t)
                n = len(queue)
                failing.arm(fault)
                pos = [value] if style == "pos" else []
                kw = {"v": value} if style == "kw" else {}
                try:
                    getattr(rig, method)(*pos, **kw)
                    err = None
                except (Exception, KeyboardInterrupt, SystemExit) as e:
                    err = e
                if failing.fired is not None:
                    ctx.fault(f"converter-{fault[1]}")
                    ctx.check(err is not None and reaches(err, failing.fired), "hidden-failure",
                              lambda: f"{method}: {err!r}")
                    outcome = "raised"
                elif err is not None:
                    if not isinstance(err, Exception):
                        raise err
                    outcome = "refused"
                    ctx.check(not direct and conv is None, "refused",
                              lambda: f"{method}({cls}): {err!r}")
                    ctx.fault("refused")
                else:
                    ctx.check(w.sink and w.sink[-1][0] == method and w.sink[-1][1] is value,
                              "call-argument", lambda: f"{method}: {w.sink[-1:]}")
                    ctx.check(direct or conv is not None, "accepted",
                              lambda: f"{method}({cls}) without a converter")
                    if conv and conv[1] == "Tint":
                        w.values.append(value)
                        value, conv = self.expected(*conv, value), None
                    log.append([f"Rig/{method}", int(rig.id), value, conv])
                    if conv:
                        w.values.append(value)
                failing.arm(None)
                ctx.check(len(queue) == n + (outcome == "ok"), "recorded",
                          lambda: f"{method}: {len(queue)} commands after {n}")
            elif kind == "mutate":
                v = w.values[op[1] % len(w.values)]
                if hasattr(v, "x") and not isinstance(v, int):
                    v.x = op[2]
            elif kind == "convert":
                _, cls, x, dst, astype, fault, callfault = op
                value = self.value(w, cls, x)
                f = self.lookup(table, type(value), dst)
                failing.arm(fault)
                n = len(queue)
                boxes = dst == "Box" and f is not None
                got, err, injected = call(
                    lambda: gsp.io.convert(value, w.types[dst] if astype else dst),
                    callfault if not boxes else None) if not (fault and f) else \
                    self.plain(lambda: gsp.io.convert(value, w.types[dst] if astype else dst))
                if failing.fired is not None:
                    ctx.fault(f"converter-{fault[1]}")
                    outcome = "raised"
                    ctx.check(err is not None, "hidden-failure", "convert() returned")
                    if not isinstance(failing.fired, Exception):
                        ctx.check(err is failing.fired, "hidden-failure",
                                  lambda: f"convert() made {err!r} of {failing.fired!r}")
                elif err is not None:
                    outcome = "refused"
                    if injected is None:
                        ctx.check(f is None and isinstance(err, ValueError), "convert-refused",
                                  lambda: f"{cls} -> {dst}: {err!r}")
                    elif not isinstance(injected, Exception):
                        ctx.check(err is injected, "hidden-failure", lambda: repr(err))
                else:
                    ctx.check(f is not None, "convert-accepted", lambda: f"{cls} -> {dst}: {got!r}")
                    ctx.check(isinstance(got, w.types[dst]), "convert-type", lambda: repr(got))
                    if dst != "Box":
                        ctx.check(got == self.expected(f.number, dst, value), "convert-value",
                                  lambda: f"{got!r} by {f.number}")
                    else:
                        # (the box is made by a recorded call)
                        for c in list(queue)[n:]:
                            log.append(["Box/__init__", int(got.id), got.k, None])
                            if isinstance(got.k, w.T9):
                                log[-1][2:] = [got.k, "T9"]
                failing.arm(None)
            elif kind in ("dump", "run"):
                failing.arm(op[1])
                before = list(queue)
                parameters = [dict(c.parameters) for c in before]
                w.sink.clear()
                err = text = None
                try:
                    if kind == "dump":
                        text = dump(queue)
                    else:
                        queue.run(backend)
                except (Exception, KeyboardInterrupt, SystemExit) as e:
                    err = e
                fired = failing.fired
                failing.arm(None)
                if fired is not None:
                    ctx.fault(f"converter-{op[1][1]}")
                    outcome = "raised"
                    ctx.check(err is not None and reaches(err, fired), "hidden-failure",
                              lambda: f"{kind}: {err!r}")
                elif err is not None:
                    raise err
                ctx.check(len(queue) == len(before) and
                          all(a is b for a, b in zip(queue, before)), "log-changed",
                          lambda: f"{kind}: {len(queue)} commands of {len(before)}")
                for c, p in zip(queue, parameters):
                    ctx.check(c.parameters.keys() == p.keys() and
                              all(c.parameters[k] is p[k] for k in p), "command-changed",
                              lambda: f"{kind}: command {c.id}")
                if fired is None and kind == "dump":
                    self.dumped(ctx, json.loads(text)["commands"], log, wire)
                elif fired is None:
                    self.executed(ctx, w, log, wire)
            elif kind == "meddle":
                # the next converter that works changes the table meanwhile
                _, what, n, dst = op

                def hook(what=what, n=n, dst=dst):
                    ctx.fault("reentrant")
                    if what == "unreg":
                        gsp.io.unregister(n, dst)
                        table.pop((n, dst), None)
                    elif (n, dst) not in table:
                        f = self.converter(w, next(numbers), dst, failing)
                        gsp.io.register(n, dst)(f)
                        table[n, dst] = f
                failing.hook = hook
            elif kind == "empty":
                queue.empty()
                log.clear()
                w.sink.clear()
                rig = w.Rig()
                log.append(["Rig/__init__", int(rig.id), None, None])
            ctx.op(kind, outcome)
        failing.arm(None)
        verify("end")
        self.dumped(ctx, json.loads(dump(queue))["commands"], log, wire)

    @staticmethod
    def plain(func):
        try:
            return func(), None, None
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            return None, e, None

    @staticmethod
    def value(w, cls, x):
        if cls in RAW:
            return {"str": f"s{x}", "none": None, "dict": {"d": x}, "int": x}[cls]
        if cls in DEEP:
            kind = {"V": str, "D": dict, "I": int}[cls[0]]
            for n in range(int(cls[1])):
                kind = w.deep.setdefault((cls[0], n), type(f"{cls[0]}{n + 1}", (kind,), {}))
            return kind({"V": f"s{x}", "D": {"d": x}, "I": x}[cls[0]])
        return getattr(w, cls)(x)

    def dumped(self, ctx, commands, log, wire):
        rest = iter(commands)
        for entry in log:
            method, oid, value, conv = entry
            c = next(rest, None)
            ctx.check(c is not None, "lost-command", method)
            if conv == "T9":
                value, conv = f"9:T9:{x_of(value)}", None
            if conv and conv[1] == "Box":
                p = c["parameters"]
                ctx.check(c["method"] == "Box/__init__" and
                          p.get("k") == self.expected(*conv, value), "converted-command",
                          lambda: f"{c['method']} {p} before {method}")
                box, c = p["id"], next(rest, None)
                ctx.check(c is not None and c["method"] == method, "lost-command", method)
                p = c["parameters"]
                ctx.check(p == {"id": oid, "v(id)": box}, "converted-value",
                          lambda: f"{method} {p}, box {box}")
                continue
            want = {"id": oid}
            if method != "Rig/__init__":
                key = "k" if method.startswith("Box") else "v"
                want[key] = wire([method, oid, value, conv])
            ctx.check(c["method"] == method and c["parameters"] == want, "converted-value",
                      lambda: f"{c['method']} {c['parameters']}, not {method} {want}")
        extra = next(rest, None)
        ctx.check(extra is None, "extra-command", lambda: str(extra))

    def executed(self, ctx, w, log, wire):
        want = [e for e in log if e[0].startswith("Rig/put")]
        ctx.check(len(want) == len(w.sink), "executed", lambda: f"{len(w.sink)} of {len(want)}")
        for (method, got), entry in zip(w.sink, want):
            value = wire(entry)
            if entry[3] and entry[3][1] == "Box":
                ctx.check(isinstance(got, w.Box), "executed-value", lambda: f"{method}: {got!r}")
                got = got.k
                if isinstance(got, w.T9):
                    got = f"9:T9:{x_of(got)}"
            ctx.check(entry[0] == f"Rig/{method}" and got == value, "executed-value",
                      lambda: f"{method}({got!r}), not {entry[0]}({value!r})")

    # ------------------------------------------------------------------
    def threads(self, ctx, plan, s):
        gsp = s.node.gsp
        mod = s.node.mod("gsp.io.convert")
        funcs, history = {}, []
        start = {}
        numbers = iter(range(10 ** 6))

        def do(op, t, i, clock):
            kind, names, form, dst = op
            arg = names[0] if form == "one" else (tuple if form == "tuple" else list)(names)
            number = next(numbers)
            begin, result = clock(), "ok"
            try:
                if kind == "reg":
                    def f(v):
                        return v
                    f.number = number
                    funcs[number] = f
                    gsp.io.register(arg, dst)(f)
                else:
                    gsp.io.unregister(arg, dst)
            except TypeError:
                if kind != "reg":
                    raise
                result = "refused"
                ctx.fault("refused")
            history.append((kind, [(n, dst) for n in names], number, result, begin, clock(), t))
            ctx.op(f"{t}:{kind}", result)

        for i, op in enumerate(plan["ops"]):
            do(op, None, i, lambda: -1)
        for kind, keys, number, result, *_ in history:
            if result == "ok":
                start.update({k: number for k in keys})
        history.clear()
        sched = Scheduler(ctx, plan["switch"], fine=plan["fine"], focus=plan["focus"])
        ticks = iter(range(10 ** 9))

        def body(t, ops):
            def work():
                for i, op in enumerate(ops):
                    do(op, t, i, lambda: next(ticks))
            return work
        dead = sched.run([body(t, ops) for t, ops in enumerate(plan["threads"])])
        if dead:
            raise Violation(dead, f"after {sched.steps} steps")
        for task in sched.tasks:
            if task.error is not None:
                raise task.error
        final = {}
        for n in THREADED:
            for dst in DSTS[:2]:
                f = mod.is_registered(n, dst)
                if f:
                    final[n, dst] = f.number
        ctx.check(linearizable(history, start, final), "not-linearizable",
                  lambda: f"{history} from {start} to {final}")
        ctx.state(sorted(final), [h[3] for h in history])


def linearizable(history, start, final):
    """Is there an order of the calls, in accord with their times, that explains it all?"""
    seen = set()

    def search(done, table):
        if len(done) == len(history):
            return table == final
        key = done, frozenset(table.items())
        if key in seen:
            return False
        seen.add(key)
        rest = [i for i in range(len(history)) if i not in done]
        first = min(history[i][5] for i in rest)
        for i in rest:
            kind, keys, number, result, begin, _, _ = history[i]
            if begin > first:
                continue
            after = dict(table)
            if kind == "reg":
                free = not any(k in table for k in keys)
                if free != (result == "ok"):
                    continue
                if free:
                    after.update({k: number for k in keys})
            else:
                for k in keys:
                    after.pop(k, None)
            if search(done | {i}, after):
                return True
        return False
    return search(frozenset(), dict(start))


CHECK = C28()
