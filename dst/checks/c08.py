"""C08: a failing replay is reported, leaves the queue intact and can be retried."""
import os

from .. import scene
from ..node import Node, SimClock, close_figures, draw_age
from ..observe import CallFaults, Observed, reaches
from ..scratch import scratch
from ..session import norm_method
from ..sim import Check, SimFault, Violation
from .c07 import C07, build, images, resize, same_images
from .c09 import CONVERSIONS, raw_calls, same_snapshot, snapshot

ERRORS = {"error": lambda: SimFault("injected"), "memory": lambda: MemoryError("injected"),
          "os": lambda: OSError(5, "injected"), "interrupt": lambda: KeyboardInterrupt("injected"),
          "key": lambda: KeyError("injected"), "attribute": lambda: AttributeError("injected")}


class Broken:
    """Breaks one command of a queue for some time."""

    def __init__(self, q, how, k):
        self.q, self.how = q, how
        cs = q.commands
        self.i = k % len(cs)
        c = self.c = cs[self.i]
        self.saved = (c.classname, c.methodname, c.parameters)
        if how == "missing":
            # another command loses the object it needs: its id is unknown
            refs = [(j, x) for j, c in enumerate(cs) for x in c.parameters
                    if x.endswith("(id)") or
                    (x == "id" and "." not in c.methodname and c.methodname != "__init__")]
            self.i, key = next((x for x in refs if x[0] >= self.i), refs[0])
            c = self.c = cs[self.i]
            self.saved = (c.classname, c.methodname, c.parameters)
            c.parameters = dict(c.parameters, **{key: 987654321})
        elif how == "unknown":
            if "." in c.methodname:
                c.methodname += "Unknown"
            elif c.methodname == "__init__":
                c.classname += "Unknown"
            else:
                c.methodname += "_unknown"
        elif how == "argument":
            c.parameters = dict(c.parameters, nonsense=3)

    def restore(self):
        self.c.classname, self.c.methodname, self.c.parameters = self.saved


class C08(Check):
    id = "C08"
    quick, thorough = 900, 30000
    rule = ("A run records a random program (as in C07, either flavour), keeps it live or "
            "saves, restarts and loads it, and runs the queue up to four times with a failure "
            "each: at any command (before or after its effect), at any library call made "
            "meanwhile, or because a command names an unknown object, method or argument. It "
            "then checks what was executed, all queues and that recording goes on, runs the "
            "queue again without failure, and saves, restarts, loads and runs it.")
    state_measure = "kind of failure, failing call, and the queue states it met"
    stub = "clock; the window system"

    def plan(self, r, tier):
        g = scene.Gen(r)
        g.canvas()
        for _ in range(r.choice([1, 2])):
            g.viewport()
        g.visual_()
        for _ in range(r.randrange(0, 6 if tier == "quick" else 12)):
            r.choice([g.visual_, g.write, g.render, g.viewport, g.settrans, g.clock])()
        g.render()
        fails = []
        for _ in range(r.choice([1, 1, 2, 4])):
            how = r.choice(["call", "call", "lib", "lib", "missing", "unknown", "argument"])
            fails.append([how, r.randrange(10**6), r.choice(sorted(ERRORS)),
                          r.choice(["before", "after"]), r.random() < .3, r.random() < .8,
                          r.choice(["main", "main", "b"])])
        return {"age": draw_age(r), "flavour": r.choice(["gsp", "mpl"]), "live": r.random() < .5, "ops": g.ops,
                "fails": fails}

    def run(self, ctx, plan):
        ops, fl, live = plan["ops"], plan["flavour"], plan["live"]
        if live:
            first = next((i for i, o in enumerate(ops) if o[0] == "render"), len(ops))
            ops = [o for i, o in enumerate(ops)
                   if i < first or o[0] not in ("write", "settrans")]
        with scratch() as top:
            os.chdir(top)
            path = os.path.join(top, "s.json")
            # what a run that never fails shows
            node = Node(clock=SimClock())
            with node:
                want = images(build(node, "mpl", ops))
            close_figures()

            node = Node(clock=SimClock())
            node.__enter__()
            try:
                q = node.gsp.io.queue("main")
                node.age(plan["age"])
                s = build(node, fl, ops, ctx)
                if not q.commands:
                    return
                if not live:
                    node.gsp.save(path)
                    node.__exit__()
                    close_figures()
                    node = Node(clock=SimClock())
                    node.__enter__()
                    node.gsp.io.queue("main")
                    q = node.gsp.load(path)
                    ctx.fault("client-crash")
                node.gsp.io.queue("b")
                for f in plan["fails"]:
                    close_figures()
                    self.fail(ctx, node, q, f, live)
                close_figures()
                before = snapshot(node)
                q.run(node.mpl)
                same_snapshot(ctx, before, snapshot(node), "a run after a failure")
                same_images(ctx, images(s, node.gsp.Object.objects), want, "image-differs",
                            "run again after a failure")
                node.gsp.io.json.save(path, q)
            finally:
                node.__exit__()
            close_figures()
            node = Node(clock=SimClock())
            with node:
                node.gsp.load(path).run(node.mpl)
                same_images(ctx, images(s, node.gsp.Object.objects), want, "image-differs",
                            "loaded and run after a failure")

    def fail(self, ctx, node, q, f, live):
        how, k, err, phase, readonly, recording, active = f
        command = node.mod("gsp.io.command")
        command.CommandQueue.active = node.gsp.io.queue(active)
        q.readonly = readonly
        command.record(recording)
        q2 = node.gsp.io.queue("active")
        ctx.check(q2.name == active, "harness", q2.name)
        calls = raw_calls(q)
        injected = []

        def make():
            injected.append(ERRORS[err]())
            return injected[0]

        def on_call(i, name, ph):
            if not injected and i >= k % len(calls) and ph == phase:
                injected.append(make())
                raise injected[0]

        broken = fault = None
        if how == "lib":
            # library calls are counted in a dry run of a private kind: the number is
            # drawn over a range and may exceed what there is
            fault = CallFaults(k % 60 if k % 3 else k % 900, make)
        elif how != "call":
            broken = Broken(q, how, k)
        before = snapshot(node)
        error = None
        with Observed(node, on_call if how == "call" else None,
                      limit=3 * len(calls) + 20) as obs:
            try:
                if fault:
                    with fault:
                        q.run(obs.backend)
                else:
                    q.run(obs.backend)
            except Violation:
                raise
            except BaseException as e:
                error = e
        got = [norm_method(c) for c in obs.log]
        ctx.op(f"{how}:{err if how in ('call', 'lib') else ''}",
               type(error).__name__ if error is not None else "none")
        same_snapshot(ctx, before, snapshot(node), f"a run failing by {how}")
        if how == "lib" and fault.fired is None:
            pass                                    # there were fewer calls
        elif how == "lib":
            ctx.fault("library-call-error")
            if error is None:
                ctx.op("handled", fault.fired)      # the command coped with it
            else:
                ctx.check(reaches(error, injected[0]), "other-error",
                          f"{type(error).__name__}: {error} instead of the error of "
                          f"{fault.fired}")
        elif how == "call":
            if injected:
                ctx.fault("command-error")
                ctx.check(error is not None, "error-swallowed",
                          f"command {k % len(calls)} failed, run returned")
                ctx.check(reaches(error, injected[0]), "other-error",
                          f"{type(error).__name__}: {error} instead of the command's")
                ctx.check(len(got) == k % len(calls) + 1, "executed-after-failure",
                          f"{got[k % len(calls) + 1:][:3]} after call {k % len(calls)} failed")
            else:
                raise Violation("not-executed", f"only {len(got)} calls were made")
        else:
            ctx.fault(f"{how}-in-queue")
            ctx.check(error is not None, "error-swallowed",
                      f"command {broken.i} has an {how} error, run returned")
            want = [norm_method(c) for c in calls[:broken.i]]
            # the failing command itself may have been called
            tail = [norm_method(c) for c in raw_calls(q)[broken.i:broken.i + 1]]
            tail += [norm_method(c) for c in calls[broken.i:broken.i + 1]]
            self.prefix(ctx, got, want, tail, live)
        if broken:
            broken.restore()
        ctx.state(how, err, got[-1:], readonly, recording, active, live)

        # what is issued afterwards is recorded as usual
        objects = node.gsp.Object.objects
        n = len(q.commands), len(node.gsp.io.queue("b").commands)
        act = node.gsp.io.queue("active")
        c = node.gsp.core.Canvas(9, 9, 50.0)
        ctx.check(objects.get(c.id) is c, "not-registered", f"object {c.id}")
        m = len(q.commands), len(node.gsp.io.queue("b").commands)
        grow = int(recording and not act.readonly)
        want = (n[0] + (grow if active == "main" else 0), n[1] + (grow if active == "b" else 0))
        ctx.check(m == want, "not-recorded",
                  f"after a failed run a call makes the queues {n} long {m} instead of {want}")
        if grow:
            last = act.commands[-1]
            ctx.check(last.parameters["id"] == c.id, "not-recorded", "wrong command")
        command.record(True)
        q.readonly = False

    @staticmethod
    def prefix(ctx, got, want, tail, live):
        j = 0
        for i, c in enumerate(got):
            if j < len(want) and c == want[j]:
                j += 1
            elif live and c in CONVERSIONS:
                continue
            elif j == len(want) and c in tail and i == len(got) - 1:
                continue
            else:
                raise Violation("executed-after-failure" if j == len(want) else "calls-differ",
                                f"call {i} is {c}")
        ctx.check(j == len(want), "calls-differ", f"only {got} before the failing command")


CHECK = C08()
