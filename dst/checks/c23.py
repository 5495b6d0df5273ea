"""C23: transforms are expressions; building or changing one disturbs no other."""
import copy
import os

import matplotlib
import numpy as np

from .. import scene
from ..node import Node, SimClock, close_figures
from ..observe import CallFaults, reaches
from ..scratch import scratch
from ..sim import Check, SimFault, Violation

ERRORS = {"error": lambda: SimFault("injected"), "memory": lambda: MemoryError("injected"),
          "value": lambda: ValueError("injected"), "key": lambda: KeyError("injected"),
          "attribute": lambda: AttributeError("injected"),
          "interrupt": lambda: KeyboardInterrupt("injected")}
ACCESS = "XYZWRGBA"
INCH = {"px": None, "in": 1.0, "pt": 1 / 72, "cm": 1 / 2.54, "mm": .1 / 2.54, "m": 100 / 2.54,
        "km": 1e5 / 2.54}
MAPS = ["magma", "gray", "viridis", "plasma"]
RECORD = [("x", "f4"), ("value", "f8"), ("count", "i4")]
N = 4                                   # items of every array
OUT = {"screen[positions]": scene.values(7, (N, 3), -9, 9, np.float32),
       "sizes": scene.values(8, (N,), 1, 9, float),
       "colors": scene.values(9, (N, 4), 0, 1, np.float32)}


class Unbound(Exception):
    """The expression has no value."""


class T:
    """Reference model of a transform: a node of an expression."""

    def __init__(self, kind, param=None, left=None, right=None):
        self.kind, self.param = kind, param
        self.left, self.right = left, right
        self.next = self.buffer = None
        self.root = self                # the transform it was copied from
        self.swapped = False            # operands may be in any order

    def copy(self):
        c = T(self.kind, copy.copy(self.param), dup(self.left), dup(self.right))
        c.buffer, c.next = self.buffer, dup(self.next)
        c.root, c.swapped = self.root, self.swapped
        return c

    @property
    def last(self):
        t = self
        while t.next is not None:
            t = t.next
        return t

    @property
    def bound(self):
        if self.kind in "+-*/":
            return all(x.bound if isinstance(x, T) else x is not None
                       for x in (self.left, self.right))
        return self.buffer is not None if self.next is None else self.last.bound

    def nodes(self):
        yield self
        for x in (self.next, self.left, self.right, self.buffer):
            if isinstance(x, T):
                yield from x.nodes()

    def leaves(self):
        for t in self.nodes():
            for x in (t.left, t.right, t.buffer):
                if isinstance(x, Leaf):
                    yield x

    def value(self, env):
        if self.kind in "+-*/":
            a, b = number(self.left, env), number(self.right, env)
            return a + b if self.kind == "+" else a - b if self.kind == "-" else \
                a * b if self.kind == "*" else a / b
        if self.kind == "out":
            name, _, key = self.param.partition(".")
            if name not in OUT:
                raise Unbound(name)
            v = OUT[name]
            s = "xyzw" if set(key) <= set("xyzw") else "rgba"
            return v[..., [s.index(c) for c in key]] if key else v
        if self.next is not None:
            v = self.next.value(env)
        elif self.buffer is not None:
            v = number(self.buffer, env)
        elif self.kind == "unit":
            v = 1.0
        else:
            raise Unbound(self.kind)
        if self.kind == "access":
            v = np.asarray(v)
            if v.dtype.names:
                if self.param not in v.dtype.names:
                    raise Unbound(self.param)
                return env.items(v[self.param])
            i = "xyzw".find(self.param) if self.param in "xyzw" else "rgba".find(self.param)
            if len(self.param) != 1 or i < 0 or v.ndim < 1 or i >= v.shape[-1]:
                raise Unbound(self.param)
            return env.items(v[..., i])
        if self.kind == "cmap":
            name, lo, hi = self.param
            if name not in MAPS:
                raise Unbound(name)
            v = np.asarray(v)
            lo, hi = v.min() if lo is None else lo, v.max() if hi is None else hi
            norm = matplotlib.colors.Normalize(lo, hi)
            # (a value at the edge between two colors may round to either)
            return np.asarray(matplotlib.colormaps[name](norm(v) + env.nudge))
        if self.kind == "unit":
            return env.length(np.asarray(v, dtype=float), self.param)
        raise Unbound(self.kind)


class Leaf:
    """An array the program holds."""

    def __init__(self, slot):
        self.slot = slot


def dup(x):
    return x.copy() if isinstance(x, T) else x


def number(x, env):
    if isinstance(x, T):
        return x.value(env)
    if isinstance(x, Leaf):
        return env.arrays[x.slot]["now"]
    if x is None:
        raise Unbound("operand")
    return np.asarray(x) if isinstance(x, tuple) else x


class Env:
    """Where lengths are evaluated: in a canvas or viewport, or given sizes."""

    def __init__(self, arrays, kind, w, h, dpi):
        self.arrays, self.kind = arrays, kind
        self.w, self.h, self.dpi = w, h, dpi
        self.nudge = 0.0

    def items(self, v):
        """Items of a field that are asked for."""
        return v[self.w % N] if self.kind == "index" else v

    def length(self, v, unit):
        pixels = v * (1.0 if INCH[unit] is None else INCH[unit] * self.dpi)
        if v.ndim and v.shape[-1] not in (1, 2, 3):
            raise Unbound("shape")
        size = np.array([1, 1, np.inf]) if self.kind in ("dpi", "index") else \
            np.array([min(self.w, self.h) / 2.0] * 2 + [np.inf]) if self.kind == "viewport" else \
            np.array([self.w, self.h, np.inf], float)
        if v.ndim == 0 or v.shape[-1] == 1:
            return pixels / size[0]
        return pixels / size[:v.shape[-1]]

    def variables(self, real):
        v = {k: a.copy() for k, a in OUT.items()}
        if self.kind in ("dpi", "index"):
            v["dpi"] = self.dpi
            if self.kind == "index":
                v["index"] = self.w % N
        elif self.kind == "given":
            v["dpi"], v["size"] = self.dpi, (self.w, self.h)
        else:
            v[self.kind] = real[self.kind]
        return v


class Run:
    def __init__(self, ctx, node, flavour, size):
        self.ctx, self.node = ctx, node
        self.s = scene.Scene(node, flavour, ctx)
        self.t = self.s.t
        self.real, self.model = {}, {}  # by slot
        w, h, dpi = size
        canvas = node.mpl.core.Canvas(w, h, float(dpi))
        self.places = {"canvas": canvas,
                       "viewport": node.mpl.core.Viewport(canvas, 0, 0, 1.0, 1.0, (1, 1, 1, 1))}
        self.envs = [Env(self.s.arrays, k, w, h, float(dpi))
                     for k in ("dpi", "given", "canvas", "viewport", "index")]

    # ---- operands
    def pair(self, spec):
        """(real, model) of an operand."""
        kind = spec[0]
        if kind == "t":
            if spec[1] not in self.real:
                raise scene.Missing(spec)
            return self.real[spec[1]], self.model[spec[1]]
        if kind == "arr":
            return self.s.array(spec[1]), Leaf(spec[1])
        if kind == "tuple":
            return tuple(spec[1]), tuple(spec[1])
        return spec[1], spec[1]

    # ---- operations: (thunk on the real objects, then on the model)
    def step(self, op):
        kind = op[0]
        t, T_ = self.t, T
        if kind == "new":
            what, *p = op[2:]
            if what == "access":
                return lambda: getattr(t, p[0])(), lambda: T_("access", p[0].lower())
            if what == "field":
                return lambda: t.Accessor(None, p[0]), lambda: T_("access", p[0])
            if what == "cmap":
                return lambda: t.Colormap(*p), lambda: T_("cmap", list(p))
            if what == "out":
                return lambda: t.Out(p[0]), lambda: T_("out", p[0])
            if what == "unit":
                return lambda: getattr(t, scene.UNITS[p[0]])(), lambda: T_("unit", p[0])
            a, b = self.pair(p[1]), self.pair(p[2])
            cls = {"+": t.Add, "-": t.Sub, "*": t.Mul, "/": t.Div}[p[0]]
            return (lambda: cls(a[0], b[0])), lambda: T_(p[0], None, dup(a[1]), dup(b[1]))
        if kind == "op":
            _, _, o, a, b = op
            a, b = self.pair(a), self.pair(b)
            if o == "neg":
                return (lambda: -a[0]), lambda: T_("*", None, dup(a[1]), -1.0)
            f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y,
                 "/": lambda x, y: x / y}[o]

            def combined():
                c = T_(o, None, dup(a[1]), dup(b[1]))
                c.swapped = not isinstance(a[1], T)
                return c
            return (lambda: f(a[0], b[0])), combined
        if kind == "call":
            a, b = self.pair(["t", op[2]]), self.pair(op[3])

            def called():
                c = a[1].copy()
                if isinstance(b[1], T):
                    c.last.buffer, c.last.next = None, dup(b[1])
                else:
                    c.last.buffer = b[1]
                return c
            return (lambda: a[0](b[0])), called
        if kind == "measure":           # 3 * unit, unit * array
            a, b = self.pair(["t", op[2]]), self.pair(op[3])

            def measured():
                c = a[1].copy()
                c.buffer = b[1]
                return c
            return (lambda: b[0] * a[0] if op[4] else a[0] * b[0]), measured
        if kind == "part":              # an operand or the next one of a chain
            a = self.pair(["t", op[2]])
            if not isinstance(getattr(a[1], op[3]), T) or op[3] != "next" and a[1].swapped:
                raise scene.Missing(op)
            return (lambda: getattr(a[0], op[3])), lambda: getattr(a[1], op[3])
        if kind == "copy":
            a = self.pair(["t", op[2]])
            return (lambda: a[0].copy()), lambda: a[1].copy()
        if kind == "set":
            a, b = self.pair(["t", op[1]]), self.pair(op[3])

            def changed():
                if op[2] == "colormap":
                    a[1].param[0] = b[1]
                else:
                    setattr(a[1], op[2], b[1])
            return (lambda: getattr(a[0], "set_" + op[2])(b[0])), changed
        raise AssertionError(op)

    def apply(self, op):
        """Perform an operation in both; False if it does not apply."""
        kind = op[0]
        if kind == "array" and op[2] == "rec":
            v = np.zeros(N, RECORD)
            for name in v.dtype.names:
                v[name] = scene.values(op[4] + len(name), (N,), -9, 9)
            a = v if op[3] == "nd" else self.s.core.Buffer(N, v.dtype, v.tobytes())
            self.s.arrays[op[1]] = {"kind": "rec", "arr": a, "n": N, "now": v.copy()}
            return True
        if kind in ("array", "write"):
            if kind == "write" and self.s.arrays.get(op[1], {}).get("kind") == "rec":
                return False
            return self.s.apply(op)
        try:
            real, model = self.step(op)
        except scene.Missing:
            return False
        if not self.allowed(op):
            return False
        got = real()
        self.done(op, got, model)
        return True

    def done(self, op, got, model):
        want = model()
        if op[0] != "set":
            self.real[op[1]], self.model[op[1]] = got, want
            self.look(op[1])

    def allowed(self, op):
        """(Uses whose meaning is not defined are left out.)"""
        kind = op[0]
        if kind in ("call", "measure"):
            a = self.model[op[2]]
            last = a.last
            if a.kind in "+-*/" or a.kind == "out" or last.kind in "+-*/" or last.kind == "out":
                return False
            if kind == "measure":
                if op[3][0] == "arr" and not isinstance(self.s.array(op[3][1]), np.ndarray):
                    return False
                return a.kind == "unit" and a.next is None and a.buffer is None
            if op[3][0] == "t":         # (a chain that ends in data is not chained again)
                return True if last.buffer is None or last is a else False
            return last.buffer is None
        if kind == "op" and op[2] == "*":   # (scaling a measure binds it, see "measure")
            a, b = self.pair(op[3])[1], self.pair(op[4])[1]
            return not any(isinstance(x, T) and x.kind == "unit" for x in (a, b))
        if kind == "set":
            a, what = self.model[op[1]], op[2]
            if what == "colormap":
                return a.kind == "cmap"
            if what in ("left", "right"):
                if a.kind not in "+-*/" or a.swapped:
                    return False
            elif a.kind in "+-*/" or a.kind == "out":
                return False
            if op[3][0] == "t":         # no cycles
                return all(x is not a for x in self.model[op[3][1]].nodes())
        return True

    # ---- observation
    def look(self, slot):
        """Looking at a transform works."""
        t, m = self.real[slot], self.model[slot]
        repr(t)
        if t.base.id != self.base(m):
            raise Violation("other-base", f"transform {slot}: base {t.base.id} instead of "
                            f"{self.base(m)}")

    def base(self, m):
        for slot, x in self.model.items():
            if x is m.root:
                return self.real[slot].id

    def evaluable(self, m):
        """Buffers of the abstract protocol hold no data in the client."""
        return self.s.flavour == "mpl" or \
            not any(hasattr(self.s.arrays[x.slot]["arr"], "_dtype") or
                    self.s.arrays[x.slot]["kind"].startswith("buf") for x in m.leaves())

    def compare(self, what, real=None):
        for slot, m in self.model.items():
            if real is None and not self.evaluable(m):
                continue
            t = (real or self.real)[slot]
            if bool(t.bound) != m.bound:
                raise Violation("other-bound", f"transform {slot} {what} is said to be "
                                f"{'' if t.bound else 'un'}bound")
            for e in self.envs:
                self.value(slot, t, m, e, what)

    @staticmethod
    def near(got, want, m, e):
        close = np.isclose(got, want, 1e-5, 1e-7, equal_nan=True)
        if not close.all() and any(x.kind == "cmap" for x in m.nodes()):
            for e.nudge in (1e-6, -1e-6):
                close |= np.isclose(got, m.value(e), 1e-5, 1e-7, equal_nan=True)
            e.nudge = 0.0
        return close.all()

    def value(self, slot, t, m, e, what):
        where = f"transform {slot} {what} ({e.kind})"
        try:
            want = m.value(e)
            want = np.asarray(want)
        except (Unbound, ValueError, TypeError, IndexError, ZeroDivisionError):   # (no value, or shapes that do not fit)
            want = None
        try:
            got = np.asarray(t.evaluate(e.variables(self.places)))
        except Exception as err:
            if want is not None:
                raise Violation("no-value", f"{where}: {type(err).__name__}: {err} instead of "
                                f"{want.ravel()[:6].tolist()}")
            return
        if want is None:
            raise Violation("unbound-value", f"{where}: {got.ravel()[:6].tolist()} for an "
                            "expression without a value")
        if got.shape != want.shape or not self.near(got, want, m, e):
            raise Violation("other-value", f"{where}: {got.shape} {got.ravel()[:8].tolist()} "
                            f"instead of {want.shape} {want.ravel()[:8].tolist()}")
        self.ctx.state(got.shape, np.round(got.ravel()[:8].astype(float), 2).tolist())

    def bad(self, op):
        """Calls that have to be refused."""
        k, a = op[1], self.pair(["t", op[2]])[0]
        t = self.t
        m = self.model[op[2]]
        calls = [lambda: a("text"), lambda: a(None), lambda: t.Colormap(3),
                 lambda: t.Out("a.b")(), lambda: a.set_next("text"), lambda: t.Add("a", 2.0),
                 lambda: a.set_buffer("text"), lambda: t.Accessor(None, 5),
                 lambda: a + "text"]
        if k >= len(calls):
            if m.last.buffer is None or m.kind in "+-*/" or m.last.kind in "+-*/" or \
                    m.last.kind == "out":
                return
            calls.append(lambda: a(np.zeros(3, np.float32)))    # bound already
        try:
            calls[min(k, len(calls) - 1)]()
        except Exception as e:
            self.ctx.fault("refused-call")
            self.ctx.op("bad", type(e).__name__)
            return
        raise Violation("not-refused", f"{op} of {m.kind}")


class C23(Check):
    id = "C23"
    quick, thorough = 6000, 200000
    rule = ("A run builds transforms of every kind (accessors, fields, colour maps, measures, "
            "output variables, operators), chains, combines, binds and copies them, changes "
            "them and the data they are bound to, while calls are refused or fail at any "
            "library call (and are made again). After each step every transform, evaluated in "
            "five surroundings, has to give the value of its expression in a reference model. "
            "The session is saved, the client dies, and the transforms replayed by a server "
            "have to give the same values.")
    state_measure = "value of a transform"
    stub = "clock"

    def plan(self, r, tier):
        ops, combined, n = [], [], 0
        g = scene.Gen(r)
        g.n = N

        def array():
            if r.random() < .15:
                g.kinds.append(("rec", N))
                g.ops.append(["array", len(g.kinds) - 1, "rec", r.choice(["nd", "buf"]),
                              r.randrange(10**6)])
                return len(g.kinds) - 1
            i = g.array(r.choice(["vec3", "vec3", "vec4", "nd3", "nd4", "nd1", "float", "as3",
                                  "buf3", "buf1", "buf4"]), N)
            return i

        def slot():
            return max(0, n - 1 - r.randrange(4)) if r.random() < .5 else r.randrange(max(1, n))

        def tr():
            return ["t", slot()]

        def num():
            return ["num", r.choice([0.5, -1.0, 2.0, 3.25, round(r.uniform(-9, 9), 2)])]

        def operand():
            c = r.random()
            return tr() if c < .55 and n else num() if c < .75 else ["arr", array()]

        def new():
            c = r.random()
            if c < .25:
                return ["access", r.choice(ACCESS)]
            if c < .35:
                return ["field", r.choice(["x", "y", "value", "count", "a", "nothing"])]
            if c < .55:
                lim = r.choice([(None, None), (0.0, 1.0), (-5.0, None), (None, 3.0),
                                (-4.0, 0.0), (0.0, None), (None, 0.0), (2.0, 2.5),
                                (-100.0, 100.0)])
                return ["cmap", r.choice(MAPS), *lim]
            if c < .7:
                return ["out", r.choice(["screen[positions]", "screen[positions].x",
                                         "screen[positions].z", "screen[positions].yx", "sizes",
                                         "screen[positions].zyx", "screen[positions].xx",
                                         "colors.rgb", "colors.a", "colors.rgba", "colors.bgra",
                                         "colors.ar", "colors.b", "colors", "missing.x",
                                         "missing"])]
            if c < .85:
                return ["unit", r.choice(sorted(INCH))]
            return ["op", r.choice("+-*/"), operand(), operand()]
        for i in range(r.choice([6, 12, 20] if tier == "quick" else [8, 20, 40, 60])):
            c = r.random()
            if c < .3 or not n:
                op = ["new", n, *new()]
                if op[2] == "op":
                    op[2] = "operator"
            elif c < .5:
                op = ["call", n, slot(), ["arr", array()] if r.random() < .5 else
                      r.choice([tr(), tr(), num(), ["tuple", [1.0, 2.0, .5]]])]
            elif c < .58:
                op = ["measure", n, slot(),
                      r.choice([num(), ["int", 7], ["tuple", [3.0, -2.0]],
                                ["tuple", [1.0, 2.0, 0.5]], ["arr", array()]]), r.random() < .3]
                if op[3][0] == "arr":
                    op[4] = False
            elif c < .7:
                op = ["op", n, r.choice(["+", "-", "*", "/", "neg"]), tr(), operand()]
                if op[2] in "+-*" and op[4][0] == "num" and r.random() < .4:
                    op[3], op[4] = op[4], op[3]
            elif c < .73:
                op = ["copy", n, slot()]
            elif c < .78:
                some = combined if combined and r.random() < .7 else range(n)
                op = ["part", n, r.choice(some), r.choice(["left", "left", "right", "next"])]
            elif c < .87:
                what = r.choice(["next", "buffer", "left", "right", "colormap", "colormap"])
                v = tr() if what == "next" else operand() if what in ("left", "right") else \
                    r.choice([["arr", array()], num(), ["none", None]]) if what == "buffer" else \
                    ["num", r.choice(MAPS + ["no such map"])]
                if what == "next" and r.random() < .2:
                    v = ["none", None]
                op = ["set", slot(), what, v]
            elif c < .94:
                g.write()
                ops += g.ops
                g.ops = []
                continue
            else:
                op = ["bad", r.randrange(12), r.randrange(n)]
            ops += g.ops
            g.ops = []
            if op[0] != "bad" and r.random() < .15:
                ops.append(["fail", op, r.randrange(r.choice([5, 30])), r.choice(sorted(ERRORS))])
            ops.append(op)
            if op[0] == "op" or op[0] == "copy" and op[2] in combined:
                combined.append(n)
            if op[0] not in ("set", "bad"):
                n += 1
            if op[0] == "part" and r.random() < .6:
                what = r.choice(["left", "right", "buffer", "colormap"])
                ops.append(["set", n - 1, what,
                            ["num", r.choice(MAPS)] if what == "colormap" else num()])
            if r.random() < .1:
                ops.append(["faileval", r.randrange(n), r.randrange(12), r.choice(sorted(ERRORS))])
        ops = [o for o in ops if not (o[0] == "write" and self.plain(g.kinds, o[1]))]
        return {"flavour": r.choice(["gsp", "mpl"]), "ops": ops, "dpi": r.choice([50, 72, 100, 87.5]),
                "size": [r.randrange(16, 90), r.randrange(16, 90)]}

    @staticmethod
    def plain(kinds, i):
        return kinds[i][0] == "rec"

    def run(self, ctx, plan):
        with scratch() as top, np.errstate(all="ignore"):
            path = os.path.join(top, "session.json")
            with Node(clock=SimClock()) as node:
                run = Run(ctx, node, plan["flavour"], plan["size"] + [plan["dpi"]])
                for op in plan["ops"]:
                    if op[0] == "fail":
                        self.fail(ctx, run, *op[1:])
                    elif op[0] == "faileval":
                        self.faileval(ctx, run, *op[1:])
                    elif op[0] == "bad":
                        if op[2] in run.real:
                            run.bad(op)
                    elif run.apply(op):
                        ctx.op(op[0] if op[0] != "new" else op[2])
                    run.compare(f"after {op}")
                node.gsp.save(path)
            close_figures()
            ctx.fault("client-crash")
            ids = {slot: t.id for slot, t in run.real.items()}
            with Node(clock=SimClock()) as node:
                node.gsp.load(path)
                node.gsp.io.queue("active").run(node.mpl)
                objects = node.gsp.Object.objects
                real = {}
                for slot, i in ids.items():
                    t = objects.get(i)
                    if type(t).__name__ != type(run.real[slot]).__name__:
                        raise Violation("object-differs", f"transform {slot} is "
                                        f"{type(t).__name__} after a replay")
                    real[slot] = t
                w, h = plan["size"]
                run.places["canvas"] = c = node.mpl.core.Canvas(w, h, float(plan["dpi"]))
                run.places["viewport"] = node.mpl.core.Viewport(c, 0, 0, 1.0, 1.0, (1, 1, 1, 1))
                run.compare("after a replay", real)
            close_figures()

    @staticmethod
    def fail(ctx, run, op, k, err):
        """A step fails; (changes are made again at once)."""
        try:
            real, model = run.step(op)
        except (scene.Missing, AssertionError):
            return
        if not run.allowed(op):
            return
        cf = CallFaults(k, ERRORS[err])
        try:
            with cf:
                got = real()
        except BaseException as e:
            if cf.error is None or not reaches(e, cf.error):
                raise
            ctx.fault("failing-" + op[0])
            if op[0] == "set":
                real()
                run.done(op, None, model)
            return
        if cf.fired:
            ctx.op("handled", cf.fired)
        if op[0] == "set":
            run.done(op, got, model)

    @staticmethod
    def faileval(ctx, run, slot, k, err):
        if slot not in run.real or not run.evaluable(run.model[slot]):
            return
        cf = CallFaults(k, ERRORS[err], within="transform")
        variables = run.envs[2].variables(run.places)
        try:
            with cf:
                run.real[slot].evaluate(variables)
        except BaseException as e:
            if cf.error is not None and not reaches(e, cf.error):
                raise
            if cf.error is None and not isinstance(e, Exception):
                raise
            ctx.fault("failing-evaluation")


CHECK = C23()
