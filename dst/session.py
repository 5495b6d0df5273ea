"""A simulated client session and its reference model.

The model is a list of the commands a correct implementation has recorded,
written from the protocol (parameter names, defaults, wire values), without
looking at what the implementation records.
"""
import base64
import json
import types

import numpy as np

from .node import Node, SimClock
from .sim import SimFault, Violation

REQ = "__required__"
ANY = "__any__"         # wildcard in an expected parameter

# Protocol: class -> constructor parameters (name, default)
CTOR = {
    "core.Canvas": [("width", REQ), ("height", REQ), ("dpi", REQ)],
    "core.Viewport": [("canvas", REQ), ("x", REQ), ("y", REQ), ("width", REQ),
                      ("height", REQ), ("color", REQ)],
    "core.Data": [("uri", ""), ("nbytes", 0), ("dtype", None)],
    "core.Buffer": [("count", REQ), ("dtype", REQ), ("data", None)],
    "core.List": [("data", REQ), ("itemsizes", REQ)],
    "visual.Points": [("positions", REQ), ("sizes", REQ), ("fill_colors", REQ),
                      ("line_colors", REQ), ("line_widths", REQ)],
    "visual.Pixels": [("positions", REQ), ("colors", REQ)],
    "visual.Markers": [("positions", REQ), ("types", REQ), ("sizes", REQ), ("axis", REQ),
                       ("angles", REQ), ("fill_colors", REQ), ("line_colors", REQ),
                       ("line_widths", REQ)],
    "visual.Segments": [("positions", REQ), ("line_caps", REQ), ("line_colors", REQ),
                        ("line_widths", REQ)],
    "visual.Paths": [("positions", REQ), ("indices", REQ), ("line_colors", REQ),
                     ("line_widths", REQ), ("line_styles", REQ), ("line_joins", REQ),
                     ("line_caps", REQ)],
    "visual.Polygons": [("positions", REQ), ("indices", REQ), ("fill_colors", REQ),
                        ("line_colors", REQ), ("line_widths", REQ), ("line_styles", REQ),
                        ("line_joins", REQ)],
    "transform.Transform": [("base", None), ("next", None), ("buffer", None)],
    "transform.Pixel": [], "transform.Point": [], "transform.Inch": [],
    "transform.Centimeter": [], "transform.Millimeter": [], "transform.Meter": [],
    "transform.Kilometer": [],
    "transform.Colormap": [("colormap", None), ("vmin", None), ("vmax", None)],
    "transform.Out": [("name", None)],
    "transform.Accessor": [("buffer", None), ("key", None)],
    "transform.X": [("buffer", None)], "transform.Y": [("buffer", None)],
    "transform.Z": [("buffer", None)], "transform.W": [("buffer", None)],
    "transform.R": [("buffer", None)], "transform.G": [("buffer", None)],
    "transform.B": [("buffer", None)], "transform.A": [("buffer", None)],
    "transform.Measure": [],
    "transform.Add": [("left", None), ("right", None)],
    "transform.Sub": [("left", None), ("right", None)],
    "transform.Mul": [("left", None), ("right", None)],
    "transform.Div": [("left", None), ("right", None)],
    "transform.Operator": [("operator", REQ), ("left", None), ("right", None)],
    "Thing": [("a", REQ), ("b", 0.5), ("c", "x"), ("other", None)],
    "named.Sub": [("a", REQ), ("flag", True)],
}
# Protocol: method -> parameters
METHOD = {
    "Canvas.render": [("target", REQ)],
    "Viewport.render": [("target", REQ)],
    "Data.set_data": [("offset", REQ), ("data", REQ)],
    "Buffer.set_data": [("offset", REQ), ("data", REQ)],
    "Visual.render": [("viewport", REQ), ("model", None), ("view", None), ("proj", None)],
    "Transform.set_base": [("base", None)],
    "Transform.set_next": [("next", None)],
    "Transform.set_buffer": [("buffer", None)],
    "Colormap.set_colormap": [("colormap", REQ)],
    "Operator.set_operator": [("operator", REQ)],
    "Operator.set_left": [("left", REQ)],
    "Operator.set_right": [("right", REQ)],
    "Thing.poke": [("x", REQ), ("y", 3), ("z", None)],
    "Thing.fail": [("x", 0)],
}
ACCESSORS = ["transform." + c for c in "XYZWRGBA"]
OPERATORS = ["transform." + c for c in ("Add", "Sub", "Mul", "Div")]
WIRE = {"Thing.poke": "prod", }       # overridden wire names
POOLS = ["Canvas", "Viewport", "Data", "Buffer", "List", "Points", "Pixels", "Markers",
         "Segments", "Paths", "Polygons", "Transform", "Colormap", "Operator", "Thing"]
VISUALS = ["Points", "Pixels", "Markers", "Segments", "Paths", "Polygons"]


def pools_of(cls):
    name = cls.split(".")[-1]
    if cls.startswith("transform."):
        out = ["Transform"]
        if name == "Colormap":
            out.append("Colormap")
        if name in ("Add", "Sub", "Mul", "Div", "Operator"):
            out.append("Operator")
        return out
    if cls in ("Thing", "named.Sub"):
        return ["Thing"]
    if cls.startswith("visual."):
        return [name, "Visual"]
    return [name]


class Weird:
    """A value no converter knows."""


class Session:
    """One client process with the reference model of its command log."""

    def __init__(self, ctx, clock=None, backend=True, name="client"):
        self.ctx = ctx
        self.clock = clock or SimClock()
        self.node = Node(clock=self.clock, backend=backend, name=name)
        self.pool = {}
        self.objects = []               # (object, id, class name)
        self.expected = []              # commands of the active queue
        self.recording = True
        self.gaps = 0
        self.Thing = self.Sub = None

    # ---- custom recordable classes (the extension point of the protocol)
    def classes(self):
        if self.Thing is None:
            command = self.node.mod("gsp.io.command").command
            Object = self.node.mod("gsp.object").Object

            class Thing(Object):
                @command()
                def __init__(self, a: int, b: float = 0.5, c: str = "x",
                             other: Object = None):
                    local = a
                    if local < 0:
                        raise SimFault("constructor body fails")
                    Object.__init__(self)
                    self.seen = [a, b, c]

                @command("prod")
                def poke(self, x: int, y: int = 3, z: str = None):
                    total = x + y
                    self.seen.append(total)
                    return total

                # a command is replayed under its wire name
                prod = poke

                @command()
                def fail(self, x: int = 0):
                    raise SimFault("method body fails")

            class Sub(Thing):
                @command("named.Sub")
                def __init__(self, a: int, flag: bool = True):
                    super().__init__(a, __no_command__=True)
                    self.flag = flag

            self.Thing, self.Sub = Thing, Sub
        return self.Thing, self.Sub

    def cls(self, name, flavour):
        if name == "Thing":
            return self.classes()[0]
        if name == "named.Sub":
            return self.classes()[1]
        mod, cls = name.split(".")
        if mod == "transform":
            return getattr(self.node.mod("gsp.transform"), cls)
        root = self.node.mpl if flavour == "mpl" and name != "core.Data" else self.node.gsp
        return getattr(getattr(root, mod), cls)

    # ---- arguments: plan data -> (python value, wire value, is object)
    def arg(self, spec):
        kind = spec[0]
        if kind in ("int", "float", "str", "bool"):
            return spec[1], spec[1], False
        if kind == "none":
            return None, None, False
        if kind == "list":
            return list(spec[1]), list(spec[1]), False
        if kind == "color":
            v = tuple(spec[1]) if spec[2] == "tuple" else list(spec[1])
            if spec[2] == "Color":
                v = self.node.gsp.core.Color(*spec[1])
            return v, list(spec[1]), False
        if kind == "bytes":
            b = bytes(np.random.RandomState(spec[2]).randint(0, 256, spec[1], dtype=np.uint8))
            return b, base64.b64encode(b).decode(), False
        if kind == "mview":
            b = bytes(np.random.RandomState(spec[2]).randint(0, 256, spec[1], dtype=np.uint8))
            return memoryview(b), base64.b64encode(b).decode(), False
        if kind == "dtype":
            return np.dtype(spec[1]), str(np.dtype(spec[1])), False
        if kind == "matrix":
            m = np.round(np.random.RandomState(spec[1]).uniform(-2, 2, (4, 4)), 3)
            if spec[2] == "f4":
                m = m.astype(np.float32)
            return m, np.asarray(m, float).tolist(), False
        if kind == "enum":
            e = getattr(getattr(self.node.gsp.core, spec[1]), spec[2])
            return int(e) if spec[3:] == ["int"] else e, int(e), False
        if kind == "obj":
            pool = self.pool.get(spec[1], [])
            if not pool:
                raise LookupError
            o, oid, _ = pool[spec[2] % len(pool)]
            return o, oid, True
        if kind == "weird":
            return Weird(), ANY, False
        raise AssertionError(spec)

    def bind(self, params, args, npos):
        """Call arguments and the parameters the command has to record."""
        pos, kw, wire = [], {}, {}
        for i, (name, default) in enumerate(params):
            spec = args[i] if i < len(args) else ["omit"]
            if spec[0] == "omit":
                if default == REQ:
                    npos = min(npos, i)
                    continue
                npos = min(npos, i)
                wire[name] = default
                continue
            value, w, is_obj = self.arg(spec)
            if i < npos:
                pos.append(value)
            else:
                kw[name] = value
            wire[name + "(id)" if is_obj else name] = w
        return pos, kw, wire

    # ---- one call
    def apply(self, op):
        """Perform a plan operation. Returns 'ok', 'raised' or 'skip'."""
        kind = op[0]
        if kind == "new":
            _, cls, flavour, npos, args, must = op
            try:
                pos, kw, wire = self.bind(CTOR[cls], args, npos)
            except LookupError:
                return "skip"
            func = self.cls(cls, flavour)
            got, err = self.call(func, pos, kw, must)
            if err:
                self.gaps += 1
                return "raised"
            method = "Thing/__init__" if cls == "Thing" else cls
            oid = int(got.id)
            self.note(method, dict(wire, id=oid))
            entry = (got, oid, cls.split(".")[-1])
            self.objects.append(entry)
            if not must:            # odd arguments: not for use by others
                return "ok"
            for p in pools_of(cls):
                self.pool.setdefault(p, []).append(entry)
            if cls == "core.Canvas" and flavour == "mpl":
                self.pool.setdefault("mCanvas", []).append(entry)
            return "ok"
        if kind == "call":
            _, method, index, npos, args, must = op
            target, name = method.split(".")
            pool = self.pool.get(target, [])
            if not pool:
                return "skip"
            obj, oid, cname = pool[index % len(pool)]
            try:
                pos, kw, wire = self.bind(METHOD[method], args, npos)
            except LookupError:
                return "skip"
            func = getattr(obj, name)
            if name == "render" and target in ("Canvas", "Viewport"):
                # exporting is the backend's business: record only
                base = getattr(self.node.gsp.core, target)
                func = types.MethodType(base.render, obj)
            elif name == "render":
                func = types.MethodType(self.node.gsp.visual.Visual.render, obj)
            got, err = self.call(func, pos, kw, must)
            if err:
                return "raised"
            self.note(f"{cname}/{WIRE.get(method, name)}", dict(wire, id=oid))
            return "ok"
        raise AssertionError(op)

    def call(self, func, pos, kw, must):
        self.t0 = self.clock.now
        try:
            got = func(*pos, **kw)
            return got, None
        except SimFault as e:
            return None, e
        except Exception as e:
            if must:
                raise
            return None, e
        finally:
            self.t1 = self.clock.now

    def note(self, method, params):
        if self.recording:
            self.expected.append({"method": method, "parameters": params,
                                  "t": (self.t0, self.t1)})

    # ---- observation
    def dump(self, queue=None):
        return json.loads(self.node.gsp.io.json.dump(queue))["commands"]


def norm_method(m):
    """Loading gives constructors an explicit '/__init__'."""
    return m[:-len("/__init__")] if m.endswith("/__init__") else m


def same_value(got, want):
    if want == ANY and isinstance(want, str):
        return True
    if isinstance(want, tuple):
        want = list(want)
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and \
            all(same_value(g, w) for g, w in zip(got, want))
    if isinstance(want, bool) or isinstance(got, bool):
        return got is want
    return got == want


def diff_command(got, want, times=True):
    """None, or why the dumped command is not the expected one."""
    if norm_method(got.get("method")) != norm_method(want["method"]):
        return f"method {got.get('method')!r} instead of {want['method']!r}"
    gp, wp = got.get("parameters"), want["parameters"]
    if set(gp) != set(wp):
        return (f"{want['method']} has parameters {sorted(gp)} instead of {sorted(wp)}")
    for k in wp:
        if not same_value(gp[k], wp[k]):
            return f"{want['method']}: parameter {k} is {gp[k]!r} instead of {wp[k]!r}"
    if times and "t" in want:
        lo, hi = sorted(want["t"])
        ts = got.get("timestamp")
        if not isinstance(ts, (int, float)) or not lo - 1e-5 <= ts <= hi + 1e-5:
            return f"{want['method']}: timestamp {ts!r} not within the call {want['t']}"
    return None


def diff_log(got, want, times=True):
    for i, (g, w) in enumerate(zip(got, want)):
        d = diff_command(g, w, times)
        if d:
            return f"command {i}: {d}"
    if len(got) > len(want):
        return f"command {len(want)}: unexpected {got[len(want)]['method']}"
    if len(got) < len(want):
        return f"command {len(got)}: {want[len(got)]['method']} is missing"
    return None


# --------------------------------------------------------------------------
# Plans
def gen_color(r):
    return ["color", [round(r.random(), 2) for _ in range(4)],
            r.choice(["tuple", "list", "Color"])]


def gen_attr(r, color=False):
    if r.random() < 0.35:
        return ["obj", r.choice(["Buffer", "Buffer", "Transform"]), r.randrange(9)]
    return gen_color(r) if color else ["float", round(r.uniform(0, 9), 2)]


def gen_coord(r):
    c = r.random()
    if c < 0.4:
        return ["int", r.randrange(0, 90)]
    if c < 0.8:
        return ["float", round(r.random(), 3)]
    return ["obj", "Transform", r.randrange(9)]


def gen_new(r, cls=None):
    """A constructor call that has to succeed."""
    cls = cls or r.choice(list(CTOR) + ["core.Canvas", "core.Viewport", "core.Buffer",
                                        "Thing", "Thing", "named.Sub"])
    fl = r.choice(["gsp", "mpl"])
    B = ["obj", "Buffer", r.randrange(9)]
    T = ["obj", "Transform", r.randrange(9)]
    L = r.choice([["obj", "List", r.randrange(9)], B, ["int", r.randrange(1, 4)]])
    enum = lambda n, vs: r.choice([["enum", n, r.choice(vs)] + ["int"] * (r.random() < .2), B])
    opt = lambda v: r.choice([v, v, ["omit"], ["none"]])
    buf = lambda: r.choice([B, T])
    if cls == "core.Canvas":
        a = [["int", r.randrange(8, 90)], ["int", r.randrange(8, 90)],
             ["float", float(r.choice([50, 72, 100]))]]
    elif cls == "core.Viewport":
        fl = "gsp"
        a = [["obj", "Canvas", r.randrange(9)], gen_coord(r), gen_coord(r), gen_coord(r),
             gen_coord(r), gen_color(r)]
        # mind the protocol: Transform is an opaque type there
        a = [x if x[0] != "obj" or x[1] != "Transform" else ["int", 5] for x in a]
        if r.random() < 0.4:
            fl = "mpl"
            a[0] = ["obj", "mCanvas", r.randrange(9)]
            a[3] = ["float", 0.5]
            a[4] = ["int", 7]
    elif cls == "core.Data":
        a = [opt(["str", r.choice(["", "file.bin", "data:,x"])]), opt(["int", r.randrange(99)]),
             opt(["list", [["a", "f4", 2]]])]
    elif cls == "core.Buffer":
        n = r.randrange(1, 6)
        dt = r.choice(["float32", "int32", "float64", "uint8"])
        size = n * np.dtype(dt).itemsize
        a = [["int", n], ["dtype", dt],
             r.choice([["omit"], ["bytes", size, r.randrange(999)],
                       ["mview", size, r.randrange(999)]])]
    elif cls == "core.List":
        a = [B, r.choice([B, ["int", r.randrange(1, 4)]])]
    elif cls == "visual.Points":
        a = [B, gen_attr(r), gen_attr(r, 1), gen_attr(r, 1), gen_attr(r)]
    elif cls == "visual.Pixels":
        a = [B, gen_attr(r, 1)]
    elif cls == "visual.Markers":
        fl = "gsp"
        a = [B, enum("Marker", ["star", "square", "heart"]), gen_attr(r), ["none"],
             gen_attr(r), gen_attr(r, 1), gen_attr(r, 1), gen_attr(r)]
    elif cls == "visual.Segments":
        a = [B, enum("LineCap", ["round", "butt"]), gen_attr(r, 1), gen_attr(r)]
    elif cls == "visual.Paths":
        a = [B, L, gen_attr(r, 1), gen_attr(r), enum("LineStyle", ["solid", "dashed"]),
             enum("LineJoin", ["round", "miter"]), enum("LineCap", ["round", "butt"])]
    elif cls == "visual.Polygons":
        a = [B, L, gen_attr(r, 1), gen_attr(r, 1), gen_attr(r),
             enum("LineStyle", ["solid", "dashed"]), enum("LineJoin", ["round", "miter"])]
    elif cls == "transform.Transform":
        a = [opt(T), opt(T), opt(B)]
    elif cls == "transform.Colormap":
        a = [opt(["str", r.choice(["magma", "gray"])]), opt(["float", 0.0]),
             opt(["float", round(r.uniform(0, 9), 2)])]
    elif cls == "transform.Out":
        a = [opt(["str", "screen[positions].z"])]
    elif cls == "transform.Accessor":
        a = [opt(buf()), opt(["str", "x"])]
    elif cls in ACCESSORS:
        a = [opt(buf())]
    elif cls in OPERATORS:
        a = [opt(r.choice([B, ["int", 3], ["float", .5]])),
             opt(r.choice([B, ["int", 3], ["float", .5]]))]
    elif cls == "transform.Operator":
        a = [["str", r.choice("+-*/")], opt(r.choice([B, ["float", .5]])), opt(["int", 2])]
    elif cls == "Thing":
        a = [["int", r.randrange(99)], opt(["float", round(r.random(), 3)]),
             opt(["str", r.choice(["é", "long text", ""])]),
             opt(["obj", r.choice(["Thing", "Canvas", "Buffer"]), r.randrange(9)])]
    elif cls == "named.Sub":
        a = [["int", r.randrange(99)], opt(["bool", r.random() < .5])]
    else:
        a = []
    return ["new", cls, fl, r.randrange(0, len(a) + 1), a, True]


def gen_call(r, method=None):
    method = method or r.choice(list(METHOD) + ["Visual.render"] * 4 + ["Thing.poke"] * 3)
    T = ["obj", "Transform", r.randrange(9)]
    B = ["obj", "Buffer", r.randrange(9)]
    opt = lambda v: r.choice([v, v, ["omit"], ["none"]])
    must = True
    if method in ("Canvas.render", "Viewport.render"):
        a = [r.choice([["str", "a.png"], ["none"]])]
    elif method == "Data.set_data":
        a = [["int", r.randrange(9)], ["bytes", r.randrange(9), r.randrange(99)]]
    elif method == "Buffer.set_data":
        a = [["int", 0], ["mview", r.choice([0, 1]), r.randrange(99)]]
    elif method == "Visual.render":
        m = lambda: r.choice([["omit"], ["none"], ["matrix", r.randrange(99), "f8"],
                              ["matrix", r.randrange(99), "f4"]])
        a = [["obj", "Viewport", r.randrange(9)], m(), m(), m()]
    elif method in ("Transform.set_base", "Transform.set_next"):
        a = [opt(T)]
    elif method == "Transform.set_buffer":
        a = [opt(r.choice([B, T, ["float", .5], ["int", 4]]))]
    elif method == "Colormap.set_colormap":
        a = [["str", r.choice(["magma", "plasma"])]]
    elif method == "Operator.set_operator":
        a = [["str", r.choice("+-")]]
    elif method in ("Operator.set_left", "Operator.set_right"):
        a = [r.choice([B, T, ["float", .5], ["int", 4]])]
    elif method == "Thing.poke":
        a = [["int", r.randrange(99)], opt(["int", r.randrange(9)]), opt(["str", "s"])]
        if a[1][0] == "none":
            a[1] = ["omit"]
    else:
        a, must = [opt(["int", 1])], False
    return ["call", method, r.randrange(9), r.randrange(0, len(a) + 1), a, must]


def gen_bad(r):
    """A call that is expected to fail: wrong type, missing value, failing body."""
    op = gen_new(r) if r.random() < .6 else gen_call(r)
    op = json.loads(json.dumps(op))
    op[-1] = False
    args = op[-2]
    c = r.random()
    if op[1] == "Thing" and c < .4:
        args[0] = ["int", -1 - r.randrange(5)]
    elif args and c < .85:
        args[r.randrange(len(args))] = ["weird"]
    else:
        args[:1] = [["omit"]]
    return op


def gen_session(r, n, bad=0.15, prelude=True):
    ops = []
    if prelude:
        for cls in ("core.Canvas", "core.Buffer", "core.Viewport", "Thing", "transform.Pixel"):
            if r.random() < .7:
                ops.append(gen_new(r, cls))
    while len(ops) < n:
        c = r.random()
        if c < bad:
            ops.append(gen_bad(r))
        elif c < .6:
            ops.append(gen_new(r))
        else:
            ops.append(gen_call(r))
    return ops
