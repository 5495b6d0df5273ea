"""Scene programs: what a user of the protocol writes, as plain operations.

A program is a list of operations over numbered slots (arrays, canvases,
viewports, visuals, transforms).  It can be executed in any node with the
protocol's classes (flavour "gsp", records only) or the backend's ("mpl",
records and draws).
"""
import numpy as np

VISUALS = ["Points", "Pixels", "Markers", "Segments", "Paths", "Polygons"]
UNITS = {"px": "Pixel", "pt": "Point", "in": "Inch", "cm": "Centimeter",
         "mm": "Millimeter", "m": "Meter", "km": "Kilometer"}
TRACKED = ("vec3", "vec4", "float", "seg", "as3", "vec2")
MARKERS = ["point", "triangle", "square", "minus", "plus", "cross", "star", "club",
           "heart", "spade", "diamond", "arrow"]


def values(seed, shape, lo=-1.0, hi=1.0, dtype=np.float32):
    v = np.random.RandomState(seed % (2**32)).uniform(lo, hi, shape)
    if np.dtype(dtype).kind != "f" and hi <= 1:
        v = np.round(v)                 # (colours)
    return v.astype(dtype)


SHAPE = {"vec3": (3,), "seg": (2, 3), "float": (), "vec4": (4,), "as3": (3,), "nd3": (3,),
         "nd4": (4,), "nd1": (), "buf3": (3,), "buf1": (), "buf4": (4,),
         "angle": (), "nda": (), "bufa": ()}
RANGE = {"vec3": (-1, 1), "seg": (-1, 1), "as3": (-1, 1), "nd3": (-1, 1), "buf3": (-1, 1),
         "vec4": (0, 1), "nd4": (0, 1), "buf4": (0, 1), "float": (1, 30), "nd1": (1, 30),
         "buf1": (1, 30), "angle": (-400, 400), "nda": (-400, 400), "bufa": (-400, 400)}



def span(kind, seed):
    """Range of values: positions are also found far away, or close to each other."""
    lo, hi = RANGE[kind]
    f = (1, 1, 1, 1, 1, 4, .1)[seed // 7 % 7] if lo == -1 else 1
    return lo * f, hi * f


# Other types than single precision floats
POSITIONS, COLORS, SIZES = ["f8", ">f4", ">f8"], ["f8", ">f4", ">f8", "i4"], \
    ["f8", ">f4", ">f8", "i4", ">i2", "u1", "i8", ">u4"]
ANGLES = ["f8", ">f4", ">f8", "i4", ">i2"]
DTYPES = {"vec3": POSITIONS, "seg": POSITIONS, "as3": POSITIONS, "nd3": POSITIONS,
          "buf3": POSITIONS, "vec4": COLORS, "nd4": COLORS, "buf4": COLORS, "float": SIZES,
          "nd1": SIZES, "buf1": SIZES, "angle": ANGLES, "nda": ANGLES, "bufa": ANGLES}


def matrix(spec, glm=None):
    """['kind', params..., 'how'] -> matrix; None -> None."""
    if spec is None:
        return None
    if spec[0] == "bad":
        return [np.eye(3), [[1.0, 2.0]], "no matrix"][spec[1]]
    kind, how, *p = spec
    c, s = np.cos, np.sin
    M = np.eye(4)
    if kind == "z":
        a = np.radians(p[0])
        M[:2, :2] = [[c(a), -s(a)], [s(a), c(a)]]
    elif kind == "y":
        a = np.radians(p[0])
        M[0, 0], M[0, 2], M[2, 0], M[2, 2] = c(a), s(a), -s(a), c(a)
    elif kind == "t":
        M[:3, 3] = p
    elif kind == "s":
        M[0, 0], M[1, 1], M[2, 2] = p
    elif kind == "r":
        M = np.eye(4) + values(p[0], (4, 4), -.4, .4, float)
        M[3] = [0, 0, 0, 1]
    elif kind == "p":                   # perspective, eye at distance p[1]
        f = 1 / np.tan(np.radians(p[0]) / 2)
        n, far = 1.0, 100.0
        P = np.zeros((4, 4))
        P[0, 0] = P[1, 1] = f
        P[2, 2], P[2, 3] = -(far + n) / (far - n), -2 * n * far / (far - n)
        P[3, 2] = -1
        V = np.eye(4)
        V[2, 3] = -p[1]
        M = P @ V
    if how == "f4" or how == "glm" and glm is None:     # (what the backend will have)
        return M.astype(np.float32)
    if how == "list":
        return M.tolist()
    if how == "glm" and glm is not None:
        G = glm.ndarray.mat4()
        G[...] = M
        return G
    return M


class Missing(Exception):
    """A slot that was never filled (in minimised programs)."""


class Scene:
    """State of one execution of a program in a node."""

    def __init__(self, node, flavour, ctx=None):
        self.node = node
        self.ctx = ctx
        self.flavour = flavour
        g, m = node.gsp, node.mpl
        self.core, self.visual = (g.core, g.visual) if flavour == "gsp" else (m.core, m.visual)
        self.glm = m.glm
        self.t = node.mod("gsp.transform")
        # slot -> entry
        self.arrays, self.canvases, self.viewports = {}, {}, {}
        self.visuals, self.transforms = {}, {}

    # ---- arguments
    @staticmethod
    def get(slots, slot):
        if slot not in slots:
            raise Missing(slot)
        return slots[slot]

    def array(self, slot):
        return self.get(self.arrays, slot)["arr"]

    def arg(self, spec):
        kind = spec[0]
        if kind == "arr":
            return self.array(spec[1])
        if kind in ("num", "int"):
            return spec[1]
        if kind == "tuple":
            return tuple(spec[1])
        if kind == "color":
            return tuple(spec[1]) if spec[2] == "tuple" else \
                self.node.gsp.core.Color(*spec[1]) if spec[2] == "Color" else list(spec[1])
        if kind == "none":
            return None
        if kind == "trans":             # a transform made earlier, shared
            return self.get(self.transforms, spec[1])["t"]
        if kind == "cmap":
            _, name, vmin, vmax, inner = spec
            c = self.t.Colormap(name, vmin, vmax)
            return c if inner is None else c(self.arg(inner))
        if kind == "bind":              # chain a transform to another one
            return self.arg(spec[1])(self.arg(spec[2]))
        if kind == "out":
            return self.t.Out(spec[1])
        if kind == "op":
            _, op, a, b = spec
            a, b = self.arg(a), self.arg(b)
            return a + b if op == "+" else a - b if op == "-" else a * b if op == "*" else a / b
        if kind == "unit":
            return getattr(self.t, UNITS[spec[1]])()
        if kind == "access":
            return getattr(self.t, spec[1])()(self.arg(spec[2]))
        if kind == "enum":
            e = getattr(getattr(self.node.gsp.core, spec[1]), spec[2])
            return int(e) if spec[3:] == ["int"] else e
        if kind == "markers":
            return [getattr(self.node.gsp.core.Marker, n) for n in spec[1]]
        if kind == "lists":
            return [list(x) for x in spec[1]]
        if kind == "sizes":
            return np.array(spec[1])
        if kind == "List":              # an explicit list object
            flat = np.array([i for x in spec[1] for i in x], dtype=np.int64)
            n = np.array([len(x) for x in spec[1]], dtype=np.int64)
            B = self.core.Buffer
            return self.core.List(B(len(flat), flat.dtype, flat.tobytes()),
                                  B(len(n), n.dtype, n.tobytes()))
        raise AssertionError(spec)

    # ---- operations
    def apply(self, op):
        """Perform an operation; False if a slot it needs does not exist."""
        try:
            getattr(self, "op_" + op[0])(*op[1:])
        except Missing:
            return False
        return True

    def op_array(self, slot, kind, n, seed, dtype="f4"):
        dtype = np.dtype(dtype)
        v = values(seed, (n,) + SHAPE[kind], *span(kind, seed), dtype)
        g = self.glm.ndarray
        if kind == "as3":
            a = self.glm.as_vec3(v)
        elif kind.startswith("buf"):
            a = self.core.Buffer(n, dtype, v.tobytes())
        elif kind.startswith("nd"):
            a = v
        else:
            shape = (n, 2) if kind == "seg" else n
            name = {"vec3": "vec3", "seg": "vec3", "vec4": "vec4", "float": "scalar",
                    "angle": "scalar"}[kind]
            if dtype != np.float32:
                a = getattr(g, name)(shape, dtype=dtype)
            else:
                a = getattr(self.glm, "float" if name == "scalar" else name)(shape)
            a[...] = v
        self.arrays[slot] = {"kind": kind, "arr": a, "n": n, "now": v.copy()}

    def op_write(self, slot, how, *p):
        e = self.get(self.arrays, slot)
        Z, n, kind, now = e["arr"], e["n"], e["kind"], e["now"]
        lo, hi = span(kind, p[-1])

        def values(seed, shape, lo, hi):
            return globals()["values"](seed, shape, lo, hi, now.dtype)
        if now.dtype.kind != "f" and how == "mul":
            how = "all"
        if kind.startswith("buf"):
            i = p[0] % n
            v = values(p[-1], SHAPE[kind], lo, hi)
            now[i] = v
            Z.set_data(i * now[0].nbytes, memoryview(v.tobytes()))
            return
        if how == "all":
            v = values(p[-1], now.shape, lo, hi)
            Z[...] = v
            now[...] = v
        elif how == "item":
            i = p[0] % n
            v = values(p[-1], SHAPE[kind], lo, hi)
            Z[i] = v
            now[i] = v
        elif how == "slice":
            i, j, step = p[0] % n, p[0] % n + 1 + p[1] % n, 1 + p[2] % 3
            v = values(p[-1], now[i:j:step].shape, lo, hi)
            if p[2] % 2:
                V = Z[i:j:step]
                V[...] = v
            else:
                Z[i:j:step] = v
            now[i:j:step] = v
        elif how == "comp" and now.ndim > 1:
            k = p[0] % now.shape[-1]
            v = values(p[-1], now[..., k].shape, lo, hi)
            Z[..., k] = v
            now[..., k] = v
        elif how == "swz" and kind in ("vec3", "vec4", "as3"):
            names = ["xyz", "rgba"][kind == "vec4"]
            k = p[0] % len(names)
            v = values(p[-1], now[..., k].shape, lo, hi)
            setattr(Z, names[k], v)
            now[..., k] = v
        elif how == "mul":
            f = now.dtype.type(0.5 + (p[-1] % 50) / 100)
            if p[0] % 2:
                Z *= f
                now *= f
            else:
                i = p[1] % n
                V = Z[i:]
                V *= f
                now[i:] *= f
        else:
            v = values(p[-1], now.shape, lo, hi)
            Z[...] = v
            now[...] = v

    def op_canvas(self, slot, w, h, dpi):
        w, h = [self.arg(x) if isinstance(x, list) else x for x in (w, h)]
        c = self.core.Canvas(w, h, float(dpi))
        self.canvases[slot] = {"c": c, "id": int(c.id), "dpi": dpi}

    def op_viewport(self, slot, ci, x, y, w, h, color):
        c = self.get(self.canvases, ci)
        spec = [x, y, w, h]
        v = self.core.Viewport(c["c"], *[self.arg(s) for s in spec], self.arg(color))
        self.viewports[slot] = {"v": v, "id": int(v.id), "canvas": ci, "spec": spec}

    def op_transform(self, slot, spec):
        self.transforms[slot] = {"t": self.arg(spec), "spec": spec}

    def op_settrans(self, slot, what, value):
        t = self.get(self.transforms, slot)["t"]
        getattr(t, "set_" + what)(value)

    def op_visual(self, slot, cls, *args):
        v = getattr(self.visual, cls)(*[self.arg(a) for a in args])
        self.visuals[slot] = {"v": v, "id": int(v.id), "cls": cls, "args": list(args)}

    def op_render(self, vi, pi, mats):
        v, p = self.get(self.visuals, vi), self.get(self.viewports, pi)
        m = [matrix(s, self.glm) for s in mats]
        try:
            if all(x is None for x in m):
                v["v"].render(p["v"])
            else:
                v["v"].render(p["v"], *m)
        finally:                        # the caller uses them for something else
            for x in m:
                if isinstance(x, np.ndarray):
                    x[...] = .37
                elif isinstance(x, list):
                    x[0] = [.37] * 4

    def op_clock(self, dt):
        self.node.clock.now += dt
        if self.ctx is not None:
            self.ctx.advance(dt)
            if dt < 0 or dt > 60:
                self.ctx.fault("clock-jump")

    def op_export(self, ci, name):
        self.get(self.canvases, ci)["c"].render(name)

    def op_object(self, k):
        [lambda: self.t.Transform(), lambda: self.t.Colormap("magma"), lambda: self.t.Out("a.x"),
         lambda: self.core.Buffer(2, np.dtype(np.float32), bytes(8)),
         lambda: self.t.Out("a.y") + 2, lambda: self.glm.vec3(3),
         lambda: 5 * self.t.Pixel(), lambda: self.node.gsp.Object()][k % 8]()

    def op_bad(self, k):
        """A call that fails."""
        c = self.canvases[0]["c"] if 0 in self.canvases else None
        v = self.visuals[0]["v"] if 0 in self.visuals else None
        calls = [lambda: self.visual.Points("x", 1.0, (0, 0, 0, 1), (0, 0, 0, 1), 1.0),
                 lambda: self.visual.Pixels(self.array(0), object()),
                 lambda: self.core.Canvas("a", 3, None),
                 lambda: self.core.Viewport(c, 0, 0, 1, 1, object()),
                 lambda: self.core.Buffer("a", None, 3),
                 lambda: self.t.Colormap(3),
                 lambda: self.t.Pixel()("x"),
                 lambda: v.render("no viewport")]
        try:
            calls[k % len(calls)]()
        except Exception:
            return True
        return False

    # ---- observation
    def picture(self, canvas):
        return canvas.render(None)


# --------------------------------------------------------------------------
# Generators
def gen_color(r):
    return ["color", [round(r.random(), 2) for _ in range(3)] + [1.0 if r.random() < .7 else
            round(r.random(), 2)], r.choice(["tuple", "tuple", "list", "Color"])]


UNIT_SIZE = {"in": 1.0, "pt": 72.0, "cm": 2.54, "mm": 25.4}


def gen_extent(r, size, dpi):
    """The size of a canvas in units, about that many pixels."""
    out = []
    for n in size:
        unit = r.choice(["cm", "cm", "in", "mm", "pt", "px"])
        v = float(f"{n / dpi * UNIT_SIZE[unit]:.2g}") if unit != "px" else n
        px = v * dpi / UNIT_SIZE.get(unit, dpi)
        if unit != "px" and abs(px - round(px)) < 1e-3:     # (rounding errors would decide)
            v *= 1.01
        pair = [["num", float(v)] if r.random() < .8 or v != int(v) or v < 1 else ["int", int(v)],
                ["unit", unit]]
        out.append(["op", "*"] + (pair if r.random() < .6 else pair[::-1]))
    if r.random() < .3:                 # only one of them is
        k = r.randrange(2)
        out[k] = size[k]
    elif r.random() < .2:
        out[1] = out[0]
    return out


def gen_matrix(r):
    k = r.random()
    how = r.choice(["f8", "f8", "f4", "list", "glm"])
    if k < .35:
        return None
    if k < .5:
        return ["z", how, r.randrange(0, 360)]
    if k < .65:
        return ["y", how, r.randrange(0, 360)]
    if k < .75:
        d = r.choice([.5, .5, 5])
        return ["t", how, round(r.uniform(-.5, .5), 2), round(r.uniform(-.5, .5), 2),
                round(r.uniform(-d, d), 2)]
    if k < .85:
        return ["s", how, round(r.uniform(.3, 1.5), 2), round(r.uniform(.3, 1.5), 2),
                round(r.uniform(.3, 1.5) * r.choice([1, 1, -1, 6]), 2)]
    if k < .95:
        return ["r", how, r.randrange(10**6)]
    return ["e", how]


def gen_mats(r):
    k = r.random()
    if k < .12:
        return [None, None, None]
    if k < .5:
        return [gen_matrix(r) or ["z", "f8", 30], ["e", "f8"], ["e", "f8"]]
    if k < .62:
        mats = [None, None, None]
        mats[r.randrange(3)] = gen_matrix(r) or ["y", "f8", 30]
        return mats
    if k < .8:
        return [gen_matrix(r) or ["y", "f8", 30], ["e", "f8"],
                ["p", "f8", r.choice([25, 40]), r.choice([3, 5])]]
    return [gen_matrix(r), gen_matrix(r), gen_matrix(r)]


class Gen:
    """Draws programs; knows the kinds of the slots it made."""

    def __init__(self, r, plain_writes=False, explicit_buffers=True, transforms=True,
                 fixed_mats=False):
        self.r = r
        self.ops = []
        self.kinds = []                 # (kind, n) of array slots
        self.n_canvas = self.n_view = self.n_vis = 0
        self.plain_writes = plain_writes
        self.explicit = explicit_buffers
        self.transforms = transforms
        self.trans = []                 # kinds of shared transforms
        self.n = r.choice([1, 2, 3, 4, 4, 5, 6, 8, 12])

    def array(self, kind, n=None):
        n = n or self.n
        same = [i for i, k in enumerate(self.kinds) if k == (kind, n)]
        if same and self.r.random() < .5:
            return self.r.choice(same)
        self.kinds.append((kind, n))
        op = ["array", len(self.kinds) - 1, kind, n, self.r.randrange(10**6)]
        if self.r.random() < .25:
            op.append(self.r.choice(DTYPES[kind]))
        self.ops.append(op)
        return len(self.kinds) - 1

    def positions(self, n=None):
        r = self.r
        return ["arr", self.array(r.choice(["vec3", "vec3", "vec3", "as3", "nd3"] +
                                           ["buf3"] * self.explicit), n)]

    def measured(self, kind, n=None):
        """Positions given in some unit, or moved by some lengths."""
        r = self.r
        a = ["arr", self.array(kind, n)]
        if not self.transforms or r.random() < .7:
            return a
        if r.random() < .5:
            pair = [a, ["unit", r.choice(["cm", "in", "mm", "pt", "px"])]]
            return ["op", "*"] + (pair if r.random() < .7 else pair[::-1])
        move = ["op", "*", ["tuple", [float(r.randrange(-9, 10)), float(r.randrange(-9, 10)), 0.0]],
                ["unit", r.choice(["px", "pt", "mm"])]]
        return ["op", "+"] + ([a, move] if r.random() < .5 else [move, a])

    def shared(self, kind, spec):
        """Slot of a transform of that kind, a new one or one already in use."""
        same = [i for i, k in enumerate(self.trans) if k == kind]
        if same and self.r.random() < .5:
            return self.r.choice(same)
        self.trans.append(kind)
        self.ops.append(["transform", len(self.trans) - 1, spec])
        return len(self.trans) - 1

    def settrans(self):
        """Change a transform the program kept."""
        r = self.r
        if not self.trans:
            return
        slot = r.randrange(len(self.trans))
        if self.trans[slot][0] == "op":
            self.ops.append(["settrans", slot, "left", round(r.uniform(.3, .5), 2)])
        else:
            self.ops.append(["settrans", slot, "colormap",
                             r.choice(["magma", "gray", "viridis", "plasma"])])

    def canvas(self):
        r = self.r
        dpi = r.choice([50, 72, 100])
        size = [r.randrange(16, 70), r.randrange(16, 70)]
        if self.transforms and r.random() < .12:
            size = gen_extent(r, size, dpi)
        self.ops.append(["canvas", self.n_canvas, *size, dpi])
        self.n_canvas += 1

    def coord(self, base):
        """A viewport coordinate, given as pixels, fraction or measure."""
        r = self.r
        c = r.random()
        if c < .35 or not self.transforms:
            if c < .2:
                return ["int", max(1, int(base * r.randrange(20, 60)))]
            return ["num", round(max(.05, base * r.random()), 3)]
        unit = r.choice(["px", "px", "pt", "mm", "cm", "in"])
        size = {"px": 9, "pt": 6, "mm": 2.5, "cm": .2, "in": .1}[unit]
        m = ["op", "*", ["num", round(r.uniform(.3, 1) * size, 2)], ["unit", unit]]
        if r.random() < .3:
            m = ["op", "*", ["unit", unit], ["num", round(r.uniform(.3, 1) * size, 2)]]
        if c < .6:
            return m
        if c < .75:
            return ["trans", self.shared(("op", base > .4), ["op", "+", ["num", .3], m])]
        return ["op", r.choice("+-"), ["num", round(base * r.uniform(.5, 1), 2)], m] \
            if base > .4 else ["op", "+", ["num", round(base * .5, 2)], m]

    def viewport(self):
        r = self.r
        if not self.n_canvas:
            self.canvas()
        if r.random() < .3:
            box = [["int", 0], ["int", 0], ["num", 1.0], ["num", 1.0]]
        else:
            box = [self.coord(.4), self.coord(.4), self.coord(.9), self.coord(.9)]
        self.ops.append(["viewport", self.n_view, r.randrange(self.n_canvas)] + box + [gen_color(r)])
        self.n_view += 1

    def one(self, n):
        """An array has a value for each item or one for all of them."""
        return 1 if self.r.random() < .15 else n

    def color(self, n, out):
        """A colour attribute for n items."""
        r = self.r
        c = r.random()
        if c < .4:
            return gen_color(r)
        if c < .65:
            return ["arr", self.array(r.choice(["vec4", "vec4", "nd4"] +
                                               ["buf4"] * self.explicit), self.one(n))]
        if not self.transforms:
            return gen_color(r)
        lim = r.choice([(None, None), (0.0, 1.0), (0.0, 2.0), (-1.0, 0.5)])
        if c < .85:
            var = ["out", out + r.choice([".z", ".z", ".x"])]
            name = r.choice(["magma", "gray", "viridis"])
            k = r.random()
            if k < .5:
                return ["cmap", name, lim[0], lim[1], var]
            if k < .75:                 # a bound colormap the program keeps
                return ["trans", self.shared(("cmap", out), ["cmap", name, lim[0], lim[1], var])]
            slot = self.shared(("free",), ["cmap", name, lim[0], lim[1], None])
            return ["bind", ["trans", slot], var]
        return ["cmap", "plasma", r.choice([None, 0.0]), r.choice([None, 40.0]),
                ["arr", self.array(r.choice(["nd1", "float"]), n)]]

    def scalar(self, n, hi, out=None, buffers=True):
        r = self.r
        c = r.random()
        if c < .55 or not buffers:
            return ["num", round(r.uniform(.5, hi), 1)]
        if c < .85 or not self.transforms or out is None:
            return ["arr", self.array(r.choice(["float", "float", "nd1"] +
                                               ["buf1"] * self.explicit), self.one(n))]
        # an expression of the depth that stays positive
        z = ["out", out + ".z"]
        return ["op", "*", ["num", round(r.uniform(4, 4 * hi), 1)],
                ["op", "+", ["num", 1.0],
                 ["op", "/", z, ["op", "+", ["num", 1.0], ["op", "*", z, z]]]]]

    def angle(self, n):
        r = self.r
        c = r.random()
        if c < .25:
            return ["num", 0.0]
        if c < .6 or not self.transforms:
            return ["num", round(r.uniform(-400, 400), 1)]
        return ["arr", self.array(r.choice(["angle", "nda"] + ["bufa"] * self.explicit), n)]

    def partition(self, n):
        """Ways to cut n vertices into items -> (spec, number of items)."""
        r = self.r
        c = r.random()
        if c < .3:
            k = r.choice([k for k in range(1, n + 1) if n % k == 0 and (k > 1 or n == 1)])
            return ["int", k], n // k
        if c < .55:
            sizes, left = [], n
            while left > 0:
                s = min(left, r.randrange(2, 5))
                sizes.append(s)
                left -= s
            return ["sizes", sizes], len(sizes)
        long = r.random() < .06
        lists = [[r.randrange(n) for _ in range(r.randrange(129, 300) if long and r.random() < .5
                                                else r.randrange(2, 5))]
                 for _ in range(r.randrange(1, 5))]
        if c < .85 or not self.explicit:
            return ["lists", lists], len(lists)
        return ["List", lists], len(lists)

    def visual_(self, cls=None):
        r = self.r
        cls = cls or r.choice(VISUALS + ["Points"])
        n = r.choice([self.n, self.n, self.n, r.randrange(1, 9)])
        enum = lambda name, vs: ["enum", name, r.choice(vs)] + ["int"] * (r.random() < .2)
        out = "screen[positions]"
        if cls == "Points":
            a = [self.positions(n), self.scalar(n, 30, out), self.color(n, out),
                 self.color(n, out), self.scalar(n, 3)]
        elif cls == "Pixels":
            a = [self.positions(n), self.color(n, out)]
        elif cls == "Markers":
            types = enum("Marker", MARKERS) if r.random() < .7 else \
                ["markers", [r.choice(MARKERS) for _ in range(n)]]
            P = self.positions(n)
            a = [P, types, self.scalar(n, 60, out), ["none"] if r.random() < .8 else P,
                 self.angle(n),
                 self.color(n, out), self.color(n, out), self.scalar(n, 3)]
        elif cls == "Segments":
            a = [self.measured("seg", n), enum("LineCap", ["round", "butt", "cap"]),
                 gen_color(r) if r.random() < .5 else
                 ["arr", self.array(r.choice(["vec4", "nd4"]), self.one(n))], self.scalar(n, 5)]
        else:
            nv = r.randrange(3, 13) if r.random() < .96 else r.randrange(260, 400)
            P = self.positions(nv) if r.random() < .7 else self.measured("vec3", nv)
            part, items = self.partition(nv)
            o = "screen[paths]" if cls == "Paths" else "screen[polygons]"
            tries = 0
            while items == nv and tries < 9:    # ambiguous: per item or per vertex
                part, items = self.partition(nv)
                tries += 1
            uni = items == nv
            col = lambda: gen_color(r) if uni else self.color(items, o)
            wid = lambda: self.scalar(items, 5, buffers=not uni)
            if cls == "Paths":
                a = [P, part, col(), wid(), enum("LineStyle", ["solid", "dashed"]),
                     enum("LineJoin", ["round", "miter"]), enum("LineCap", ["round", "butt"])]
            else:
                a = [P, part, col(), col(), wid(), enum("LineStyle", ["solid", "dashed"]),
                     enum("LineJoin", ["round", "miter"])]
        if cls in ("Points", "Markers") and self.transforms:
            if r.random() < .12:        # attributes that follow other ones
                a[-2] = ["out", "fill_colors"]
            if r.random() < .12:
                a[-1] = ["op", "*", ["num", round(r.uniform(.02, .1), 2)], ["out", "sizes"]]
        self.ops.append(["visual", self.n_vis, cls] + a)
        self.n_vis += 1

    def clock(self):
        r = self.r
        self.ops.append(["clock", r.choice([round(r.uniform(0, .1), 3), round(r.uniform(0, 5), 2),
                                            -round(r.uniform(0, 100), 1), 86400.0, -3.0e6])])

    def write(self):
        r = self.r
        ok = [i for i, (k, n) in enumerate(self.kinds)
              if self.plain_writes or not k.startswith("nd")]
        if not ok:
            return
        how = r.choice(["all", "item", "slice", "comp", "swz", "mul"])
        self.ops.append(["write", r.choice(ok), how, r.randrange(99), r.randrange(99),
                         r.randrange(99), r.randrange(10**6)])

    def render(self, mats=None):
        r = self.r
        if not self.n_view:
            self.viewport()
        if not self.n_vis:
            self.visual_()
        self.ops.append(["render", r.randrange(self.n_vis), r.randrange(self.n_view),
                         mats or gen_mats(r)])
