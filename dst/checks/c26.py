"""C26: a program is reproducible, whatever surrounds it."""
import ctypes
import gc
import hashlib
import json
import os
import random
import subprocess
import sys
import warnings

import numpy as np

from .. import scene
from ..display import SLOTS
from ..node import REPO, Node, SimClock, close_figures
from ..scratch import scratch
from ..sim import VERIF, Check, Violation

FRESH = {"vec3": (3,), "vec4": (4,), "float": (), "seg": (2, 3), "buf3": (3,), "buf1": (),
         "buf4": (4,)}
GLM = ["mat2", "mat3", "mat4", "dmat4", "bvec2", "ivec3", "dvec2", "hvec4", "uvec4", "vec2",
       "to_vec2", "to_vec3", "to_vec4", "cube", "sphere", "camera", "vec3-none", "copy",
       "trackball", "trackball", "matrices", "matrices", "shapes", "list", "trans"]
M_PERTURB = -6
try:
    mallopt = ctypes.CDLL(None).mallopt
except (OSError, AttributeError):
    mallopt = None


class Surroundings:
    """What a program must not depend on, decided by a seed."""

    def __init__(self, spec):
        self.r = random.Random(spec["seed"])
        self.byte = spec["byte"]
        self.gc = spec["gc"]
        self.noise = []
        self.counts = {}

    def __enter__(self):
        self.saved = np.get_printoptions(), np.random.get_state(), random.getstate(), \
            gc.isenabled(), np.geterr()
        np.set_printoptions(precision=self.r.choice([2, 8, 17]),
                            threshold=self.r.choice([3, 1000]))
        np.random.seed(self.r.randrange(10**6))
        random.seed(self.r.randrange(10**6))
        if self.gc == "off":
            gc.disable()
        self.globals = self.state()
        return self

    def __exit__(self, *exc):
        if mallopt is not None:
            mallopt(M_PERTURB, 0)
        opts, state, pystate, enabled, err = self.saved
        np.set_printoptions(**opts)
        np.random.set_state(state)
        random.setstate(pystate)
        np.seterr(**err)
        if enabled:
            gc.enable()
        self.noise.clear()
        return False

    def state(self):
        """Settings of the process that are not the program's to change."""
        return {"printing": {k: v for k, v in np.get_printoptions().items()},
                "random numbers": [hash(random.getstate()), np.random.get_state()[1].tobytes(),
                                   np.random.get_state()[2]],
                "floating point": np.geterr(), "directory": os.getcwd(),
                "collector": gc.isenabled(), "recursion": sys.getrecursionlimit()}

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    def before(self):
        """Something happens before a step of the program."""
        r = self.r
        if mallopt is not None:
            mallopt(M_PERTURB, self.byte)
            self.count("memory-filled")
        # (numpy keeps small blocks to itself)
        for size in range(4, 1024, 4):
            a = [np.full(size, self.byte, np.uint8) for _ in range(2)]
        del a
        c = r.random()
        if c < .4:
            self.noise.append([object() for _ in range(r.randrange(1, 40))])
            self.noise.append(np.empty(r.randrange(1, 3000)))
            self.count("addresses-shifted")
        elif c < .5 and self.noise:
            self.noise.pop(r.randrange(len(self.noise)))
        if self.gc == "often" and r.random() < .3 or r.random() < .03:
            gc.collect()
            self.count("collection")


class Program(scene.Scene):
    """A scene program that also uses new, partly written arrays."""

    def __init__(self, *args):
        super().__init__(*args)
        self.values = []

    def op_fresh(self, slot, kind, n, how, seed):
        shape = (n,) + FRESH[kind]
        v = scene.values(seed, shape, *scene.RANGE[kind])
        now = np.zeros(shape, np.float32)
        if kind.startswith("buf"):
            a = self.core.Buffer(n, np.dtype((np.float32, FRESH[kind])))
        else:
            a = {"vec3": self.glm.vec3, "seg": self.glm.vec3, "vec4": self.glm.vec4,
                 "float": self.glm.float}[kind]((n, 2) if kind == "seg" else n)
            if how == "swizzle" and kind in ("vec3", "vec4"):
                a.xy = v[:, 0], v[:, 1]
            elif how == "component":
                a[..., 0] = v[..., 0]
            elif how == "item":
                a[0] = v[0]
            self.values.append(a)
        self.arrays[slot] = {"kind": kind, "arr": a, "n": n, "now": now}

    def op_glm(self, what, n, seed):
        g = self.glm
        if what in ("to_vec2", "to_vec3", "to_vec4"):
            a = getattr(g, what)(scene.values(seed, (n, 2 + seed % 3)))
        elif what in ("cube", "sphere"):
            a = g.cube() if what == "cube" else g.sphere(.5, n, n)
        elif what == "camera":
            a = [g.perspective(20. + n, 1, 1, 100), g.ortho(-1, 1, -1, 1, 1, 10),
                 g.translate((n, 0, 1)), g.xrotate(float(seed % 360))]
        elif what == "trackball":
            ball = g.Trackball(seed % 90, seed // 90 % 90)
            a = [np.array(ball.model)]
            for k in range(n):
                ball.drag_to(seed % 7 / 9 - .3, k / 9, .1 + seed % 3 / 9, .2)
                a.append(np.array(ball.model))
            ball.theta = n
            a += [np.array(ball.model), float(ball.theta), float(ball.phi)]
        elif what == "matrices":
            v = scene.values(seed, (2, 3), .1, 1, float)
            a = [g.align(v[0], v[1]), g.lookat(v[0] * 5, v[1]), g.rotate(float(n), v[0]),
                 g.frustum(-1, 1, -1, n, 1, 9), g.viewport(n, 0, 9, 9, 1), g.scale(v[0]),
                 g.yrotate(n), g.zrotate(n), g.normalize(v), g.clamp(v, .2, .5),
                 *g.frontback(scene.values(seed, (n, 3, 2)))]
        elif what == "shapes":
            a = [*g.shapes.tetrahedron(), *g.shapes.octahedron(), *g.shapes.dodecahedron()]
        elif what == "list":
            L = g.vlist(scene.values(seed, (6 * n, 3)), n)
            a = [np.asarray(L[0]), np.asarray(L[1:4]), np.asarray(L.itemsize), len(L)]
        elif what == "trans":
            M = g.mat4(n)
            M[...] = scene.values(seed, (n, 4, 4))
            a = [np.asarray(g.to_vec3(g.to_vec4(scene.values(seed, (n, 3))) @ M[0].T))]
        elif what == "vec3-none":
            a = g.vec3()
        elif what == "copy":
            a = g.vec3(n).copy()
        else:
            a = getattr(g, what)(n)
        self.values += a if isinstance(a, (list, tuple)) else [a]


def plain(value):
    """What a value is, without where it lies in memory."""
    if isinstance(value, np.ndarray) and value.dtype.hasobject:
        return ["objects", list(value.shape), [plain(v) for v in value.ravel()]]
    if isinstance(value, np.ndarray):
        return [str(value.dtype), list(value.shape), hashlib.sha256(
            np.ascontiguousarray(value).tobytes()).hexdigest()[:16]]
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if isinstance(value, (str, int, float, type(None), np.generic)):
        return repr(value)
    return type(value).__name__


def perform(plan, env):
    """Run the program in given surroundings -> {what: outcome}."""
    out = {}

    def put(what, value):
        out[what] = json.loads(json.dumps(value))

    for name in ("TZ", "LANG", "HOME"):
        os.environ[name] = {"TZ": "UTC%+d" % (env["seed"] % 12), "LANG": "C", "HOME": "/"}[name] \
            if env["other"] else "UTC"
    with scratch() as top:
        os.chdir(top)
        with Surroundings(env) as around:
            clock = SimClock(env["clock"])
            with Node(clock=clock) as node:
                around.before()
                s = Program(node, plan["flavour"])
                for k, op in enumerate(plan["ops"]):
                    clock.now += around.r.choice([0, .001, 5, -3, 1e5])
                    around.before()
                    s.apply(op)
                    if op[0] == "visual" and plan["look"] and op[1] in s.visuals:
                        put(f"attributes before a render at {k}", look(s.visuals[op[1]]["v"],
                                                                      op[2]))
                around.before()
                put("values", plain(s.values))
                put("arrays", [plain(np.asarray(e["arr"])) for e in s.arrays.values()
                               if plan["flavour"] == "mpl" or not e["kind"].startswith("buf")])
                if plan["flavour"] == "mpl":
                    for i, e in s.canvases.items():
                        around.before()
                        put(f"picture of canvas {i}", plain(e["c"].render(None)))
                    for i, e in s.visuals.items():
                        put(f"attributes of visual {i}", look(e["v"], e["cls"]))
                around.before()
                node.gsp.save("session.json")
                with open("session.json") as f:
                    saved = json.load(f)
                for k, c in enumerate(saved["commands"]):
                    put(f"command {k}", {x: v for x, v in c.items() if x != "timestamp"})
                put("commands", len(saved["commands"]))
                if around.state() != around.globals:
                    was, now = around.globals, around.state()
                    put("settings of the process", [x for x in was if was[x] != now[x]])
            close_figures()
            if plan["replay"]:
                with Node(clock=SimClock(env["clock"] + 1e6)) as node:
                    around.before()
                    node.gsp.load("session.json")
                    around.before()
                    node.gsp.io.queue("active").run(node.mpl)
                    for i, e in s.canvases.items():
                        around.before()
                        put(f"picture of replayed canvas {i}",
                            plain(node.gsp.Object.objects[e["id"]].render(None)))
                close_figures()
            for name in sorted(os.listdir(top)):
                if name != "session.json":
                    with open(name, "rb") as f:
                        put(f"file {name}", hashlib.sha256(f.read()).hexdigest()[:16])
            counts = around.counts
    return out, counts


def look(visual, cls):
    out = {}
    for name in SLOTS[cls]:
        try:
            out[name] = plain(visual.eval_variable(name))
        except Exception as e:
            out[name] = type(e).__name__
    return out


# --------------------------------------------------------------------------
# Another process, with other hashes
CHILDREN = {}


class Elsewhere:
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), VERIF_REPO=REPO)
        self.p = subprocess.Popen(
            [sys.executable, "-c", f"import sys; sys.path.insert(0, {VERIF!r}); "
             "from dst.checks import c26; c26.serve()"], env=env, cwd="/",
            stderr=subprocess.DEVNULL, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def ask(self, plan, env):
        self.p.stdin.write(json.dumps([plan, env]) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the other process is gone")
        return json.loads(line)


def serve():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)                       # (whatever is printed goes elsewhere)
    for n, line in enumerate(sys.stdin):
        out.write(json.dumps(attempt(*json.loads(line))) + "\n")
        out.flush()
        if n % 10 == 9:
            gc.collect()


def attempt(plan, env):
    from .. import node
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return perform(plan, env)
    except Exception as e:
        return [{"raised": f"{type(e).__name__}: {e}"}, {}]
    finally:
        node.reset()


class C26(Check):
    id = "C26"
    quick, thorough = 700, 20000
    rule = ("A run executes a random program (scenes of both flavours as in C07, arrays and "
            "buffers that are written only in part, tools of the array library) twice: in the "
            "process of the check and in another one with other hashes, time zone and working "
            "directory. Fresh memory is filled with a byte drawn for each execution (by the C "
            "allocator, and the blocks numpy keeps), objects lie elsewhere, unused objects are "
            "collected at other moments or not at all, the clock says something else and runs "
            "differently, print options and random generators are in another state. The recorded "
            "and saved sessions (but for times), values of arrays and attributes, pictures, "
            "exported files and the pictures of the replayed session have to be the same, and "
            "settings of the process that are not the program's to change are left alone.")
    state_measure = "outcomes of a program"
    stub = "clock; contents of fresh memory (mallopt), collector, hash seed"

    def plan(self, r, tier):
        g = scene.Gen(r)
        for _ in range(r.choice([1, 1, 2])):
            g.canvas()
        for _ in range(r.choice([1, 1, 2])):
            g.viewport()
        for _ in range(r.choice([0, 1, 2, 3])):
            self.fresh(r, g)
        for _ in range(r.choice([1, 1, 2, 3])):
            g.visual_()
        for _ in range(r.randrange(1, 12 if tier == "quick" else 30)):
            c = r.random()
            if c < .25:
                g.write()
            elif c < .3:
                g.settrans()
            elif c < .55:
                g.render()
            elif c < .65:
                self.fresh(r, g)
            elif c < .75:
                g.ops.append(["glm", r.choice(GLM), r.randrange(1, 9), r.randrange(10**6)])
            elif c < .88:
                g.visual_()
            elif c < .92:
                g.ops.append(["object", r.randrange(8)])
            elif c < .96:
                g.ops.append(["bad", r.randrange(8)])
            else:
                g.ops.append(["export", r.randrange(2), "out.png"])
        g.render()
        byte = r.choice([0, 0x3f, 0x7f, 0x80, 0xff, r.randrange(256)])
        envs = []
        for i in range(2):
            envs.append({"byte": byte ^ (r.choice([0xff, 0xbf, 0x41]) if i else 0),
                         "seed": r.randrange(10**6), "gc": r.choice(["on", "on", "off", "often"]),
                         "clock": r.choice([1.7e9, 1.2e9, 1.9e9 + r.random() * 1e6]),
                         "other": bool(i)})
        flavour = r.choice(["gsp", "mpl", "mpl"])
        return {"flavour": flavour, "ops": g.ops, "envs": envs, "hash": r.randrange(1, 4),
                "look": r.random() < .5, "replay": flavour == "gsp" or r.random() < .3}

    @staticmethod
    def fresh(r, g):
        """A new array that visuals will use."""
        kind = r.choice(sorted(FRESH))
        n = g.n
        g.kinds.append((kind, n))
        g.ops.append(["fresh", len(g.kinds) - 1, kind, n,
                      r.choice(["swizzle", "swizzle", "component", "item", "none"]),
                      r.randrange(10**6)])

    def run(self, ctx, plan):
        if plan["hash"] not in CHILDREN:
            CHILDREN[plan["hash"]] = Elsewhere(plan["hash"])
        one, counts = attempt(plan, plan["envs"][0])
        two, counts2 = CHILDREN[plan["hash"]].ask(plan, plan["envs"][1])
        for c in (counts, counts2):
            for what, n in c.items():
                for _ in range(n):
                    ctx.fault(what)
        ctx.fault("other-hashes")
        for op in plan["ops"]:
            ctx.op(op[0] if op[0] != "visual" else op[2])
        for what in list(one) + [k for k in two if k not in one]:
            if one.get(what) != two.get(what):
                kind = what.split(" ")[0]
                raise Violation(f"other-{kind}", f"{what}: {str(one.get(what))[:300]} or "
                                                 f"{str(two.get(what))[:300]}")
        if "raised" in one:
            raise Violation("raises", one["raised"])
        if "settings of the process" in one:
            raise Violation("settings-changed", str(one["settings of the process"]))
        ctx.state(json.dumps(one, sort_keys=True))


CHECK = C26()
