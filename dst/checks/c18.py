"""C18: the trackball orientation stays a proper rotation."""
import copy

import numpy as np

from ..node import Node, SimClock
from ..observe import CallFaults
from ..sim import Check, SimFault, Violation

ERRORS = {"error": lambda: SimFault("injected"), "memory": lambda: MemoryError("injected"),
          "interrupt": lambda: KeyboardInterrupt("injected")}
KINDS = {"float": float, "f8": np.float64, "f4": np.float32, "int": int, "i4": np.int32}


def gen_stream(r, n):
    """Positions of a pointer; far away for some kinds of pointers."""
    kind = r.choice(["near", "near", "edge", "pixels", "far", "huge", "tiny", "line", "still", "slow",
                     "slow"])
    size = {"near": .8, "edge": 1.2, "pixels": 3000, "far": 1e8, "tiny": 1e-9, "line": 1,
            "still": .5, "slow": 1, "huge": 10.0 ** r.choice([20, 60, 100, 155, 200, 300, 308])}[kind]
    x = y = 0.0
    out = []
    for _ in range(n):
        if kind == "line":
            x += r.uniform(-.3, .3)
        elif kind == "still" and r.random() < .8:
            pass
        elif kind == "slow":
            step = 10.0 ** r.uniform(-7, -1.5)
            x, y = x + r.uniform(-step, step), y + r.uniform(-step, step)
        elif kind in ("near", "edge") and r.random() < .8:
            x, y = x + r.gauss(0, .05), y + r.gauss(0, .05)
        else:
            x, y = r.uniform(-1, 1) * size, r.uniform(-1, 1) * size
        out.append([x, y])
    return out


def reference(p, size=0.8):
    """
    Rotation of a drag as documented: the ends of the drag are projected on a sphere (near
    the center) or a hyperbolic sheet, the axis is perpendicular to both of them and the
    angle is that of their distance. None if that is out of the range of the numbers.
    """
    ends = [(float(p[0]), float(p[1])), (float(p[0] + p[2]), float(p[1] + p[3]))]
    if not all(abs(v) <= 1e15 for end in ends for v in end):
        return None
    (last, new) = [np.array([x, y, np.sqrt(size**2 - d*d) if d < size / np.sqrt(2)
                             else size**2 / 2 / d])
                   for x, y in ends for d in [np.hypot(x, y)]]
    axis = np.cross(new, last)
    if not (p[2] or p[3]) or not axis.any():
        return np.eye(4)
    phi = 2 * np.arcsin(min(1, np.linalg.norm(last - new) / (2 * size)))
    x, y, z = axis / np.linalg.norm(axis)
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    R = np.eye(4)
    R[:3, :3] += np.sin(phi) * K + (1 - np.cos(phi)) * K @ K
    return R


class C18(Check):
    id = "C18"
    quick, thorough = 15000, 400000
    rule = ("A run moves a trackball by streams of pointer events of all sizes as they arrive "
            "over a link that loses, repeats, coalesces and reorders them, with coordinates of "
            "several numeric types, empty and endless drags, angles set and read meanwhile, "
            "and drags interrupted by failures. After each event the model matrix has to be a "
            "finite proper rotation and the former one composed with the rotation that a new "
            "trackball makes of the drag, which has to be that of a reference model of the virtual "
            "trackball, as has the total of the drags so far; angles set have to give what a new trackball gives.")
    state_measure = "orientation (rounded) after an event"
    real = "gsp_matplotlib.glm.Trackball, numpy"
    stub = "the pointer and the link that delivers its events"

    def plan(self, r, tier):
        ops = []
        if r.random() < .5:
            ops.append(["new", round(r.uniform(-400, 400), 1), round(r.uniform(-400, 400), 1)])
        loss, dup, late, merge = [r.choice([0, 0, .1, .4]) for _ in range(4)]
        for _ in range(r.choice([1, 2, 3] if tier == "quick" else [1, 3, 6, 10])):
            n = r.choice([1, 3, 8, 20, 20, 120 if r.random() < .2 else 8])
            events = []
            for p in gen_stream(r, n):
                if r.random() < loss:
                    ops.append(["link", "loss"])
                    continue
                if events and r.random() < merge:
                    ops.append(["link", "coalesced"])
                    events[-1] = p
                    continue
                events.append(p)
                if r.random() < dup:
                    ops.append(["link", "duplicate"])
                    events.append(p)
                if len(events) > 1 and r.random() < late:
                    ops.append(["link", "reorder"])
                    events[-2:] = events[:-3:-1]
            kind = r.choice(["float", "float", "float", "f8", "f4", "int", "i4"])
            for (x0, y0), (x1, y1) in zip(events, events[1:]):
                c = r.random()
                if c < .03:
                    ops.append(["set", r.choice(["theta", "phi"]), self.angle(r), self.angle(r),
                                r.random() < .5])
                elif c < .06:
                    ops.append(["read"])
                elif c < .07:
                    ops.append(["one", r.choice(["theta", "phi"]), self.angle(r)])
                elif c < .09:
                    ops.append(["empty", x0, y0, r.choice([0, 0.0, -0.0])])
                elif c < .1:
                    ops.append(["many", x1, y1, x0 - x1, y0 - y1, kind,
                                r.choice([5, 50, 97, 98, 99, 300])])
                elif c < .13:
                    ops.append(["fail", x1, y1, x0 - x1, y0 - y1, r.randrange(6),
                                r.choice(sorted(ERRORS))])
                ops.append(["drag", x0, y0, x1 - x0, y1 - y0, kind])
        if r.random() < .004:           # errors have no way to build up
            ops.append(["many"] + [round(r.uniform(-.9, .9), 3) for _ in range(2)] +
                       [round(r.uniform(-.3, .3), 3) for _ in range(2)] +
                       ["float", r.choice([3000, 8000])])
        return {"ops": ops}

    @staticmethod
    def angle(r):
        return r.choice([0, 90, 180, -90, 360, 45.5, round(r.uniform(-180, 180), 2),
                         round(r.uniform(-1e5, 1e5), 1), r.randrange(-720, 720)])

    def run(self, ctx, plan):
        global GLM
        if GLM is None:
            with Node(clock=SimClock()) as node:
                GLM = node.mpl.glm
        Trackball = GLM.Trackball
        t = Trackball()
        self.total = np.array(t.model, float)   # (None: not known)
        with np.errstate(all="ignore"):
            for op in plan["ops"]:
                t = self.step(ctx, Trackball, t, op)

    def step(self, ctx, Trackball, t, op):
        kind = op[0]
        before = np.array(t.model, float)
        what = f"after {op}"
        if kind == "link":
            ctx.fault(op[1])
            return t
        if kind == "new":
            t = Trackball(*op[1:])
            self.proper(ctx, t, what)
            self.total = np.array(t.model, float)
        elif kind in ("drag", "many"):
            num = KINDS[op[5]]
            if num in (int, np.int32) and max(map(abs, op[1:5])) > 2**30:
                num = float
            p = [num(max(-3e38, min(3e38, v)) if num is np.float32 else v) for v in op[1:5]]
            alone = self.alone(Trackball, p)
            R = reference(p)
            if R is not None:
                self.close(alone, R, "other-rotation", f"{what} of a new trackball", 1e-5)
                self.total = None if self.total is None else \
                    self.total @ np.linalg.matrix_power(R, op[6] if kind == "many" else 1)
            else:
                self.total = None
            for i in range(op[6] if kind == "many" else 1):
                before = np.array(t.model, float)
                t.drag_to(*p)
                self.composed(t, before, alone, f"{what} ({i})")
            if self.total is not None:
                self.close(t.model, self.total, "drags-lost", what, 2e-5)
            if max(map(abs, op[1:5])) > 1e6:
                ctx.fault("huge-drag")
        elif kind == "empty":
            t.drag_to(op[1], op[2], op[3], op[3])
            self.close(t.model, before, "empty-drag", what)
            ctx.fault("empty-drag")
        elif kind == "read":
            t.theta, t.phi
            t.model
            self.close(t.model, before, "read-changes", what)
        elif kind == "set":
            _, first, theta, phi, read = op
            for name in (first, "phi" if first == "theta" else "theta"):
                setattr(t, name, theta if name == "theta" else phi)
                self.proper(ctx, t, what)
                if read:
                    t.theta, t.phi
            self.close(t.model, Trackball(theta, phi).model, "other-orientation", what, 1e-5)
            self.total = np.array(t.model, float)
        elif kind == "one":             # the other one stays as it reads
            _, name, angle = op
            other = "phi" if name == "theta" else "theta"
            angles = {name: angle, other: getattr(copy.deepcopy(t), other)}
            setattr(t, name, angle)
            self.close(t.model, Trackball(**angles).model, "other-angle", what, 1e-5)
            self.total = np.array(t.model, float)
        elif kind == "fail":
            cf = CallFaults(op[5], ERRORS[op[6]])
            try:
                with cf:
                    t.drag_to(*op[1:5])
            except BaseException as e:
                if e is not cf.error:
                    raise
                ctx.fault("failing-drag")
            # (it has been made or not; those to come are made in any case)
            self.proper(ctx, t, what)
            m = np.array(t.model, float)
            alone = self.alone(Trackball, op[1:5])
            a, b = np.abs(m - before).max(), np.abs(m - before @ alone).max()
            if min(a, b) > 1e-4:
                raise Violation("not-composed", f"{what}: neither made nor not made")
            t2 = [before, before @ alone]
            self.total = None
            back = self.alone(Trackball, (.1, .1, .1, 0))
            t.drag_to(.1, .1, .1, 0)
            m = np.array(t.model, float)
            if min(np.abs(m - x @ back).max() for x in t2) > 1e-4:
                raise Violation("not-composed", f"{what} and a drag that does not fail")
        self.proper(ctx, t, what)
        ctx.op(kind)
        ctx.state(np.round(np.array(t.model), 2).tolist())
        return t

    @staticmethod
    def alone(Trackball, p):
        f = Trackball()
        f.drag_to(*p)
        return np.array(f.model, float)

    @staticmethod
    def close(m, want, kind, what, tol=5e-6):
        d = np.abs(np.array(m, float) - np.array(want, float)).max()
        if not d <= tol:
            raise Violation(kind, f"{what}: off by {d:.2g}")

    def composed(self, t, before, alone, what):
        """(A float32 matrix each time: errors do not add up.)"""
        self.close(t.model, before @ alone, "not-composed", what, 1e-5)

    @staticmethod
    def proper(ctx, t, what):
        m = np.array(t.model, float)
        if m.shape != (4, 4) or not np.isfinite(m).all():
            raise Violation("not-finite", f"{what}: {m.tolist()}")
        R = m[:3, :3]
        if np.abs(R @ R.T - np.eye(3)).max() > 1e-5 or abs(np.linalg.det(R) - 1) > 1e-5:
            raise Violation("not-a-rotation", f"{what}: {m.tolist()}")
        if np.abs(m[3] - [0, 0, 0, 1]).max() > 0 or np.abs(m[:, 3] - [0, 0, 0, 1]).max() > 0:
            raise Violation("not-homogeneous", f"{what}: {m.tolist()}")


GLM = None
CHECK = C18()
