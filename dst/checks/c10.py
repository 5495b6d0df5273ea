"""C10: a tracked array and its mirror agree after every modification."""
import numpy as np

from ..arrays import Accepted, Mirror, NotSame, OtherValue, Program, Refused, World, gen_program
from ..node import Node, SimClock
from ..sim import Check, Violation


def equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.names:
        return a.shape == b.shape and all(equal(a[n], b[n]) for n in a.dtype.names)
    if a.dtype.kind == "f":
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def diff(mirror, Z):
    """(first, last + 1) byte in which mirror and array differ, or None."""
    b = np.frombuffer(np.asarray(Z).tobytes(), np.uint8)
    m = np.frombuffer(bytes(mirror.bytes), np.uint8)
    if len(b) != len(m):
        return 0, max(len(b), len(m))
    d = np.nonzero(b != m)[0]
    return (int(d[0]), int(d[-1]) + 1) if len(d) else None


class Run:
    """Executes a program and compares arrays, models and mirrors."""

    def __init__(self, ctx, node):
        self.ctx = ctx
        Mirror.made = []
        Mirror.faults = None
        self.w = World(node, Mirror)
        self.p = Program(self.w, self.mirror_of)
        self.p.mirror_of_copy = self.mirror_of_copy
        self.taken = 0

    def mirror_of(self, Z):
        """Mirrors made for a new array: the last one mirrors it."""
        made = Mirror.made[self.taken:]
        self.taken = len(Mirror.made)
        if not made:
            raise Violation("not-tracked", f"{type(Z).__name__} {Z.shape} got no mirror")
        return made[-1]

    def mirror_of_copy(self, Z):
        made = Mirror.made[self.taken:]
        self.taken = len(Mirror.made)
        return made[-1] if made else None

    def compare(self, what, mirrors=True):
        for root in self.w.roots:
            if not equal(root.Z, root.M):
                raise Violation("array-differs", f"{what}: array is {np.asarray(root.Z).tolist()}"
                                                 f" instead of {root.M.tolist()}")
            if root.M.dtype.kind == "f" and root.M.flags.writeable:
                # the bytes of a NaN are the processor's choice
                np.copyto(root.M, np.asarray(root.Z), where=np.isnan(root.M))
            m = root.mirror
            if m is not None and mirrors:
                if m.outside:
                    raise Violation("update-outside", f"{what}: {m.outside} of {len(m.bytes)}")
                d = diff(m, root.Z)
                if d is not None:
                    raise Violation("mirror-differs", f"{what}: bytes {d} of {len(m.bytes)}, "
                                    f"{type(root.Z).__name__} {root.Z.shape} {root.Z.dtype}")


class C10(Check):
    id = "C10"
    quick, thorough = 6000, 300000
    rule = ("A run makes tracked arrays of every class, type, shape, memory layout and way of "
            "construction, and random views, transposes, reinterpretations, ragged lists, "
            "copies and derived arrays of them, and modifies them by item, slice, component, "
            "in-place arithmetic, fancy keys and invalid values; after each step every array "
            "equals a plain numpy model and every mirror equals its array, byte by byte.")
    state_measure = "class, type, shape, strides and root layout of a modified array"
    stub = "the mirror (a byte buffer that applies what it is told)"

    def plan(self, r, tier):
        return {"ops": gen_program(r, r.randrange(2, 30 if tier == "quick" else 80))}

    def run(self, ctx, plan):
        node = Node(clock=SimClock())
        with node:
            run = Run(ctx, node)
            for op in plan["ops"]:
                root = run.p.root_of(op)
                others = [(r.mirror, r.mirror.calls) for r in run.w.roots
                          if r.mirror is not None and r is not root]
                outcome = "ok"
                try:
                    run.p.do(op)
                except Refused as e:
                    outcome = type(e.__cause__).__name__
                    ctx.fault("refused-write")
                except Accepted:
                    raise Violation("accepted", f"{op} succeeds, unlike on a plain array")
                except OtherValue as e:
                    raise Violation("other-components", str(e))
                except NotSame:
                    raise Violation("not-in-place", f"{op} gives another object")
                for m, n in others:
                    if m.calls != n and m.bytes:
                        raise Violation("notified-other", f"{op[:4]} updates the mirror of an "
                                                          "array it does not touch")
                name = op[0] if op[0] not in ("iop", "fancy", "copy", "view") else \
                    f"{op[0]}{op[2] if op[0] in ('iop', 'fancy') else ':' + op[3]}"
                ctx.op(name, outcome)
                if root is not None and op[1] in run.w.slots:
                    Z = run.w.slots[op[1]][0]
                    ctx.state(type(Z).__name__, Z.dtype.str, Z.shape, Z.strides, root.Z.strides)
                run.compare(f"after {op[:5]}")


CHECK = C10()
