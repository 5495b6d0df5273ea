"""C11: a failed upload loses no update."""
import numpy as np

from ..arrays import Accepted, Faults, Mirror, NotSame, Refused, gen_program
from ..node import Node, SimClock
from ..observe import CallFaults, reaches
from ..sim import Check, SimFault, Violation
from .c10 import Run, diff, equal

ERRORS = {"error": lambda: SimFault("upload failed"), "memory": lambda: MemoryError("upload"),
          "os": lambda: OSError(5, "upload"), "interrupt": lambda: KeyboardInterrupt("upload"),
          "type": lambda: TypeError("upload"), "value": lambda: ValueError("upload"),
          "index": lambda: IndexError("upload"), "attribute": lambda: AttributeError("upload"),
          "unimplemented": lambda: NotImplementedError("upload"),
          "buffer": lambda: BufferError("upload")}


class C11(Check):
    id = "C11"
    quick, thorough = 6000, 300000
    rule = ("A run modifies tracked arrays and views of them as in C10 while uploads to the "
            "mirror fail - before, amid or after their effect, once or for many writes in a "
            "row, with any kind of error - or library calls of a write do. After each step the "
            "dirty region, asked for through the array and all its views, covers every byte "
            "in which array and mirror differ; a write with an accepted upload heals the "
            "mirror and clears the region.")
    state_measure = "dirty region, size and layout of an array, and whether a write just failed"
    stub = "the mirror (a byte buffer that applies what it is told, or fails to)"

    def plan(self, r, tier):
        ops = gen_program(r, r.randrange(4, 30 if tier == "quick" else 80), fancy=True)
        out, burst = [], 0
        for op in ops:
            if op[0] in ("new", "view", "copy"):
                out.append([None, op])
                continue
            if burst == 0 and r.random() < .3:
                burst = r.choice([1, 1, 2, 5, 12])
            if burst:
                burst -= 1
                if r.random() < .75:
                    fault = ["upload", r.choice(["before", "before", "amid", "after"]),
                             round(r.random(), 3), r.choice(sorted(ERRORS)),
                             r.choice([0, 0, 0, 1, 2])]
                else:
                    fault = ["call", r.randrange(30), r.choice(sorted(ERRORS))]
                out.append([fault, op])
            else:
                out.append([None, op])
        return {"ops": out}

    def run(self, ctx, plan):
        node = Node(clock=SimClock())
        with node:
            run = Run(ctx, node)
            try:
                for fault, op in plan["ops"]:
                    self.step(ctx, run, fault, op)
            finally:
                Mirror.faults = None

    def step(self, ctx, run, fault, op):
        root = run.p.root_of(op)
        accepted = {id(r): r.mirror.accepted for r in run.w.roots if r.mirror is not None}
        calls = None
        if fault and fault[0] == "upload":
            Mirror.faults = Faults(fault[1], fault[2], ERRORS[fault[3]], fault[4])
        elif fault:
            calls = CallFaults(fault[1], ERRORS[fault[2]])
        error, outcome = None, "ok"
        try:
            if calls:
                with calls:
                    run.p.do(op)
            else:
                run.p.do(op)
        except Refused as e:
            error = e.__cause__
        except (Accepted, NotSame) as e:
            if fault is None:
                raise Violation("accepted", f"{op}: {type(e).__name__}")
        except Violation:
            raise
        except BaseException as e:
            error = e
        injected = None
        if Mirror.faults is not None:
            injected, Mirror.faults = Mirror.faults.error, None
        elif calls:
            injected = calls.error
        what = f"after {op[:5]}" + (f" failing by {fault}" if injected is not None else "")
        if injected is not None:
            ctx.fault(f"upload-fails-{fault[1]}" if fault[0] == "upload" else
                      "library-call-error")
            outcome = "failed"
            if error is None:
                if fault[0] == "upload":
                    raise Violation("error-swallowed", f"{what}: nothing was raised")
            elif not reaches(error, injected) and fault[0] == "upload":
                raise Violation("other-error", f"{what}: raised {type(error).__name__}")
        elif error is not None:
            outcome = "refused"
            if fault is None and type(error) not in (ValueError, TypeError, IndexError, KeyError,
                                                     NotImplementedError, OverflowError) and \
                    not isinstance(error, TypeError):
                raise error
        ctx.op(op[0], outcome)

        for r in run.w.roots:
            m = r.mirror
            if injected is None and error is None:
                pass
            elif r is root and r.M.flags.writeable:
                np.copyto(r.M, np.asarray(r.Z))     # how far a failed write got is not specified
            if not equal(r.Z, r.M):
                raise Violation("array-differs", f"{what}: array is {np.asarray(r.Z).tolist()} "
                                                 f"instead of {r.M.tolist()}")
            if m is None:
                continue
            if m.outside:
                raise Violation("update-outside", f"{what}: {m.outside} of {len(m.bytes)}")
            d = diff(m, r.Z)
            if injected is None and (m.accepted > accepted.get(id(r), m.accepted) or
                                     error is None and r is root and run.p.wrote):
                # an accepted upload heals everything
                if d is not None:
                    raise Violation("not-healed", f"{what}: bytes {d} still differ after an "
                                                  "accepted update")
                self.region(run, r, None, what)
            elif d is not None:
                self.region(run, r, d, what)
            ctx.state(type(r.Z).__name__, r.Z.shape, r.Z.strides, d, injected is not None)

    @staticmethod
    def region(run, root, want, what):
        """Through the array and all views: the region covers want (None: is clear)."""
        for slot in root.slots:
            if slot not in run.w.slots:
                continue
            Z = run.w.slots[slot][0]
            got = Z.dirty
            if want is None:
                if got is not None and len(root.mirror.bytes):
                    raise Violation("not-cleared", f"{what}: dirty region is {got}")
            elif got is None or got[0] > want[0] or got[1] < want[1]:
                raise Violation("not-dirty", f"{what}: bytes {want} differ, the dirty region "
                                f"of {type(Z).__name__} {Z.shape} is {got}")


CHECK = C11()
