"""C12: the recorded buffer commands reproduce the array at every point in time."""
import base64
import json
import os

import numpy as np

from ..arrays import Accepted, NotSame, Program, Refused, World, data, gen_program
from ..node import Node, SimClock
from ..scratch import scratch
from ..session import norm_method
from ..sim import Check, Violation
from .c10 import equal

GLM = [p + v for p in ("b", "i", "u", "h", "", "d") for v in
       ("vec2", "vec3", "vec4", "mat2", "mat3", "mat4")] + ["byte", "ubyte", "float"]


class HookList(list):
    """The commands of a queue, telling when one is recorded."""
    hook = None

    def append(self, c):
        super().append(c)
        self.hook(c)


class Replica:
    """Buffers as recorded commands describe them."""

    def __init__(self):
        self.buffers, self.kinds = {}, {}

    def kind(self, oid):
        count, dtype = self.kinds[oid]
        return count, item_type(dtype)

    def apply(self, c):
        m, p = norm_method(c["method"]), c["parameters"]
        if m == "core.Buffer":
            b = base64.b64decode(p["data"]) if p["data"] is not None else None
            self.buffers[p["id"]] = bytearray(b) if b is not None else None
            self.kinds[p["id"]] = p["count"], p["dtype"]
        elif m == "Buffer/set_data":
            b = base64.b64decode(p["data"])
            buf = self.buffers.get(p["id"])
            if buf is None:
                raise Violation("update-without-buffer", f"update of buffer {p['id']}")
            if p["offset"] < 0 or p["offset"] + len(b) > len(buf):
                raise Violation("update-outside", f"{len(b)} bytes at {p['offset']} of "
                                                  f"{len(buf)}")
            buf[p["offset"]:p["offset"] + len(b)] = b


class C12(Check):
    id = "C12"
    quick, thorough = 2500, 100000
    rule = ("A run makes arrays with every array constructor under the backend's own tracker, "
            "modifies them and views of them in any interleaving (as in C10), uses them in "
            "visuals before or after, lets single updates fail (clock errors while a command is "
            "made) and dumps the queue at several points; in every dump the commands up to "
            "each update must give the bytes the array had then. Finally the session, or a "
            "part of it, is replayed on the backend in a fresh node.")
    state_measure = "kind and number of arrays and updates at a dump"
    stub = "clock"

    def plan(self, r, tier):
        ops = gen_program(r, r.randrange(3, 20 if tier == "quick" else 60))
        out = []
        for op in ops:
            if op[0] == "new":
                op[4] = [max(1, k) for k in op[4]] or [r.randrange(1, 5)]
                if r.random() < .5:
                    op = ["glm", op[1], r.choice(GLM), r.choice([None, 1, 2, 5, 9]), op[-1]]
            out.append([op, r.random() < .07])
            c = r.random()
            if c < .15:
                out.append([["use", r.randrange(6), r.choice(["Pixels", "Points"])], False])
            elif c < .2:
                out.append([["dump"], False])
            elif c < .25:
                out.append([["canvas"], False])
        return {"ops": out, "cut": r.randrange(10**6)}

    def run(self, ctx, plan):
        with scratch() as top:
            os.chdir(top)
            clock = SimClock()
            node = Node(clock=clock)
            with node:
                final = self.client(ctx, plan, node, clock)
            if final is None:
                return
            # a server replays it, up to some point
            text, history, known = final
            doc = json.loads(text)
            n = len(doc["commands"])
            k = plan["cut"] % (2 * n) + 1 if n else 0
            doc["commands"] = [c for c in doc["commands"][:k]
                               if norm_method(c["method"]) in ("core.Buffer", "Buffer/set_data")]
            rep = Replica()
            updated = set()
            for c in doc["commands"]:
                rep.apply(c)
                if c["method"] == "Buffer/set_data":
                    updated.add(c["parameters"]["id"])
            with open("s.json", "w") as f:
                json.dump(doc, f)
            ctx.fault("client-crash")
            node = Node(clock=SimClock())
            with node:
                node.gsp.load("s.json").run(node.mpl)
                for oid in rep.buffers:
                    b = np.asarray(node.gsp.Object.objects[oid])
                    if b.tobytes() != bytes(rep.buffers[oid]):
                        raise Violation("replayed-buffer-differs", f"buffer {oid} of {k} commands")
                    if oid in known and b.dtype.base != known[oid].dtype:
                        raise Violation("replayed-type-differs", f"{b.dtype} instead of "
                                                                 f"{known[oid].dtype}")

    def client(self, ctx, plan, node, clock):
        q = node.gsp.io.queue("main")
        nd = node.mpl.glm.ndarray
        world = World(node, nd.tracked.__tracker_class__)
        history = []            # (command id, buffer id, bytes it has to have then)
        owner = {}              # buffer id -> root
        uses = []               # (visual id, array of its positions, root)
        self.taken = 0

        def mirror_of(Z):
            """The buffer made for a new array."""
            made = [c for c in q.commands[self.taken:] if raw(c) == "core.Buffer"]
            self.taken = len(q.commands)
            if not made:
                raise Violation("not-recorded", f"{type(Z).__name__} {Z.shape} has no buffer")
            return int(made[-1].parameters["id"])

        def hook(c):
            if raw(c) == "Buffer/set_data":
                root = owner.get(int(c.parameters["id"]))
                if root is not None:
                    history.append((int(c.id), root.mirror, np.asarray(root.Z).tobytes()))

        q.commands = HookList(q.commands)
        q.commands.hook = hook
        prog = Program(world, mirror_of)
        prog.mirror_of_copy = lambda Z: None
        for op, fail in plan["ops"]:
            outcome = "ok"
            kind = op[0]
            root = prog.root_of(op) if kind not in ("glm", "use", "dump", "canvas") else None
            if fail and root is not None:
                clock.fail = 1
            try:
                if kind == "glm":
                    self.make(world, op, mirror_of)
                elif kind == "use":
                    slots = sorted(world.slots)
                    if not slots:
                        continue
                    Z, M, r = world.slots[slots[op[1] % len(slots)]]
                    if not Z.ndim:
                        continue
                    V = node.gsp.visual
                    v = V.Pixels(Z, (0, 0, 0, 1)) if op[2] == "Pixels" else \
                        V.Points(Z, 1.0, (0, 0, 0, 1), (0, 0, 0, 1), 1.0)
                    uses.append((int(v.id), Z, r))
                elif kind == "dump":
                    self.verify(ctx, q, history, uses, "dump")
                elif kind == "canvas":
                    node.gsp.core.Canvas(9, 9, 50.0)
                else:
                    prog.do(op)
            except Refused as e:
                outcome = type(e.__cause__).__name__
            except (Accepted, NotSame):
                outcome = "accepted"
            except OSError:
                if not (fail and root is not None):
                    raise
                outcome = "failed"
            failed = fail and root is not None and clock.fail == 0
            clock.fail = 0
            if failed:
                ctx.fault("clock-error")
            ctx.op(kind, outcome)
            for r in world.roots:
                if r.mirror is not None:
                    owner[r.mirror] = r
            if not failed and q.commands:
                last = int(q.commands[-1].id)
                for r in world.roots:
                    # (a failed update is made up for by the next one of its array)
                    if r.mirror is None or getattr(r, "stale", False) and r is not root:
                        continue
                    if r is root and getattr(r, "stale", False):
                        if not prog.wrote:
                            continue
                        r.stale = False
                    history.append((last, r.mirror, np.asarray(r.Z).tobytes()))
            elif failed:
                root.stale = True
                if root.M.flags.writeable:
                    np.copyto(root.M, np.asarray(root.Z))
            self.taken = len(q.commands)
        for r in world.roots:
            if not getattr(r, "stale", False) and not equal(r.Z, r.M):
                raise Violation("array-differs", f"{np.asarray(r.Z).tolist()}")
        text = self.verify(ctx, q, history, uses, "final dump")
        return text, history, {b: r.Z for b, r in owner.items()}

    @staticmethod
    def make(world, op, mirror_of):
        """Arrays made by the public array functions."""
        _, slot, name, count, seed = op
        Z = getattr(world.glm, name)(count)
        b = mirror_of(Z)
        M = np.empty(Z.shape, Z.dtype)
        world.init(Z, M, seed)
        world.add(slot, Z, M, lambda Z: b)

    def verify(self, ctx, q, history, uses, what):
        import sys
        text = sys.modules["gsp"].io.json.dump(q)
        doc = json.loads(text)
        due = {}
        for cid, b, content in history:
            due.setdefault(cid, {})[b] = content
        positions = {}
        rep, n = Replica(), 0
        for c in doc["commands"]:
            rep.apply(c)
            n += 1
            for b, content in due.pop(c["id"], {}).items():
                got = rep.buffers.get(b)
                if got is None or bytes(got) != content:
                    raise Violation("buffer-differs", f"{what}: buffer {b} after {n} commands "
                                    f"is {None if got is None else got.hex()} instead of "
                                    f"{content.hex()}")
            if norm_method(c["method"]).startswith("visual."):
                positions[c["parameters"]["id"]] = c["parameters"].get("positions(id)")
        if due:
            raise Violation("command-lost", f"{what}: {len(due)} recorded updates are missing")
        # what visuals refer to is what their arrays hold now
        for oid, Z, root in uses:
            got = rep.buffers.get(positions.get(oid))
            if got is None:
                raise Violation("no-buffer", f"{what}: visual {oid} has no positions buffer")
            if getattr(root, "stale", False) and positions[oid] == root.mirror:
                continue
            want = np.asarray(Z).tobytes()
            if bytes(got) != want:
                raise Violation("buffer-differs", f"{what}: positions of visual {oid} are "
                                f"{got.hex()} instead of {want.hex()}")
            kind = len(Z), Z.dtype
            if rep.kind(positions[oid]) != kind:
                raise Violation("buffer-type", f"{what}: positions of visual {oid} are "
                                f"{rep.kind(positions[oid])} instead of {kind}")
        ctx.state(len(rep.buffers), len(history), len(uses))
        return text


def item_type(text):
    """The type of the elements, without the shape of the items."""
    import ast
    d = np.dtype(ast.literal_eval(text) if text[:1] in "[({" else text)
    return d.base


def raw(c):
    m = c.methodname
    return m if "." in m else c.classname if m == "__init__" else f"{c.classname}/{m}"


CHECK = C12()
