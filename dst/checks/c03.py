"""C03: object identifiers are unique and always resolve to the right object."""
import json
import os
import shutil

from ..backends import stub_backend
from ..node import draw_age
from ..scratch import scratch
from ..session import Session, gen_session, norm_method
from ..sim import Check, Violation


class C03(Check):
    id = "C03"
    quick, thorough = 1200, 60000
    rule = ("A run is a chain of up to three processes: each makes objects (some "
            "constructors fail, leaving gaps in the ids), may load and replay the session "
            "the previous process saved - before, after or in between its own calls - and "
            "may load another session into a queue of its own, and "
            "saves its session for the next one, which starts with nothing but that file.")
    state_measure = "size of the registry, its largest id and whether a session was replayed"
    real = Check.real + " (sessions are replayed on the protocol's own classes)"
    stub = "process restarts (fresh module state), clock"

    def plan(self, r, tier):
        ops = []
        for p in range(r.randrange(1, 4)):
            if p:
                ops.append(["restart"])
            part = gen_session(r, r.randrange(2, 16), bad=r.choice([.1, .4]))
            # (the protocol's own Data takes no data that went through a file)
            part = [o for o in part if o[1] != "Data.set_data"]
            where = r.randrange(0, len(part) + 1)
            if p:
                between = [o for o in gen_session(r, r.randrange(0, 5), bad=.2)
                           if o[1] != "Data.set_data"] if r.random() < .4 else []
                if r.random() < .35:    # a second session is loaded before the first one is run
                    between = [["side", r.randrange(p)]] + \
                        [o for o in gen_session(r, r.randrange(1, 6), bad=.1)
                         if o[1] != "Data.set_data"]
                    if r.random() < .5:
                        between.append(["runside"])
                part[where:where] = [["load", r.choice(["gsp", "json"])]] + between + [["run"]]
                if r.random() < .3:
                    part.append(["run"])
            if r.random() < .2:
                i = r.randrange(0, len(part) + 1)
                part[i:i] = [["objects", False]]
                part.insert(r.randrange(i + 1, len(part) + 1), ["objects", True])
            if p and r.random() < .4:
                # another session, of any earlier process, in a queue of its own
                i = r.randrange(0, len(part) + 1)
                part.insert(i, ["side", r.randrange(p)])
                part.insert(r.randrange(i + 1, len(part) + 1), ["runside"])
            if r.random() < .9:
                part.append(["save"])
            age = draw_age(r)
            if age:
                part.insert(r.randrange(0, len(part) + 1), ["age", age])
            ops += part
        return {"ops": ops}

    def run(self, ctx, plan):
        with scratch() as d:
            path = os.path.join(d, "s.json")
            ops = list(plan["ops"])
            while True:
                cut = next((i for i, o in enumerate(ops) if o[0] == "restart"), len(ops))
                s = Session(ctx)
                with s.node:
                    self.process(ctx, s, ops[:cut], path, d)
                if os.path.exists(path):
                    shutil.copy(path, os.path.join(d, f"s{len(os.listdir(d)) - 1}.json"))
                if cut == len(ops):
                    break
                ops = ops[cut + 1:]
                ctx.op("restart")
                ctx.fault("process-restart")

    def process(self, ctx, s, ops, path, d):
        Object = s.node.mod("gsp.object").Object
        gsp = s.node.gsp
        live = {}               # id -> object that has to be found there
        loaded = aside = None
        pending = set()         # ids that belong to the loaded session
        for op in ops:
            kind, outcome = op[0], "ok"
            before = dict(Object.objects)
            n = len(s.objects)
            if kind == "age":
                s.node.age(op[1])
            elif kind == "objects":
                Object.record = op[1]
            elif kind == "save":
                gsp.io.json.save(path)
            elif kind == "load":
                if not os.path.exists(path):
                    continue
                # objects whose creation is not in the log any more still
                # exist but are of no use for a self-contained session
                s.pool.clear()
                if op[1] == "gsp":
                    gsp.load(path)
                    live.clear()
                else:
                    gsp.io.json.load(path)
                with open(path) as f:
                    loaded = json.load(f)["commands"]
                pending = pending | {c["parameters"]["id"] for c in loaded}
                s.expected.clear()
            elif kind == "side":
                side = os.path.join(d, f"s{op[1]}.json")
                if not os.path.exists(side):
                    continue
                active = gsp.io.queue("active")
                q = gsp.io.queue("side")
                gsp.io.CommandQueue.active = active
                gsp.io.json.load(side, q)
                with open(side) as f:
                    aside = json.load(f)["commands"]
                pending = pending | {c["parameters"]["id"] for c in aside}
            elif kind in ("run", "runside"):
                what = loaded if kind == "run" else aside
                if what is None:
                    continue
                made = [(norm_method(c["method"]), c["parameters"]["id"])
                        for c in what + (s.expected if kind == "run" else [])
                        if "/" not in norm_method(c["method"])]
                gsp.io.queue("active" if kind == "run" else "side").run(stub_backend(s))
                for method, oid in made:
                    o = Object.objects.get(oid)
                    cls = method.split(".")[-1]
                    if o is None or type(o).__name__ != cls or o.id != oid or o is before.get(oid):
                        raise Violation("replayed-id", f"id {oid} of the session ({method}) "
                                        f"resolves to {type(o).__name__}")
                    live.pop(oid, None)
                    live[oid] = o
                # objects that were replaced cannot be used any more
                for pool in s.pool.values():
                    pool[:] = [e for e in pool if live.get(e[1]) is e[0]]
            else:
                outcome = s.apply(op)
                if outcome == "raised":
                    ctx.fault("failing-constructor" if kind == "new" else "failing-call")
                for o, oid, cls in s.objects[n:]:
                    if oid in before:
                        raise Violation("id-taken-over",
                                        f"new {cls} got id {oid}, in use by "
                                        f"{type(before[oid]).__name__}")
                    if oid in pending:
                        raise Violation("id-taken-over",
                                        f"new {cls} got id {oid} of the loaded session")
                    if Object.record:
                        live[oid] = o
            ctx.op(kind if kind not in ("new", "call") else op[1], outcome)
            for oid, o in live.items():
                if Object.objects.get(oid) is not o or o.id != oid:
                    raise Violation("lost-object",
                                    f"after {op[:2]}: id {oid} of a {type(o).__name__} resolves "
                                    f"to {type(Object.objects.get(oid)).__name__}, its id is {o.id}")
            seen = set()
            for oid, o in Object.objects.items():
                if o.id != oid or id(o) in seen:
                    raise Violation("registry-inconsistent",
                                    f"after {op[:2]}: {type(o).__name__} with id {o.id} is "
                                    f"registered under {oid}")
                seen.add(id(o))
            ctx.state(len(Object.objects), max(Object.objects, default=0), loaded is not None)


CHECK = C03()
