"""C04: concurrent callers lose or duplicate no command, id or queue."""
import copy
import json

from ..node import draw_age
from ..session import Session, diff_command, gen_new, gen_call, gen_bad, ANY
from ..sim import Check, Violation
from ..threads import Scheduler, simulated_locks

CLASSES = ["core.Canvas", "core.Buffer", "transform.Pixel", "transform.Out", "Thing",
           "Thing", "named.Sub", "core.List", "visual.Pixels"]
CALLS = ["Thing.poke", "Thing.poke", "Visual.render", "Colormap.set_colormap", "Thing.fail"]
NAMES = ["default", "q1", "q2"]


class C04(Check):
    id = "C04"
    quick, thorough = 1600, 60000
    cpu_limit = 60.0
    rule = ("A run is 2-4 threads making, calling and failing recordable calls, writing to "
            "tracked arrays, fetching queues by name and dumping the queue; between any two "
            "source lines (in part of the runs: any two bytecodes) of gsp or gsp_matplotlib the "
            "plan may pass the baton to another thread (10-60 preemptions at drawn positions).")
    state_measure = "(preempted thread, resumed thread, function, line in function) of preemptions"
    stub = "thread scheduler and the locks of the code under test (cooperative), clock"

    def plan(self, r, tier):
        mode = r.choice(["one", "queues", "dump", "one"])
        threads = []
        for t in range(r.randrange(2, 5)):
            ops = []
            for _ in range(r.randrange(1, 7)):
                c = r.random()
                if mode == "queues" and c < .4:
                    ops.append(["queue", r.choice(NAMES)])
                elif mode == "dump" and c < .25:
                    ops.append(["dump"])
                elif c < .15:
                    ops.append(["array", r.randrange(1, 5)])
                elif c < .25:
                    ops.append(["write", r.randrange(9), r.randrange(99)])
                elif c < .35:
                    ops.append(["shared", r.randrange(9)])
                elif c < .42:
                    ops.append(gen_bad(r))
                elif c < .75:
                    ops.append(gen_new(r, r.choice(CLASSES)))
                else:
                    ops.append(gen_call(r, r.choice(CALLS)))
            threads.append(ops)
        span = r.choice([3, 12, 40])
        switch = [[r.randrange(1, span * 2), r.randrange(4)] for _ in range(r.randrange(8, 60))]
        prelude = []
        if r.random() < .6:
            prelude = [gen_new(r, c) for c in ("core.Canvas", "core.Buffer", "Thing")]
        fine = r.random() < .4
        if fine:
            switch = [[g * r.choice([1, 5, 9]), c] for g, c in switch]
        return {"age": draw_age(r), "mode": mode, "prelude": prelude, "threads": threads, "switch": switch,
                "fine": fine}

    def simpler(self, plan):
        for t in range(len(plan["threads"])):
            for i in range(len(plan["threads"][t])):
                p = json.loads(json.dumps(plan))
                del p["threads"][t][i]
                yield p
        for i, (gap, c) in enumerate(plan["switch"][:-1]):
            p = json.loads(json.dumps(plan))
            p["switch"][i:i + 2] = [[gap + p["switch"][i + 1][0], p["switch"][i + 1][1]]]
            yield p

    def run(self, ctx, plan):
        with simulated_locks():
            self.run_threads(ctx, plan)

    def run_threads(self, ctx, plan):
        s = Session(ctx)
        with s.node:
            s.classes()
            gsp, mpl = s.node.gsp, s.node.mpl
            s.node.age(plan["age"])
            for op in plan["prelude"]:
                s.apply(op)
            things = list(s.pool.get("Thing", ()))
            queues, dumps, arrays = [], [], []
            clients = []
            unique = iter(range(10 ** 6, 2 * 10 ** 6))

            def body(t, ops):
                c = copy.copy(s)
                c.pool = {k: list(v) for k, v in s.pool.items()}
                c.pool["Thing"] = []            # shared ones: unique calls only
                c.objects, c.expected, c.mine = [], [], []
                clients.append((t, c))

                def run():
                    for op in ops:
                        kind = op[0]
                        if kind == "queue":
                            q = gsp.io.queue(op[1])
                            queues.append((op[1], q))
                            outcome = "ok"
                        elif kind == "dump":
                            dumps.append(s.dump(gsp.io.queue("default")))
                            outcome = "ok"
                        elif kind == "array":
                            z = mpl.glm.vec3(op[1])
                            b = z._tracker.gsp_buffer
                            c.mine.append((z, b))
                            arrays.append((z, b))
                            c.note("core.Buffer", {"id": int(b.id), "count": op[1],
                                                   "dtype": ANY, "data": ANY})
                            c.note("Buffer/set_data", {"id": int(b.id), "offset": 0,
                                                       "data": ANY})
                            c.objects.append((b, int(b.id), "Buffer"))
                            outcome = "ok"
                        elif kind == "write":
                            if not c.mine:
                                continue
                            z, b = c.mine[op[1] % len(c.mine)]
                            z[op[2] % len(z)] = op[2], 1, 2
                            c.note("Buffer/set_data", {"id": int(b.id), "offset": ANY,
                                                       "data": ANY})
                            outcome = "ok"
                        elif kind == "shared":
                            if not things:
                                continue
                            o, oid, _ = things[op[1] % len(things)]
                            x = next(unique)
                            o.poke(x)
                            c.note(f"{type(o).__name__}/prod",
                                   {"id": oid, "x": x, "y": 3, "z": None})
                            outcome = "ok"
                        else:
                            outcome = c.apply(op)
                            if outcome == "raised":
                                ctx.fault("failing-call")
                        ctx.op(f"{t}:{kind if kind not in ('new', 'call') else op[1]}", outcome)
                c.t0 = c.t1 = s.clock.now
                return run

            sched = Scheduler(ctx, plan["switch"], fine=plan["fine"])
            dead = sched.run([body(t, ops) for t, ops in enumerate(plan["threads"])])
            if dead:
                raise Violation(dead, f"after {sched.steps} steps")
            for task in sched.tasks:
                if task.error is not None:
                    raise task.error
            ctx.ev("steps", sched.steps)

            # one queue per name
            byname = {}
            for name, q in queues:
                ctx.check(byname.setdefault(name, q) is q, "two-queues",
                          lambda: f"queue({name!r}) gave two different queues")
            for name, q in byname.items():
                ctx.check(gsp.io.queue(name) is q, "two-queues",
                          lambda: f"queue({name!r}) is now another queue")
            recorded = [c for _, c in clients if c.expected] or s.expected
            if byname:
                # whatever else exists was made implicitly
                byname.setdefault("default", gsp.io.queue("default"))
                logs = {n: s.dump(q) for n, q in byname.items()}
            elif recorded:
                logs = {"default": s.dump(gsp.io.queue("active"))}
            else:
                logs = {}
            # shuffle of the threads' commands, none lost, none doubled
            cids = [c["id"] for log in logs.values() for c in log]
            ctx.check(len(set(cids)) == len(cids), "duplicate-command-id", str(cids))
            if plan["mode"] != "queues":
                for log in logs.values():
                    want = {t: list(c.expected) for t, c in clients}
                    rest = list(log[len(s.expected):])
                    for i, got in enumerate(rest):
                        for t, w in want.items():
                            if w and diff_command(got, w[0], times=False) is None:
                                w.pop(0)
                                break
                        else:
                            raise Violation("not-a-shuffle",
                                            f"command {i} ({got['method']} of "
                                            f"{got['parameters'].get('id')}) is not the next of "
                                            f"any thread: next are " +
                                            str({t: (w[0]["method"], w[0]["parameters"]["id"])
                                                 for t, w in want.items() if w}))
                    left = {t: [w["method"] for w in ws] for t, ws in want.items() if ws}
                    ctx.check(not left, "lost-commands", str(left))
            else:
                # commands go where "active" points at the time: check each
                # thread's commands over all queues
                logs_all = [c for log in logs.values() for c in log]
                for t, c in [(None, s)] + clients:
                    for w in c.expected:
                        hit = [g for g in logs_all if diff_command(g, w, times=False) is None]
                        ctx.check(len(hit) >= 1, "lost-commands",
                                  lambda: f"{w['method']} of thread {t}")
                        logs_all.remove(hit[0])
                ctx.check(not logs_all, "extra-commands",
                          lambda: str([g["method"] for g in logs_all]))
                for log in logs.values():
                    ids = [g["id"] for g in log]
                    for t, c in clients:
                        own = {o[1] for o in c.objects}
                        made = [g["parameters"]["id"] for g in log
                                if "/" not in g["method"].replace("/__init__", "")
                                and g["parameters"]["id"] in own]
                        order = [o[1] for o in c.objects if o[1] in made]
                        ctx.check(made == order, "thread-order", str((made, order)))
            # a dump taken meanwhile is a prefix
            for d in dumps:
                log = logs.get("default", [])
                known = {c["id"] for c in log}
                ids = [c["id"] for c in d if c["id"] in known]
                ctx.check(ids == [c["id"] for c in log][:len(ids)], "dump-not-prefix",
                          lambda: f"{ids} of {[c['id'] for c in log]}")
                ctx.check(len(ids) == len(d), "dump-invents",
                          lambda: str([c["method"] for c in d if c["id"] not in known]))
            # objects
            Object = s.node.mod("gsp.object").Object
            seen = {}
            for t, c in [(None, s)] + clients:
                for o, oid, name in c.objects:
                    ctx.check(oid not in seen, "duplicate-object-id", lambda: f"{name} {oid}")
                    seen[oid] = o
                    ctx.check(o.id == oid and Object.objects.get(oid) is o, "lost-object",
                              lambda: f"{name} {oid} of thread {t}")
            for z, b in arrays:
                ctx.check(z._tracker.gsp_buffer is b, "array-lost-buffer")


CHECK = C04()
