"""C02: commands go only to the active writable queue; queue names are stable."""
from ..session import Session, diff_log, gen_session, gen_new, gen_call
from ..sim import Check, Violation

NAMES = ["default", "", "a", "b", "c", "é", "readonly", "queue with spaces"]


class C02(Check):
    id = "C02"
    quick, thorough = 2400, 120000
    rule = ("A run is a client session interleaving calls (successful and failing) with "
            "creating, fetching, activating, emptying and write-protecting queues and "
            "switching recording off and on.")
    state_measure = "number of queues, active queue, flags and length of the active log"

    def plan(self, r, tier):
        names = r.sample(NAMES, r.randrange(2, 5))
        ops = []
        for op in gen_session(r, r.randrange(6, 28), bad=.15):
            while r.random() < .4:
                ops.append(r.choice([
                    ["queue", r.choice(names)], ["queue", r.choice(names)],
                    ["queue", r.choice(["active", None])],
                    ["activate", r.randrange(5)],
                    ["record", r.random() < .6], ["record", True],
                    ["readonly", r.randrange(5), r.random() < .5],
                    ["readonly", -1, False],
                    ["empty", r.randrange(5)],
                    ["toggle", r.choice(["record", "readonly"])],
                ]))
            ops.append(op)
        return {"ops": ops}

    def run(self, ctx, plan):
        s = Session(ctx)
        with s.node:
            gsp = s.node.gsp
            CQ = gsp.io.CommandQueue
            model = {}          # name -> [real queue, expected, readonly]
            active = None
            recording = True

            def fetch(name):
                nonlocal active
                q = gsp.io.queue(name)
                key = name
                if name in (None, "active"):
                    key = active if active is not None else "default"
                if key not in model:
                    model[key] = [q, [], False]
                    active = key
                if model[key][0] is not q:
                    raise Violation("queue-identity",
                                    f"queue({name!r}) is not the queue of that name")

            def sync():
                m = model[active] if active is not None else None
                s.recording = recording and not (m and m[2])
                s.expected = m[1] if m else []

            for op in plan["ops"]:
                kind = op[0]
                outcome = "ok"
                if kind == "queue":
                    fetch(op[1])
                elif kind == "activate":
                    if model:
                        active = sorted(model)[op[1] % len(model)]
                        CQ.active = model[active][0]
                elif kind == "record":
                    recording = op[1]
                    gsp.io.record(op[1])
                elif kind == "readonly":
                    if model:
                        name = active if op[1] < 0 else sorted(model)[op[1] % len(model)]
                        model[name][2] = op[2]
                        model[name][0].readonly = op[2]
                        if op[2]:
                            ctx.fault("queue-write-protected")
                elif kind == "empty":
                    if model:
                        m = model[sorted(model)[op[1] % len(model)]]
                        m[0].empty()
                        m[1].clear()
                elif kind == "toggle":
                    if op[1] == "record":
                        gsp.io.record(False)
                        gsp.io.record(recording)
                    elif active is not None:
                        q = model[active][0]
                        q.readonly = not q.readonly
                        q.readonly = not q.readonly
                else:
                    sync()
                    if not recording:
                        ctx.fault("recording-off")
                    had = active
                    before = len(s.expected)
                    outcome = s.apply(op)
                    if outcome == "raised":
                        ctx.fault("failing-call")
                    if had is None and outcome != "skip":
                        # The first recorded call of a process makes the
                        # default queue; a failing or unrecorded one may.
                        if CQ.active is not None:
                            fetch("default")
                            model["default"][1].extend(s.expected)
                        elif s.expected:
                            raise Violation("no-queue", "a recorded call made no queue")
                ctx.op(kind if kind not in ("new", "call") else op[1], outcome)
                # Every queue, not just the active one, is as modelled
                for name, (q, expected, ro) in model.items():
                    d = diff_log(s.dump(q), expected)
                    if d:
                        raise Violation("queue-differs",
                                        f"queue {name!r} (active: {active!r}) after {op[:2]}: {d}")
                    ctx.check(len(q) == len(expected), "queue-length", name)
                    ctx.check(q.readonly == ro, "readonly-changed", name)
                    ctx.check(gsp.io.queue(name) is q, "queue-identity", name)
                if active is not None:
                    ctx.check(gsp.io.queue("active") is model[active][0], "active-queue",
                              lambda: f"active is {gsp.io.queue('active').name!r}, not {active!r}")
                    ctx.state(len(model), active, recording, model[active][2],
                              len(model[active][1]))


CHECK = C02()
