"""C01: every client call is recorded exactly once, in order, with its values."""
from ..node import draw_age
from ..session import Session, diff_log, gen_session
from ..sim import Check, SimFault, Violation


def anchored(s, op):
    """Calls of a class whose parameters have an object as default value, or only names."""
    _, what, style, other, i, x = op
    if not hasattr(s, "anchor"):
        s.apply(["new", "Thing", "gsp", 1, [["int", 1]], True])
        s.anchor, s.anchor_id, _ = s.objects[-1]
        anchor = s.anchor
        command = s.node.mod("gsp.io.command").command
        Object = s.node.mod("gsp.object").Object

        class Anchored(Object):
            @command()
            def __init__(self, a: int, where: Object = anchor, *, by: float = 1.5,
                         tags: list = None):
                super().__init__()

            @command("go")
            def move(self, to: Object = anchor, by: float | Object = anchor):
                if isinstance(by, float) and by < 0:
                    raise SimFault("method body fails")

            @command()
            def bare(self, thing, n=2):
                return thing

            @command()
            def late(self, *, x: int, to: Object = anchor):
                self.move(to, 2.0, __no_command__=True)
                return x
        s.Anchored, s.anchored = Anchored, []
    things = s.pool["Thing"]
    o, oid, _ = things[i % len(things)]
    s.t0 = s.clock.now
    pos, kw, wire = [], {}, {}

    def give(name, omitted):
        if style == "omit":
            wire[name + "(id)"] = omitted
        else:
            wire[name + "(id)"] = oid
            if style == "kw":
                kw[name] = o
            else:
                pos.append(o)
    if what == "new" or not s.anchored:
        pos.append(x)
        wire["a"] = x
        give("where", s.anchor_id)
        wire["by"], wire["tags"] = 1.5, None
        if other == "kw":
            kw["tags"] = ["t", x]
            wire["tags"] = ["t", x]
        got = s.Anchored(*pos, **kw)
        s.anchored.append(got)
        method, oid = "Anchored/__init__", got.id
    else:
        got = s.anchored[x % len(s.anchored)]
        if what == "late" and style == "pos":
            style = "kw"
        if what == "bare":
            if style == "omit":
                style = "pos"
            give("thing", None)
            wire["n"] = 2
            if other == "kw":
                kw["n"] = wire["n"] = [x]
            method = "Anchored/bare"
            got.bare(*pos, **kw)
        elif what == "late":
            kw["x"] = wire["x"] = x
            give("to", s.anchor_id)
            method = "Anchored/late"
            got.late(*pos, **kw)
        else:
            give("to", s.anchor_id)
            method = "Anchored/go"
            if what == "bad":
                kw["by"] = -1.0
            elif other == "kw":
                kw["by"] = wire["by"] = float(x)
            else:
                wire["by(id)"] = s.anchor_id
            try:
                got.move(*pos, **kw)
            except SimFault:
                return "raised"
        oid = got.id
    s.t1 = s.clock.now
    s.note(method, dict(wire, id=int(oid)))
    return "ok"


class C01(Check):
    id = "C01"
    quick, thorough = 2400, 120000
    rule = ("A run is a client session of 4-30 calls (constructors and methods of every "
            "protocol class in both flavours, and of user-defined recordable classes; "
            "positional, named, omitted and object arguments), with failing calls, clock "
            "jumps in both directions and clock failures between and during calls.")
    state_measure = "length of the log and kind of its last command"
    stub = "clock (simulated; jumps and fails on demand)"

    def plan(self, r, tier):
        ops = []
        for op in gen_session(r, r.randrange(4, 31), bad=r.choice([0, .15, .4])):
            if r.random() < .25:
                ops.append(["clock", round(r.choice([1, 60, 86400, -3600, -1e6]) * r.random(), 3)])
            if r.random() < .06:
                ops.append(["clockfail"])
            if r.random() < .01:
                ops.append(["age", draw_age(r, 1)])
            ops.append(op)
            if r.random() < .12:
                ops.append(["anchored", r.choice(["new", "new", "move", "late", "bad", "bare"]),
                            r.choice(["omit", "pos", "kw"]), r.choice(["omit", "kw"]),
                            r.randrange(9), r.randrange(9)])
        return {"ops": ops, "age": draw_age(r)}

    def run(self, ctx, plan):
        s = Session(ctx)
        with s.node:
            known_cids = {}
            s.node.age(plan["age"])
            for op in plan["ops"]:
                if op[0] == "age":
                    s.node.age(op[1])
                    continue
                if op[0] == "clock":
                    s.clock.now = max(1e6, s.clock.now + op[1])
                    ctx.advance(op[1])
                    ctx.fault("clock-back" if op[1] < 0 else "clock-forward")
                    continue
                if op[0] == "clockfail":
                    s.clock.fail = 1
                    continue
                armed = s.clock.fail
                try:
                    outcome = anchored(s, op) if op[0] == "anchored" else s.apply(op)
                except OSError:
                    if not armed:
                        raise
                    outcome = "raised"
                if armed and not s.clock.fail:
                    ctx.fault("clock-error")
                s.clock.fail = 0
                if outcome == "raised":
                    ctx.fault("failing-call")
                ctx.op(op[1], outcome)
                if outcome == "skip":
                    continue
                got = s.dump()
                d = diff_log(got, s.expected)
                if d:
                    raise Violation("log-differs", f"after {op[1]} ({outcome}): {d}")
                ids = [c["id"] for c in got]
                ctx.check(len(set(ids)) == len(ids), "duplicate-command-id", f"{ids}")
                for i, c in enumerate(got):
                    if known_cids.setdefault(i, (c["id"], c["timestamp"])) != (c["id"], c["timestamp"]):
                        raise Violation("command-changed", f"id or time of command {i} changed")
                ctx.check(len(s.node.gsp.io.queue("active")) == len(got), "queue-length")
                ctx.state(len(got), got[-1]["method"] if got else "")
            ctx.ev("end", [c["method"] for c in s.expected])


CHECK = C01()
