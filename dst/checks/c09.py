"""C09: replaying a queue never changes the log and is repeatable."""
import json
import os

from .. import scene
from ..node import Node, SimClock, close_figures, draw_age
from ..observe import Observed
from ..scratch import scratch
from ..session import norm_method
from ..sim import Check, NoProgress, Violation
from .c07 import build, images, resize, same_images


def canonical(text, queue):
    """A dump with object ids renamed by first appearance, and without ids and
    times of the commands that the dump itself made up (conversions)."""
    doc = json.loads(text)
    own = {int(c.id): c for c in queue.commands}
    names = {}

    def name(i):
        return names.setdefault(i, len(names))
    out = []
    for c in doc["commands"]:
        p = {}
        for k, v in c["parameters"].items():
            p[k] = name(v) if k == "id" or k.endswith("(id)") else v
        out.append([norm_method(c["method"]), p] +
                   ([c["id"], c["timestamp"]] if c["id"] in own else []))
    return out


def queue_dump(queue):
    import sys
    return sys.modules["gsp"].io.json.dump(queue)


def raw_calls(queue):
    out = []
    for c in queue.commands:
        m = c.methodname
        out.append(m if "." in m else
                   c.classname if m == "__init__" else f"{c.classname}/{m}")
    return out


# What a delayed conversion of a live queue makes up
CONVERSIONS = {norm_method(c) for c in ("core.Buffer", "core.List", "Buffer/set_data")}


def match_calls(got, want, live):
    """The calls made are the commands, each once and in order."""
    j = 0
    for i, c in enumerate(got):
        if j < len(want) and c == want[j]:
            j += 1
        elif not (live and c in CONVERSIONS):
            raise Violation("calls-differ", f"call {i} is {c} instead of "
                            f"{want[j] if j < len(want) else 'none'}")
    if j < len(want):
        raise Violation("calls-differ", f"{want[j]} is not executed")


def snapshot(node):
    Q = node.mod("gsp.io.command").CommandQueue
    return {n: (q, list(q.commands), [(c.id, c.timestamp, c.classname, c.methodname,
                                       list(c.parameters.items())) for c in q.commands],
                q.readonly, q.name) for n, q in type(Q)._instances.items()}, Q.active


def same_snapshot(ctx, a, b, what):
    (qa, aa), (qb, ab) = a, b
    ctx.check(aa is ab, "active-queue-changed", what)
    ctx.check(set(qa) == set(qb), "queues-changed", lambda: f"{what}: {sorted(qb)}")
    for n in qa:
        ctx.check(qa[n][0] is qb[n][0] and qa[n][3:] == qb[n][3:], "queue-state-changed",
                  f"{what}: queue {n}")
        x, y = qa[n][1], qb[n][1]
        ctx.check(len(x) == len(y), "log-changed",
                  f"{what}: queue {n} has {len(y)} commands instead of {len(x)}")
        ctx.check(all(p is q for p, q in zip(x, y)), "log-changed", f"{what}: queue {n}")
        for p, q in zip(qa[n][2], qb[n][2]):
            same = p[:4] == q[:4] and len(p[4]) == len(q[4]) and all(
                k == l and v is w for (k, v), (l, w) in zip(p[4], q[4]))
            ctx.check(same, "command-changed", f"{what}: queue {n}, command {p[3]}")


class C09(Check):
    id = "C09"
    quick, thorough = 900, 30000
    rule = ("A run records a random program (as in C07, either flavour), keeps it live or "
            "saves, restarts and loads it, and then runs the queue several times among "
            "saves, resizes, renders, other recordings and queue switches; the commands "
            "executed, all queues, the dump and the images are compared each time.")
    state_measure = ("which of live/loaded, active, read-only and recording a run found, and the "
                     "images it made")
    stub = "clock; the window system"

    def plan(self, r, tier):
        g = scene.Gen(r)
        g.canvas()
        for _ in range(r.choice([1, 2])):
            g.viewport()
        g.visual_()
        for _ in range(r.randrange(0, 8)):
            r.choice([g.visual_, g.write, g.render, g.viewport, g.settrans, g.clock])()
        g.render()
        steps = []
        for _ in range(r.randrange(2, 8 if tier == "quick" else 16)):
            steps.append(r.choice([["run"], ["run"], ["run"], ["dump"], ["save"],
                                   ["resize", r.randrange(12, 80), r.randrange(12, 80)],
                                   ["canvas"], ["other", r.randrange(3)],
                                   ["readonly", r.random() < .5], ["record", r.random() < .5],
                                   ["snapshot"],
                           ["clock", round(r.uniform(-100, 100), 2)]]))
        steps.append(["run"])
        return {"age": draw_age(r), "flavour": r.choice(["gsp", "mpl"]), "live": r.random() < .5, "ops": g.ops,
                "steps": steps}

    def run(self, ctx, plan):
        ops, fl, live = plan["ops"], plan["flavour"], plan["live"]
        if live:
            # what a later run shows is the data of that time (see C07)
            first = next((i for i, o in enumerate(ops) if o[0] == "render"), len(ops))
            ops = [o for i, o in enumerate(ops)
                   if i < first or o[0] not in ("write", "settrans")]
        with scratch() as top:
            os.chdir(top)
            path = os.path.join(top, "s.json")
            node = Node(clock=SimClock())
            node.__enter__()
            try:
                q = node.gsp.io.queue("main")
                node.age(plan["age"])
                s = build(node, fl, ops, ctx)
                if not live:
                    node.gsp.save(path)
                    node.__exit__()
                    close_figures()
                    node = Node(clock=SimClock())
                    node.__enter__()
                    q = node.gsp.io.queue("main")
                    q2 = node.gsp.load(path)
                    ctx.fault("client-crash")
                    q = q2 if q2 is not None else q
                self.steps(ctx, plan, node, q, s, live)
            finally:
                node.__exit__()

    def steps(self, ctx, plan, node, q, s, live):
        queue, record = node.gsp.io.queue, node.mod("gsp.io.command").record
        first = None
        dumped = None
        recording = True
        extra = 0
        for step in plan["steps"]:
            kind = step[0]
            if kind == "run":
                calls = raw_calls(q)
                before = snapshot(node)
                with Observed(node, limit=3 * len(calls) + 20) as obs:
                    try:
                        q.run(obs.backend)
                    except NoProgress:
                        raise Violation("no-progress", f"{len(obs.log)} calls were made for "
                                                       f"{len(calls)} commands")
                match_calls([norm_method(c) for c in obs.log],
                            [norm_method(c) for c in calls], live)
                same_snapshot(ctx, before, snapshot(node), "a run")
                im = images(s, node.gsp.Object.objects)
                same_snapshot(ctx, before, snapshot(node), "a picture")
                if first is None:
                    first = im
                same_images(ctx, im, first, "image-differs", "run again")
                ctx.state("run", live, q.readonly, recording, queue("active") is q,
                          [i.tobytes() for i in im])
            elif kind in ("dump", "save"):
                before = snapshot(node)
                if kind == "dump":
                    text = queue_dump(q)
                else:
                    node.gsp.io.json.save("copy.json", q)
                    text = open("copy.json").read()
                same_snapshot(ctx, before, snapshot(node), kind)
                c = canonical(text, q)
                if dumped is not None:
                    n = len(dumped)
                    ctx.check(c[:n] == dumped and (extra or len(c) == n), "dump-differs",
                              lambda: f"{[a for a, b in zip(c, dumped) if a != b][:1]} "
                                      f"{len(c)} commands instead of {n}")
                dumped, extra = c, 0
            elif kind == "resize":
                if first is None:
                    continue
                before = snapshot(node)
                for e in s.canvases.values():
                    c = node.gsp.Object.objects[e["id"]]
                    if hasattr(c, "_figure"):
                        resize(c._figure, step[1], step[2], e["dpi"])
                        ctx.fault("resize")
                same_snapshot(ctx, before, snapshot(node), "a resize")
            elif kind == "snapshot" and first is not None:
                before = snapshot(node)
                images(s, node.gsp.Object.objects)
                same_snapshot(ctx, before, snapshot(node), "a picture")
            elif kind == "clock":
                node.clock.now += step[1]
                ctx.advance(step[1])
                ctx.fault("clock-jump")
            elif kind == "canvas":
                n = len(q.commands)
                active = queue("active")
                writes = recording and not active.readonly
                node.gsp.core.Canvas(9, 9, 50.0)
                grown = len(q.commands) - n
                ctx.check(grown == (1 if writes and active is q else 0), "not-recorded",
                          f"a call after a run added {grown} commands")
                extra += grown
            elif kind == "other":
                queue(["main", "b", "c"][step[1]])
            elif kind == "readonly":
                queue("active").readonly = step[1]
            elif kind == "record":
                recording = step[1]
                record(recording)
            ctx.op(kind)


CHECK = C09()
