"""C27: threads that draw, compute and record do not disturb each other."""
import collections
import json
import os

from .. import scene
from ..display import Display
from ..node import Node, SimClock, close_figures
from ..scratch import scratch
from ..session import norm_method
from ..sim import Check, Violation
from ..threads import Scheduler, simulated_locks
from .c07 import files, images, same_images

SKIP = {"clock"}


def gen_thread(r, tier, cls=None):
    """A program of a thread: it makes all it uses by itself."""
    g = scene.Gen(r)
    g.n = r.choice([1, 2, 3, 4])
    g.canvas()
    g.viewport()
    if r.random() < .2:
        g.viewport()
    g.visual_(cls)
    for _ in range(r.randrange(1, 7 if tier == "quick" else 16)):
        c = r.random()
        if c < .3:
            g.render()
        elif c < .5:
            g.write()
        elif c < .58:
            g.settrans()
        elif c < .68:
            g.ops.append(["array", 900 + len(g.ops), r.choice(["vec3", "float", "vec4"]),
                          r.randrange(1, 5), r.randrange(10**6)])
            g.ops.append(["write", g.ops[-1][1], r.choice(["all", "item"]), r.randrange(99),
                          r.randrange(99), r.randrange(99), r.randrange(10**6)])
        elif c < .76:
            g.visual_()
        elif c < .82:
            g.ops.append(["size", 0, r.randrange(12, 60), r.randrange(12, 60)])
            g.ops.append(["event", 0, 1])
        elif c < .88:
            g.ops.append(["shot", 0])
        elif c < .92:
            g.ops.append(["export", 0, f"out{r.randrange(2)}.png"])
        elif c < .94:
            g.ops.append(r.choice([["save"], ["keep"], ["keep"]]))
        elif c < .97:
            g.ops.append(["object", r.randrange(8)])
        else:
            g.ops.append(["bad", r.randrange(8)])
    g.render()
    return [op for op in g.ops if op[0] not in SKIP]


def stories(text):
    """What a dump tells about each group of objects that refer to each other.

    Ids are replaced by their order of appearance within the group, so that the
    story does not depend on what other threads made meanwhile.
    """
    commands = json.loads(text)["commands"]
    parent = {}

    def root(i):
        while parent.setdefault(i, i) != i:
            i = parent[i]
        return i

    def refs(c):
        return [v for k, v in c["parameters"].items() if k == "id" or k.endswith("(id)")]
    for c in commands:
        ids = refs(c)
        for i in ids[1:]:
            parent[root(i)] = root(ids[0])
    groups, names = collections.OrderedDict(), {}
    for c in commands:
        g = root(c["parameters"]["id"])
        n = names.setdefault(g, {})
        p = {k: n.setdefault(v, len(n)) if k == "id" or k.endswith("(id)") else v
             for k, v in c["parameters"].items()}
        groups.setdefault(g, []).append((norm_method(c["method"]), p))
    return collections.Counter(json.dumps(g, sort_keys=True) for g in groups.values())


FOCUS = ("json.py", "command.py", "object.py", "tracked.py", "visual.py", "rollback.py",
         "markers.py", "paths.py", "points.py", "segments.py", "polygons.py", "pixels.py",
         "canvas.py", "viewport.py", "buffer.py", "convert.py", "colormap.py", "measure.py",
         "operator.py", "transform.py", "glm.py", "vec234.py", "mat234.py", "swizzle.py")
KINDS = ("markers.py", "paths.py", "points.py", "segments.py", "polygons.py", "pixels.py")


class C27(Check):
    id = "C27"
    quick, thorough = 750, 25000
    cpu_limit = 90.0
    rule = ("A run is 2-3 threads of one process, each with a program of its own: it makes "
            "arrays, a canvas, viewports and visuals, writes, renders, resizes, takes pictures, "
            "exports, saves and fails; between any two source lines (or bytecodes) of the library the "
            "plan may pass the baton on. Pictures, exported files and the recorded commands are "
            "compared with those of the same programs run one after the other in processes of "
            "their own, the dump of the common queue is replayed in a fresh process.")
    state_measure = "(preempted thread, resumed thread, function, line in function) of preemptions"
    stub = "thread scheduler and the locks of the code under test (cooperative), clock, windows"

    def plan(self, r, tier):
        focus = r.choice(FOCUS + ("json.py",) * 2 + KINDS * 3) if r.random() < .6 else ""
        # (threads that do different things seldom meet)
        cls = focus[:-3].capitalize() if focus in KINDS else \
            r.choice(scene.VISUALS) if r.random() < .3 else None
        threads = [gen_thread(r, tier, cls) for _ in range(r.choice([2, 2, 2, 3]))]
        fine = r.random() < .25
        switch = []
        for _ in range(r.randrange(4, 60)):
            gap = r.choice([3, 30, 300, 1500, 6000])
            switch.append([r.randrange(1, gap * (6 if fine else 1)) + 1, r.randrange(4)])
        if focus:
            # switched often, but in one file only
            switch = [[r.randrange(1, (40 if fine else 8)), c] for _, c in switch]
            if focus == "json.py":
                for ops in threads:
                    for _ in range(r.randrange(1, 4)):
                        ops.insert(r.randrange(1, len(ops) + 1), ["keep"])
            if r.random() < .5:
                focus += f":{r.randrange(5040)}"
        return {"threads": threads, "switch": switch, "fine": fine, "focus": focus}

    def simpler(self, plan):
        if len(plan["threads"]) > 2:
            for t in range(len(plan["threads"])):
                p = json.loads(json.dumps(plan))
                del p["threads"][t]
                yield p
        for t in range(len(plan["threads"])):
            for i in range(len(plan["threads"][t]) - 1, -1, -1):
                p = json.loads(json.dumps(plan))
                del p["threads"][t][i]
                yield p
        for i, (gap, c) in enumerate(plan["switch"][:-1]):
            p = json.loads(json.dumps(plan))
            p["switch"][i:i + 2] = [[gap + p["switch"][i + 1][0], p["switch"][i + 1][1]]]
            yield p

    def run(self, ctx, plan):
        with scratch() as top, simulated_locks():
            dirs = []
            for i in range(len(plan["threads"]) + 2):
                dirs.append(os.path.join(top, str(i)))
                os.mkdir(dirs[-1])
            # each on its own
            want, told = [], collections.Counter()
            for t, ops in enumerate(plan["threads"]):
                os.chdir(dirs[t])
                with Node(clock=SimClock()) as node:
                    d = Display(ctx, node)
                    for op in ops:
                        self.step(d, op, t)
                    want.append(images(d.s))
                    told += stories(node.gsp.io.json.dump(node.gsp.io.queue("active")))
                close_figures()
            # all of them at once
            os.chdir(dirs[-2])
            with Node(clock=SimClock()) as node:
                parts = [Display(ctx, node) for _ in plan["threads"]]

                def body(t):
                    def run():
                        for op in plan["threads"][t]:
                            if self.step(parts[t], op, t):
                                ctx.op(f"{t}:{op[0] if op[0] != 'visual' else op[2]}")
                    return run
                sched = Scheduler(ctx, plan["switch"], 10**7, fine=plan["fine"],
                                  focus=plan["focus"])
                dead = sched.run([body(t) for t in range(len(parts))])
                if dead:
                    raise Violation(dead, f"after {sched.steps} steps")
                for task in sched.tasks:
                    if task.error is not None:
                        raise task.error
                for t, d in enumerate(parts):
                    same_images(ctx, images(d.s), want[t], "picture-differs", f"thread {t}")
                ids = {t: {e["id"]: e for es in (d.s.canvases, d.s.viewports, d.s.visuals)
                           for e in es.values()} for t, d in enumerate(parts)}
                every = [i for t in ids for i in ids[t]]
                ctx.check(len(set(every)) == len(every), "duplicate-id", str(sorted(every)))
                text = node.gsp.io.json.dump(node.gsp.io.queue("active"))
                got = stories(text)
                slots = [(t, e["id"]) for t, d in enumerate(parts)
                         for e in d.s.canvases.values()]
                z = node.mpl.glm.vec3(2)
                ctx.check(z._tracker is not None, "not-tracked",
                          "an array made afterwards has no buffer")
                sizes = [[(w.w, w.h, w.dpi) for w in d.windows.values()] for d in parts]
                made = [sorted(f for f in files(dirs[t])) for t in range(len(parts))]
                whole = [int(c.id) for c in node.gsp.io.queue("active").commands]
            close_figures()
            if os.path.exists("kept.json"):
                with open("kept.json") as f:
                    kept = [c["id"] for c in json.load(f)["commands"]]
                kept = [i for i in kept if i in set(whole)]
                ctx.check(kept == whole[:len(kept)], "save-not-prefix", f"{kept} of {whole}")
            if got != told:
                lost, more = told - got, got - told
                raise Violation("record-differs", f"not recorded: {self.short(lost)}, recorded "
                                f"instead: {self.short(more)}")
            ctx.check(sorted(files(dirs[-2])) == sorted({f for m in made for f in m}),
                      "exports-differ", str(sorted(files(dirs[-2]))))
            # what was recorded, replayed
            os.chdir(dirs[-1])
            path = os.path.join(top, "s.json")
            with open(path, "w") as f:
                f.write(text)
            with Node(clock=SimClock()) as node:
                node.gsp.load(path).run(node.mpl)
                objects = node.gsp.Object.objects
                for t, d in enumerate(parts):
                    for k, e in d.s.canvases.items():
                        if d.windows[k].dpi and not self.resized(plan["threads"][t]):
                            same_images(ctx, [objects[e["id"]].render(None)], [want[t][k]],
                                        "replay-differs", f"thread {t}")
            close_figures()

    @staticmethod
    def resized(ops):
        return any(op[0] == "size" for op in ops)

    @staticmethod
    def short(counter):
        return [[f"{m}({p.get('id')})" for m, p in json.loads(s)][:9] for s in list(counter)[:2]]

    @staticmethod
    def step(d, op, t):
        if op[0] == "bad":
            return d.s.op_bad(op[1])
        if op[0] == "keep":             # all threads save to the same file
            d.node.gsp.save("kept.json")
            return True
        if op[0] == "export":
            op = [op[0], op[1], f"{t}-{op[2]}"]
        return d.apply(op)


CHECK = C27()
