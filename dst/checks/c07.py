"""C07: replaying a saved session in a fresh process rebuilds the same scene."""
import os

import numpy as np

from .. import scene
from ..node import Node, SimClock, close_figures, draw_age, plt
from ..scratch import scratch
from ..sim import Check, Violation


def resize(fig, w, h, dpi):
    """The window system resizes a window."""
    from matplotlib.backend_bases import ResizeEvent
    fig.set_size_inches(w / dpi, h / dpi, forward=False)
    fig.canvas.callbacks.process("resize_event", ResizeEvent("resize_event", fig.canvas))


def images(s, objects=None):
    """Pictures of the canvases of a scene, by slot."""
    out = []
    for e in s.canvases.values():
        c = e["c"] if objects is None else objects[e["id"]]
        out.append(c.render(None).copy())
    return out


def files(d):
    return {n: open(os.path.join(d, n), "rb").read() for n in sorted(os.listdir(d))}


def build(node, flavour, ops, ctx=None, prelude=()):
    s = scene.Scene(node, flavour, ctx)
    for op in prelude:
        if op[0] == "bad":
            failed = s.op_bad(op[1])
            if ctx is not None and failed:
                ctx.fault("failing-call")
        else:
            s.apply(op)
    for op in ops:
        done = s.apply(op)
        if ctx is not None and done:
            ctx.op(op[0] if op[0] != "visual" else op[2])
    return s


def same_images(ctx, got, want, kind, what):
    for i, (a, b) in enumerate(zip(got, want)):
        if a.shape != b.shape:
            raise Violation(kind, f"{what}: canvas {i} is {a.shape} instead of {b.shape}")
        n = int((a != b).any(axis=-1).sum())
        if n:
            raise Violation(kind, f"{what}: {n} of {a.shape[0] * a.shape[1]} pixels of "
                                  f"canvas {i} differ")


class C07(Check):
    id = "C07"
    quick, thorough = 900, 30000
    rule = ("A run executes a random program (canvases, viewports in pixels, fractions and "
            "measures, arrays and buffers of every kind, all six visuals with uniform, "
            "per-item and transformed attributes, writes between renders, exports) directly "
            "on the backend, then as a recording client of one of the two flavours (after "
            "unrelated and failing calls), saves, kills the client, loads and replays in a "
            "fresh node, and compares images (also after a resize), files, ids and classes. "
            "Programs whose data does not change after the first render are also replayed "
            "live in the client.")
    state_measure = "final image of a canvas"
    stub = "clock; the window system (resize events are issued by the simulator)"

    def plan(self, r, tier):
        g = scene.Gen(r)
        prelude = []
        for _ in range(r.choice([0, 0, 1, 3, 8])):
            prelude.append(["object", r.randrange(8)] if r.random() < .6 else
                           ["bad", r.randrange(8)])
        for _ in range(r.choice([1, 1, 1, 2])):
            g.canvas()
        for _ in range(r.choice([1, 1, 2, 3])):
            g.viewport()
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            g.visual_()
        static = r.random() < .4
        n = r.randrange(1, 12 if tier == "quick" else 30)
        rendered = False
        for _ in range(n):
            c = r.random()
            if r.random() < .2:
                g.clock()
            if c < .35 and not (static and rendered):
                g.write()
            elif c < .42 and not (static and rendered):
                g.settrans()
            elif c < .75:
                g.render()
                rendered = True
            elif c < .82:
                g.visual_()
            elif c < .86:
                g.viewport()
            elif c < .89:
                g.canvas()
            elif c < .92:
                g.ops.append(["object", r.randrange(8)])
            elif c < .96:
                g.ops.append(["bad", r.randrange(8)])
            else:
                g.ops.append(["export", r.randrange(9), f"out{r.randrange(3)}.png"])
        g.render()
        return {"age": [draw_age(r), draw_age(r, .05)],
                "flavour": r.choice(["gsp", "mpl"]), "static": static, "prelude": prelude,
                "ops": g.ops, "resize": [r.randrange(12, 80), r.randrange(12, 80)],
                "format": r.choice([None, "json"])}

    def run(self, ctx, plan):
        ops, fl = plan["ops"], plan["flavour"]
        with scratch() as top:
            dirs = []
            for i in range(4):
                dirs.append(os.path.join(top, str(i)))
                os.mkdir(dirs[-1])
            path = os.path.join(top, "session.json")

            # The program on the backend itself
            os.chdir(dirs[0])
            node = Node(clock=SimClock())
            with node:
                s = build(node, "mpl", ops)
                want = images(s)
                for e in s.canvases.values():
                    resize(e["c"]._figure, *plan["resize"], e["dpi"])
                want2 = images(s)
            want_files = files(dirs[0])
            close_figures()

            # A client records it
            os.chdir(dirs[1])
            node = Node(clock=SimClock())
            with node:
                node.age(plan["age"][0])
                s = build(node, fl, ops, ctx, plan["prelude"])
                ids = [(e["id"], e["cls"] if "cls" in e else name)
                       for name, es in (("Canvas", s.canvases), ("Viewport", s.viewports),
                                        ("Visual", s.visuals)) for e in es.values()]
                slots = s
                if plan["format"]:
                    node.gsp.save(path, format=plan["format"])
                else:
                    node.gsp.save(path)
                commands = [c.methodname for c in node.gsp.io.queue("active").commands]
                live = None
                if self.is_static(ops):
                    close_figures()
                    os.chdir(dirs[3])
                    before = dict(node.gsp.Object.objects)
                    node.gsp.io.queue("active").run(node.mpl)
                    for oid, cls in ids:
                        ctx.check(node.gsp.Object.objects.get(oid) is not before[oid],
                                  "not-rebuilt", f"{cls} {oid} is the recorded one after a run")
                    live = images(s, node.gsp.Object.objects)
                    ctx.op("live-run")
            close_figures()
            del node                                       # the client is gone
            ctx.fault("client-crash")

            # A server in a fresh process
            os.chdir(dirs[2])
            node = Node(clock=SimClock())
            with node:
                node.age(plan["age"][1])
                q = node.gsp.load(path)
                q = node.gsp.io.queue("active")
                q.run(node.mpl)
                objects = node.gsp.Object.objects
                for oid, cls in ids:
                    got = type(objects[oid]).__name__ if oid in objects else None
                    ctx.check(got == cls, "object-differs",
                              f"object {oid} is {got} instead of {cls}")
                    ctx.check(int(objects[oid].id) == oid, "object-differs",
                              f"object {oid} says it is {objects[oid].id}")
                got = images(slots, objects)
                for e in slots.canvases.values():
                    resize(objects[e["id"]]._figure, *plan["resize"], e["dpi"])
                    ctx.fault("resize")
                got2 = images(slots, objects)
            got_files = files(dirs[2])
            close_figures()
        same_images(ctx, got, want, "image-differs", f"{fl} session replayed")
        same_images(ctx, got2, want2, "image-differs", f"{fl} session replayed and resized")
        if fl == "gsp":
            ctx.check(set(got_files) == set(want_files), "exports-differ",
                      f"{sorted(got_files)} instead of {sorted(want_files)}")
            for n in want_files:
                ctx.check(got_files[n] == want_files[n], "exports-differ", n)
        if live is not None:
            same_images(ctx, live, want, "live-image-differs", f"{fl} session run live")
        for im in want:
            ctx.state(im.tobytes())
        ctx.ev("commands", commands, [im.shape for im in want])

    @staticmethod
    def is_static(ops):
        """Nothing changes once the first render was issued."""
        kinds = [o[0] for o in ops]
        if "render" not in kinds:
            return True
        i = kinds.index("render")
        return not {"write", "settrans"} & set(kinds[i:])


CHECK = C07()
