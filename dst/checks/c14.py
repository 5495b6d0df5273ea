"""C14: a rendered visual shows its current data, once, in depth order."""
import os

import numpy as np

from .. import scene
from ..display import SLOTS, Display
from ..node import Node, SimClock, close_figures
from ..scratch import scratch
from ..sim import Check, Violation
from .c07 import same_images


def gen_setvar(r, g):
    """Another value for a variable of a visual."""
    made = [op for op in g.ops if op[0] == "visual"]
    if not made:
        return
    op = r.choice(made)
    cls, args = op[2], op[3:]
    names = [k for k in SLOTS[cls] if k in ("fill_colors", "line_colors", "colors",
                                            "line_widths", "sizes", "positions")]
    name = r.choice(names)
    old = args[SLOTS[cls].index(name)]
    if name == "positions":
        if old[0] != "arr" or cls == "Markers":
            return
        kind, n = g.kinds[old[1]]
        spec = ["arr", g.array("seg" if kind == "seg" else r.choice(["vec3", "as3", "nd3"]), n)]
    elif name.endswith("colors"):
        spec = scene.gen_color(r)
        if spec[2] == "list":
            spec[2] = "tuple"
    else:
        spec = ["num", round(r.uniform(.5, 5), 1)]
    g.ops.append(["setvar", op[1], name, spec])


def gen_burst(r, g):
    """A visual in two viewports, then one of its matrices there changes, then a resize."""
    if not g.n_vis or g.n_view < 2:
        return
    vi = r.randrange(g.n_vis)
    a, b = r.sample(range(g.n_view), 2)

    def mats(keep):
        return [None if r.random() < keep else scene.gen_matrix(r) for _ in range(3)]
    full = [scene.gen_matrix(r) or ["e", "f8"] for _ in range(6)]
    g.ops += [["render", vi, a, full[:3]], ["render", vi, b, full[3:]],
              ["render", vi, a, mats(.5)]]
    if r.random() < .6:
        g.ops.append(["render", vi, b, mats(.3)])
    for ci in range(g.n_canvas):
        if r.random() < .5:
            g.ops.append(["size", ci, r.randrange(12, 90), r.randrange(12, 90)])
        g.ops.append(["event", ci, 1])


def gen_ops(r, g, n, many):
    """Changes, renders and resizes over what g has made."""
    for _ in range(n):
        if r.random() < .05:
            gen_burst(r, g)
        c = r.random()
        ci = r.randrange(g.n_canvas)
        if r.random() < .1:
            g.clock()
        if c < .25:
            g.write()
        elif c < .33:
            gen_setvar(r, g)
        elif c < .4:
            g.settrans()
        elif c < .68:
            g.render()
        elif c < .76:
            g.ops.append(["size", ci, r.randrange(12, 90), r.randrange(12, 90)])
            if r.random() < .7:
                g.ops.append(["event", ci, r.choice([1, 1, 1, 2])])
        elif c < .84:
            g.ops.append(["event", ci, r.choice([1, 1, 2])])
        elif c < .87:
            g.ops.append(["shot", ci])
        elif c < .89:
            g.ops.append(["ratio", ci, r.choice([1, 2, 1.5])])
        elif c < .91:
            g.ops.append(["save"])
        elif c < .93:
            g.ops.append(["export", ci, "out.png"])
        elif c < .96 or not many:
            g.visual_()
        else:
            g.viewport()


class C14(Check):
    id = "C14"
    quick, thorough = 1500, 60000
    many = False
    rule = ("A run makes visuals of all classes with uniform, per-item and computed attributes "
            "and changes arrays, variables and transforms between renders with and without "
            "new matrices, resizes (late, coalesced, repeated events), snapshots, exports and "
            "saves. After each operation the items held by the axes are compared with a model "
            "that projects, sorts and evaluates by itself; the final picture, after rendering "
            "everything again, with that of a fresh node that only ever rendered once.")
    state_measure = "class and projected items of a shown visual"
    stub = "clock; the window system (resize events are issued by the simulator)"

    def plan(self, r, tier):
        g = scene.Gen(r, plain_writes=True)
        for _ in range(r.choice([1, 1, 2, 3]) if self.many else 1):
            g.canvas()
        for _ in range(r.choice([2, 2, 3, 4]) if self.many else r.choice([1, 1, 2])):
            g.viewport()
        for _ in range(r.choice([1, 2, 2, 3]) if self.many else r.choice([1, 1, 2])):
            g.visual_()
        gen_ops(r, g, r.randrange(3, 16 if tier == "quick" else 50), self.many)
        g.render()
        return {"ops": [op for op in g.ops if not (op[0] == "settrans" and op[2] != "colormap")]}

    def run(self, ctx, plan):
        with scratch() as top:
            os.chdir(top)
            with Node(clock=SimClock()) as node:
                d = Display(ctx, node)
                for op in plan["ops"]:
                    self.step(ctx, d, op)
                self.again(d)
                got = [w.canvas.render(None).copy() for w in d.windows.values()]
            close_figures()
            with Node(clock=SimClock()) as node:
                want = twin(node, plan["ops"], d)
            close_figures()
        same_images(ctx, got, want, "picture-depends-on-history", "final picture")

    def step(self, ctx, d, op):
        if d.apply(op):
            ctx.op(op[0] if op[0] != "visual" else op[2])
            d.compare(f"after {op[:4]}")

    @staticmethod
    def again(d):
        """Everything is rendered once more, at the same size."""
        for ci, w in d.windows.items():
            w.ratio(1)
            w.drain()
            d.redrawn(ci)
        for vi, pi in list(d.shown):
            d.s.visuals[vi]["v"].render(d.s.viewports[pi]["v"])
            d.rendered(vi, pi, [None, None, None])
        d.compare("at the end")


def twin(node, ops, d):
    """Pictures of a fresh node that is told the final state only."""
    s = scene.Scene(node, "mpl")
    final = d.s
    for op in ops:
        if op[0] == "array" and op[1] in final.arrays:
            s.apply(op)
            e, now = s.arrays[op[1]], final.arrays[op[1]]["now"]
            if e["kind"].startswith("buf"):
                e["arr"].set_data(0, memoryview(now.tobytes()))
            else:
                e["arr"][...] = now
            e["now"][...] = now
        elif op[0] == "transform":
            s.apply(op)
    for op in ops:
        if op[0] in ("canvas", "viewport"):
            s.apply(op)
    for ci, w in d.windows.items():
        from ..windows import Window
        t = Window(s.canvases[ci]["c"], w.w, w.h, w.dpi)
        if w.resized:
            t.size(w.w, w.h)
        t.drain()
    kept = {}
    for op in ops:                      # (binding copies a transform as it is then)
        if op[0] == "settrans":
            s.apply(op)
        elif op[0] == "visual" and op[1] in d.visuals and op[1] not in kept:
            kept[op[1]] = True
            s.apply(op)
        elif op[0] == "setvar" and op[1] in s.visuals:
            try:
                s.visuals[op[1]]["v"].set_variable(op[2], s.arg(op[3]))
            except scene.Missing:
                pass
    for (vi, pi), m in d.mats.items():
        s.visuals[vi]["v"].render(s.viewports[pi]["v"], *m)
    return [s.canvases[ci]["c"].render(None).copy() for ci in d.windows]


CHECK = C14()
