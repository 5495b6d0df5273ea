"""C15: viewports are independent of one another."""
import os

import numpy as np

from .. import scene
from ..display import Display, look
from ..node import Node, SimClock, close_figures
from ..scratch import scratch
from ..sim import Violation
from .c14 import C14, gen_ops


class C15(C14):
    id = "C15"
    quick, thorough = 1100, 45000
    many = True
    rule = ("A run makes up to three canvases with up to six viewports and visuals rendered in "
            "several of them with different matrices, amid changes of data, late, coalesced "
            "and repeated resize events of any canvas, density changes, exports. After each "
            "operation all viewports are compared with a model; those it does not concern "
            "have to be exactly what they were. A twin then runs the same program with only "
            "the renders of one visual in one viewport: what it holds has to be found, "
            "exactly, where everything else was rendered as well. In some runs the canvas is "
            "drawn with and without what a viewport shows: pixels outside it stay the same.")
    state_measure = "class and projected items of a shown visual"

    def plan(self, r, tier):
        g = scene.Gen(r, plain_writes=True)
        for _ in range(r.choice([1, 2, 2, 3])):
            g.canvas()
        for _ in range(r.choice([2, 3, 3, 4])):
            g.viewport()
        for _ in range(r.choice([1, 1, 2, 3])):
            g.visual_()
        # each visual in several viewports, mostly with matrices
        for _ in range(r.choice([2, 3, 4])):
            g.render([scene.gen_matrix(r) or ["e", "f8"] for _ in range(3)]
                     if r.random() < .7 else None)
        gen_ops(r, g, r.randrange(3, 14 if tier == "quick" else 45), True)
        return {"ops": [op for op in g.ops if not (op[0] == "settrans" and op[2] != "colormap")],
                "pick": r.randrange(10**6)}

    def run(self, ctx, plan):
        with scratch() as top:
            os.chdir(top)
            done = []
            with Node(clock=SimClock()) as node:
                d = Display(ctx, node)
                for op in plan["ops"]:
                    before = self.frozen(d, op)
                    if not d.apply(op):
                        continue
                    done.append(op)
                    ctx.op(op[0] if op[0] != "visual" else op[2])
                    what = f"after {op[:4]}"
                    for key, old in before.items():
                        new = self.held(d, *key)
                        if new != old:
                            raise Violation("disturbed", f"{what}: viewport {key[0]}: "
                                            f"{changes(old, new)}")
                    d.compare(what)
                pairs = sorted(d.shown)
                got = {pi: [look(c) for c in d.axes(pi).collections] for pi in d.views}
                if pairs and plan["pick"] % 3 == 0:
                    self.confined(ctx, d, pairs[plan["pick"] % len(pairs)][1])
            close_figures()
            if not pairs:
                return
            vi, pi = pairs[plan["pick"] % len(pairs)]
            with Node(clock=SimClock()) as node:
                t = Display(ctx, node)
                for op in done:
                    if op[0] == "render" and (op[1], op[2]) != (vi, pi):
                        continue
                    t.apply(op)
                want = [look(c) for c in t.axes(pi).collections]
            close_figures()
        for w in want:
            if w not in got[pi]:
                raise Violation("disturbed-by-others", f"visual {vi} in viewport {pi} alone shows "
                                + str(min((changes(w, g) for g in got[pi]), key=len,
                                          default="nothing")))

    @staticmethod
    def confined(ctx, d, pi):
        """What a viewport shows reaches no pixel outside of it."""
        axes = d.axes(pi)
        figure = axes.figure

        def drawn():
            figure.canvas.draw()
            return np.array(figure.canvas.buffer_rgba())
        shown = drawn()
        hidden = [c for c in axes.collections if c.get_visible()]
        for c in hidden:
            c.set_visible(False)
        plain = drawn()
        for c in hidden:
            c.set_visible(True)
        ctx.op("confined")
        box = axes.get_window_extent()
        h = shown.shape[0]
        rows, cols = np.nonzero((shown != plain).any(axis=2))
        ctx.op("painted" if len(rows) else "nothing-painted")
        x, y = cols + .5, h - rows - .5
        out = ((x < box.x0 - 1.5) | (x > box.x1 + 1.5) | (y < box.y0 - 1.5) | (y > box.y1 + 1.5))
        if out.any():
            k = int(np.argmax(out))
            raise Violation("outside", f"viewport {pi} paints pixel {int(cols[k])},{int(rows[k])} "
                            f"outside of {[round(v, 1) for v in box.bounds]}")

    @staticmethod
    def held(d, pi, none=None):
        axes = d.axes(pi)
        return [look(c) for c in axes.collections] + [
            ("axes", tuple(axes.get_position().bounds), axes.get_xlim(), axes.get_ylim())]

    def frozen(self, d, op):
        """What an operation must not change."""
        kind = op[0]
        views = set(d.views)
        if kind == "render":
            if op[2] in views:
                # visuals that share the viewport stay as well: checked by the model
                views.discard(op[2])
        elif kind == "event":
            views = {p for p in views if d.views[p][0] != op[1]}
        elif kind in ("shot", "export", "ratio", "size"):
            # (the window's own viewports may react at once)
            views = {p for p in views if d.views[p][0] != op[1]}
        return {(p, None): self.held(d, p) for p in views}


def changes(old, new):
    for a, b in zip(old, new):
        if a != b:
            return f"{str(a)[:120]} became {str(b)[:120]}"
    return f"{len(old)} parts became {len(new)}"


CHECK = C15()
