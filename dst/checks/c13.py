"""C13: viewports keep their specified place and size through any resize."""
import os

import numpy as np

from .. import scene
from ..node import Node, SimClock
from ..observe import CallFaults
from ..scratch import scratch
from ..sim import Check, SimFault, Violation
from ..windows import Window

INCH = {"in": 1.0, "pt": 1 / 72, "cm": 1 / 2.54, "mm": 1 / 25.4, "m": 100 / 2.54,
        "km": 100000 / 2.54}
ERRORS = {"memory": lambda: MemoryError("no memory"), "error": lambda: SimFault("failure"),
          "value": lambda: ValueError("failure"), "os": lambda: OSError(5, "failure")}


def place(spec, size, dpi, shared):
    """Fraction of the canvas that a coordinate denotes."""
    kind = spec[0]
    if kind == "int":
        return spec[1] / size
    return value(spec, size, dpi, shared)


def value(spec, size, dpi, shared):
    kind = spec[0]
    if kind in ("num", "int"):          # inside an expression a number is a number
        return float(spec[1])
    if kind == "trans":
        return value(shared[spec[1]], size, dpi, shared)
    if kind == "unit":
        return (1 if spec[1] == "px" else INCH[spec[1]] * dpi) / size
    _, op, a, b = spec
    if op == "*" and "unit" in (a[0], b[0]):
        n, unit = (a, b) if b[0] == "unit" else (b, a)
        return value(n, size, dpi, shared) * value(unit, size, dpi, shared)
    a, b = value(a, size, dpi, shared), value(b, size, dpi, shared)
    return a + b if op == "+" else a - b if op == "-" else a * b if op == "*" else a / b


def gen_coord(r, base, g):
    """A coordinate of a viewport around a fraction of a canvas."""
    c = r.random()
    if c < .2:
        return ["int", r.choice([0, 1, 5, 10, 20, 33, int(base * 60)]) if base < .5 else
                r.choice([1, 10, 25, 40, int(base * 60)])]
    if c < .45:
        return ["num", r.choice([0.0, .1, .25, .5, round(base * r.random(), 3)]) if base < .5
                else r.choice([1.0, .5, .05, round(.05 + base * r.random(), 3)])]

    def measure():
        u = r.choice(["px", "px", "pt", "in", "cm", "mm", "m", "km"])
        n = {"px": 12, "pt": 9, "in": .15, "cm": .4, "mm": 4, "m": .004, "km": 4e-6}[u]
        n = ["num", float(f"{n * r.uniform(.2, 2):.3g}")]
        if u in ("px", "pt", "mm") and r.random() < .4:
            n = ["int", r.randrange(1, 20)]
        return ["op", "*"] + (([n, ["unit", u]]) if r.random() < .6 else [["unit", u], n])

    def expr(depth):
        c = r.random()
        if depth <= 0 or c < .3:
            return measure()
        if c < .45:
            return ["op", "+", ["num", round(base * r.random(), 2)], measure()]
        if c < .6:
            return ["op", "-", ["num", round(base, 2)], expr(depth - 1)]
        if c < .7:
            return ["op", "-", ["int", 1], measure()]
        if c < .85:
            return ["op", r.choice("+-"), expr(depth - 1), measure()]
        e = expr(depth - 1)
        if "unit" in (e[2][0], e[3][0]):        # (a measure is scaled once)
            e = ["op", "+", ["num", round(base * r.random(), 2)], e]
        return ["op", r.choice("*/"), e, ["num", r.choice([2.0, .5, 1.5])]]

    e = expr(r.choice([0, 0, 1, 2, 3]))
    if r.random() < .25:
        return ["trans", g.shared(("expr", base > .4), e)]
    return e


class C13(Check):
    id = "C13"
    quick, thorough = 1500, 60000
    rule = ("A run makes canvases of any size and resolution and viewports with coordinates in "
            "pixels, fractions and nested measure expressions (shared or not), some while "
            "resizes are under way. Windows are resized: events come late, coalesced, "
            "repeated, after a move to a screen of another density, or the processing of one "
            "fails half-way and the next one has to put things right. Renders, snapshots "
            "and zooms are interleaved. After each delivered event place, size and limits "
            "of each viewport are compared with a model evaluating the specification; "
            "snapshots with a painted one.")
    state_measure = "size of canvas and place of a viewport after an event"
    stub = "clock; the window system (sizes, densities and events come from the simulator)"

    def plan(self, r, tier):
        g = scene.Gen(r)
        pure = r.random() < .5          # nothing but viewports: snapshots can be predicted

        def resized():
            return any(op[0] == "size" for op in g.ops)

        def viewport():
            if r.random() < .15:
                box = [["int", 0], ["num", 0.0], ["num", 1.0], ["num", 1.0]]
            else:
                box = [gen_coord(r, .3, g), gen_coord(r, .3, g), gen_coord(r, .9, g),
                       gen_coord(r, .9, g)]
                for k in (2, 3):        # the whole canvas, as it was made
                    if r.random() < .06 and not resized():
                        box[k] = r.choice([["none"], ["int", 0], ["num", 0.0]])
                if r.random() < .2 and box[2][0] != "none":     # the same expression on both axes
                    box[3] = box[2]
            for k in (2, 3):            # (0 stands for the whole canvas)
                if box[k][0] in ("int", "num") and not box[k][1] and resized():
                    box[k] = ["num", .5]
            color = gen_opaque(r)
            g.ops.append(["viewport", g.n_view, r.randrange(g.n_canvas)] + box + [color])
            g.n_view += 1

        def size():
            c = r.random()
            if c < .1:
                return r.randrange(1, 12)
            if c < .9:
                return r.randrange(12, 200)
            return r.choice([333, 640, 1000])

        def canvas():
            dpi = r.choice([50, 72, 96, 100, 33.3, 150, 254])
            both = [size(), size()]
            if r.random() < .2:
                both = scene.gen_extent(r, [max(n, 9) for n in both], dpi)
            g.ops.append(["canvas", g.n_canvas, *both, dpi])
            g.n_canvas += 1

        canvas()
        for _ in range(r.choice([0, 0, 1])):
            canvas()
        for _ in range(r.choice([1, 1, 2, 3])):
            viewport()
        if not pure:
            g.visual_("Points" if r.random() < .5 else None)
        for _ in range(r.randrange(2, 14 if tier == "quick" else 40)):
            c = r.random()
            ci = r.randrange(g.n_canvas)
            if c < .3:
                g.ops.append(["size", ci, size(), size()])
                if r.random() < .6:
                    g.ops.append(["event", ci, r.choice([1, 1, 1, 2])])
            elif c < .5:
                g.ops.append(["event", ci, r.choice([1, 1, 1, 2])])
            elif c < .6:
                viewport()
            elif c < .65:
                g.ops.append(["zoom", r.randrange(g.n_view),
                              r.choice([.5, 1.0, 2.0, round(r.uniform(.1, 5), 3)])])
            elif c < .72:
                g.ops.append(["failed", ci, r.randrange(60), r.choice(sorted(ERRORS))])
            elif c < .77:
                g.ops.append(["ratio", ci, r.choice([1, 2, 1.5, 3])])
            elif c < .9 and not pure:
                g.render()
            elif c < .93:
                g.ops.append(["export", ci, "out.png"])
            else:
                g.ops.append(["shot", ci])
        for ci in range(g.n_canvas):
            g.ops.append(["event", ci, 1])
            g.ops.append(["shot", ci])
        return {"ops": g.ops}

    def run(self, ctx, plan):
        with scratch() as top:
            os.chdir(top)
            with Node(clock=SimClock()) as node:
                self.drive(ctx, node, plan["ops"])

    def drive(self, ctx, node, ops):
        s = scene.Scene(node, "mpl", ctx)
        windows, views = {}, {}         # views: slot -> [canvas, axes index, model]
        shared, seen = {}, {}
        drawn = set()
        for op in ops:
            kind, outcome = op[0], "ok"
            if kind in ("size", "event", "failed", "ratio", "shot"):
                if op[1] not in windows:
                    continue
                win = windows[op[1]]
            if kind == "size":
                win.size(op[2], op[3])
                for v in views.values():
                    if v["canvas"] == op[1]:
                        v["stale"] = True
                ctx.fault("late-event" if win.pending < 2 else "coalesced-event")
            elif kind == "event":
                if op[2] > 1 or not win.pending:
                    ctx.fault("repeated-event")
                win.drain(op[2])
                self.delivered(views, op[1])
            elif kind == "failed":
                # the processing of an event fails; sooner or later the next one comes
                faults = CallFaults(op[2], ERRORS[op[3]])
                try:
                    with faults:
                        win.deliver()
                except BaseException as e:
                    if e is not faults.error and faults.error is None:
                        raise
                if faults.fired:
                    ctx.fault("failing-event")
                win.drain()
                self.delivered(views, op[1])
            elif kind == "ratio":
                win.ratio(op[2])
                ctx.fault("density-change")
            elif kind == "zoom":
                if op[1] not in views:
                    continue
                v = views[op[1]]
                windows[v["canvas"]].axes[v["axes"]].zoom = op[2]
                v["next"] = op[2]
            elif kind == "shot":
                self.shot(s, windows, views, op[1], shared, seen, drawn)
            else:
                if not s.apply(op):
                    continue
                if kind == "canvas":
                    windows[op[1]] = Window(s.canvases[op[1]]["c"], op[2], op[3], op[4])
                    seen[op[1]] = 0
                elif kind == "viewport":
                    views[op[1]] = {"canvas": op[2], "axes": seen[op[2]],
                                    "spec": self.spec(op[3:7], windows[op[2]]),
                                    "color": op[7][1], "zoom": 1.0, "next": 1.0,
                                    "stale": False, "v": s.viewports[op[1]]["v"]}
                    seen[op[2]] += 1
                elif kind == "transform":
                    shared[op[1]] = op[2]
                elif kind == "render":
                    drawn.add(op[2])
            ctx.op(kind, outcome)
            self.compare(ctx, windows, views, shared, f"after {op[:4]}")

    @staticmethod
    def spec(box, win):
        """Width and height that are not given are those of the canvas, in whole pixels."""
        for k, size in ((2, win.w), (3, win.h)):
            if box[k][0] == "none" or (box[k][0] in ("int", "num") and not box[k][1]):
                box = box[:k] + [["int", int(size + 1e-6)]] + box[k + 1:]
        return box

    @staticmethod
    def delivered(views, ci):
        for v in views.values():
            if v["canvas"] == ci:
                v["stale"] = False
                v["zoom"] = v["next"]

    @staticmethod
    def box(v, win, shared):
        return [place(c, size, win.dpi, shared)
                for c, size in zip(v["spec"], (win.w, win.h, win.w, win.h))]

    def compare(self, ctx, windows, views, shared, what):
        for ci, win in windows.items():
            size = np.asarray(win.canvas.size, float)
            if not np.allclose(size, (win.w, win.h), rtol=1e-9, atol=1e-6):
                raise Violation("canvas-size", f"{what}: canvas {ci} says it is {size.tolist()} "
                                f"instead of {[win.w, win.h]}")
        for slot, v in views.items():
            win = windows[v["canvas"]]
            if v["stale"]:
                continue
            x, y, w, h = want = self.box(v, win, shared)
            axes = win.axes[v["axes"]]
            got = axes.get_position().bounds
            if not (w > 1e-9 and h > 1e-9):
                continue                # nothing of it to be seen
            if not np.allclose(got, want, rtol=1e-6, atol=1e-9):
                raise Violation("wrong-place", f"{what}: viewport {slot} ({v['spec']}) is at "
                                f"{[round(float(g), 5) for g in got]} instead of "
                                f"{[round(g, 5) for g in want]} of {win.w}x{win.h}")
            W, H = w * win.w, h * win.h
            got = np.asarray(v["v"].size, float)
            if not np.allclose(got, (W, H), rtol=1e-6, atol=1e-6):
                raise Violation("wrong-size", f"{what}: viewport {slot} says it is "
                                f"{got.tolist()} instead of {[W, H]} pixels")
            z = v["zoom"]
            lim = np.array([z * max(1, W / H), z * max(1, H / W)])
            for a, b in ((v["v"].xlim, v["v"].ylim), (axes.get_xlim(), axes.get_ylim())):
                got = np.array([a, b], float)
                if not np.allclose(got, np.stack([-lim, lim], 1), rtol=1e-5, atol=1e-9):
                    raise Violation("wrong-limits", f"{what}: limits of viewport {slot} "
                                    f"({W:.2f}x{H:.2f}) are {got.tolist()} instead of "
                                    f"+-{lim.tolist()}")
            ctx.state(win.w, win.h, [round(float(g), 3) for g in want])

    def shot(self, s, windows, views, ci, shared, seen, drawn):
        """What is seen is the viewports, one above the other."""
        im = s.canvases[ci]["c"].render(None)
        win = windows[ci]
        mine = [(k, v) for k, v in views.items() if v["canvas"] == ci]
        h, w = im.shape[:2]
        if any(v["stale"] for _, v in mine) or any(k in drawn for k, _ in mine) or \
                (w, h) != (win.w, win.h):
            return
        want = np.zeros((h, w, 4), int)
        sure = np.ones((h, w), bool)
        X, Y = np.arange(w) + .5, h - np.arange(h) - .5
        for _, v in sorted(mine, key=lambda kv: kv[1]["axes"]):
            x, y, dx, dy = self.box(v, win, shared)
            x0, y0, x1, y1 = x * w, y * h, (x + dx) * w, (y + dy) * h
            if not (dx > 0 and dy > 0):
                return
            out = (X[None] > x0 - 1.01) & (X[None] < x1 + 1.01) & \
                (Y[:, None] > y0 - 1.01) & (Y[:, None] < y1 + 1.01)
            inn = (X[None] > x0 + 1.01) & (X[None] < x1 - 1.01) & \
                (Y[:, None] > y0 + 1.01) & (Y[:, None] < y1 - 1.01)
            want[inn] = np.round(np.array(v["color"][:3] + [1.0]) * 255).astype(int)
            sure[out] = False
            sure[inn] = True
        im = np.where(im[..., 3:] == 0, 0, im)         # (transparent in any colour)
        bad = sure & (np.abs(im.astype(int) - want).max(-1) > 1)
        if bad.any():
            i, j = np.argwhere(bad)[0]
            raise Violation("wrong-picture", f"{int(bad.sum())} pixels of canvas {ci}, e.g. "
                            f"({j},{i}) is {im[i, j].tolist()} instead of {want[i, j].tolist()}")


def gen_opaque(r):
    return ["color", [round(r.random(), 2) for _ in range(3)] + [1.0], "tuple"]


CHECK = C13()
