"""C17: a snapshot has the current pixel size, and failed exports raise."""
import gzip
import io
import os

import numpy as np

from .. import scene
from ..display import Display
from ..node import Node, SimClock, close_figures
from ..observe import CallFaults, reaches
from ..scratch import scratch
from ..sim import Check, SimFault, Violation
from ..simfs import SimFS
from .c07 import same_images
from .c14 import gen_ops

ERRORS = {"error": lambda: SimFault("injected"), "memory": lambda: MemoryError("injected"),
          "os": lambda: OSError(28, "injected"), "value": lambda: ValueError("injected"),
          "interrupt": lambda: KeyboardInterrupt("injected")}
FORMATS = ["png", "png", "png", "rgba", "raw", "pdf", "svg", "jpg", "jpeg", "tif", "webp", "eps",
           "svgz"]
FAULTS = ["eio", "enospc", "eacces", "emfile", "edquot", "short", "short"]


class Stuck:
    """An artist that cannot be drawn for once (or from then on)."""

    def __init__(self, artist, make):
        self.artist, self.make = artist, make
        self.error = None

    def __enter__(self):
        def draw(*a, **k):
            if self.error is None:
                self.error = self.make()
            raise self.error
        self.artist.draw = draw
        return self

    def __exit__(self, *exc):
        del self.artist.draw
        return False


class C17(Check):
    id = "C17"
    quick, thorough = 900, 35000
    rule = ("A run makes canvases of any size and resolution with viewports and visuals, "
            "resizes them (late, coalesced, repeated events, densities), renders and changes "
            "data, and takes snapshots and exports (PNG, JPEG, TIFF, WebP, raw, PDF, EPS, SVG) at any time. Exports "
            "go through a simulated file system with errors, short writes and full disks; "
            "artists, memory and library calls fail while drawing. Every snapshot has to have "
            "the size the window has then, an export the pixels of the snapshot, a failed one "
            "has to raise and the next snapshot to be the one before. A twin that takes only "
            "one of the snapshots has to see the same in it.")
    state_measure = "size of a canvas and contents of its snapshot; place of a failure"
    stub = "clock; the window system; system calls on the exported files (fault injection)"

    def plan(self, r, tier):
        g = scene.Gen(r, plain_writes=True)

        def size():
            c = r.random()
            return r.randrange(1, 12) if c < .1 else r.randrange(12, 90) if c < .93 else \
                r.randrange(90, 300)

        def canvas():
            dpi = r.choice([50, 72, 96, 100, 33.3, 150, 254, 59.7])
            both = [size(), size()]
            if r.random() < .2:
                both = scene.gen_extent(r, [max(n, 9) for n in both], dpi)
            g.ops.append(["canvas", g.n_canvas, *both, dpi])
            g.n_canvas += 1
        canvas()
        for _ in range(r.choice([0, 0, 1])):
            canvas()
        for _ in range(r.choice([1, 1, 2, 3])):
            g.viewport()
        for _ in range(r.choice([0, 1, 1, 2])):
            g.visual_()
        if g.n_vis:
            g.render()
        for _ in range(r.randrange(2, 9 if tier == "quick" else 30)):
            ci = r.randrange(g.n_canvas)
            c = r.random()
            if c < .25:
                g.ops.append(["size", ci, size(), size()])
                if r.random() < .6:
                    g.ops.append(["event", ci, r.choice([1, 1, 1, 2])])
            elif c < .3:
                g.ops.append(["ratio", ci, r.choice([1, 2, 1.5, 3])])
            elif c < .5 and g.n_vis:
                gen_ops(r, g, 1, True)
            elif c < .6:
                g.ops.append(["shot", ci])
            else:
                how = r.choice(["io", "io", "io", "call", "artist", "name", "none"])
                fmt = r.choice(FORMATS)
                k = r.randrange(12) if how == "call" else r.randrange(10**6)
                faults = [[r.randrange(r.choice([2, 5, 9])), r.choice(FAULTS)]
                          for _ in range(r.choice([1, 1, 2]))]
                g.ops.append(["try", ci, how, fmt, k, r.choice(sorted(ERRORS)), faults,
                              r.random() < .4, r.random() < .3])
        for ci in range(g.n_canvas):
            g.ops.append(["event", ci, 1])
            g.ops.append(["shot", ci])
        return {"ops": [op for op in g.ops if not (op[0] == "settrans" and op[2] != "colormap")],
                "pick": r.randrange(10**6)}

    def run(self, ctx, plan):
        with scratch() as top:
            os.chdir(top)
            done, shots = [], []
            with Node(clock=SimClock()) as node:
                d = Display(ctx, node)
                for op in plan["ops"]:
                    if op[0] == "shot":
                        if op[1] in d.windows:
                            shots.append((len(done), op[1], self.shot(ctx, d, op[1])))
                            ctx.op("shot")
                    elif op[0] == "try":
                        if op[1] in d.windows:
                            self.attempt(ctx, d, top, *op[1:])
                    elif op[0] == "export":
                        pass
                    elif d.apply(op):
                        done.append(op)
                        ctx.op(op[0])
                        ctx.fault("resize-under-way") if op[0] == "size" else None
                final = {ci: self.shot(ctx, d, ci) for ci in d.windows}
            close_figures()
            if not shots:
                return
            n, at, seen = shots[plan["pick"] % len(shots)]
            with Node(clock=SimClock()) as node:
                t = Display(ctx, node)
                for op in done[:n]:
                    t.apply(op)
                want = t.windows[at].canvas.render(None).copy()
                same_images(ctx, [seen], [want], "snapshot-differs",
                            f"a snapshot after {n} operations")
                for op in done[n:]:
                    t.apply(op)
                same_images(ctx, list(final.values()),
                            [w.canvas.render(None) for w in t.windows.values()],
                            "snapshot-differs", "the last snapshots")
            close_figures()

    @staticmethod
    def shot(ctx, d, ci):
        win = d.windows[ci]
        im = win.canvas.render(None)
        if not isinstance(im, np.ndarray) or im.dtype != np.uint8 or \
                im.ndim != 3 or im.shape[2] != 4 or not win.has_size(*im.shape[1::-1]):
            raise Violation("wrong-size", f"snapshot of canvas {ci} ({win.w}x{win.h} at "
                            f"{win.dpi} dpi) is {im.dtype}{im.shape}")
        ctx.state(win.w, win.h, im.tobytes())
        return im.copy()

    def attempt(self, ctx, d, top, ci, how, fmt, k, err, faults, sticky, snapshot):
        """An export (or a snapshot) is tried while something fails."""
        win = d.windows[ci]
        figure = win.figure
        before = self.shot(ctx, d, ci)
        size = tuple(figure.get_size_inches()), figure.dpi, tuple(win.canvas.size)
        target = os.path.join(top, "export." + fmt)
        if how == "name":
            os.makedirs(os.path.join(top, "folder.png"), exist_ok=True)
            target = os.path.join(top, ["no folder/x." + fmt, "export.nonsense",
                                        "folder.png"][k % 3])
        if snapshot and how in ("call", "artist"):
            target = None
        error = injected = None
        fired = False
        try:
            if how == "io":
                fs = SimFS(ctx, top, {a: b for a, b in faults}, sticky, ("export." + fmt,))
                with fs:
                    win.canvas.render(target)
                fired = any(kind != "short" for kind, _ in fs.hit)
            elif how == "call":
                cf = CallFaults(k, ERRORS[err])
                try:
                    with cf:
                        win.canvas.render(target)
                finally:
                    fired, injected = cf.fired, cf.error
            elif how == "artist":
                artists = [a for x in figure.axes for a in [x] + list(x.collections) + [x.patch]]
                if not artists:
                    return
                with Stuck(artists[k % len(artists)], ERRORS[err]) as st:
                    try:
                        win.canvas.render(target)
                    finally:
                        fired, injected = st.error is not None, st.error
            else:
                win.canvas.render(target)
        except Exception as e:
            error = e
        except KeyboardInterrupt as e:
            if injected is None:
                raise
            error = e
        if how == "io":
            fired = any(kind != "short" for kind, _ in fs.hit)
        ctx.op("try:" + how, type(error).__name__ if error else "ok")
        what = f"an export as {fmt}" if target else "a snapshot"
        if fired:
            ctx.fault("failing-" + how)
            ctx.state(how, fmt, str(fired) if how == "call" else "")
        if error is None:
            if fired or how == "name":
                raise Violation("error-swallowed", f"{what} that fails by {how} "
                                f"({fs.hit if how == 'io' else fired}) returns")
            if target:
                self.complete(ctx, target, fmt, before, what)
        elif how == "none" or how in ("io", "call", "artist") and not fired:
            raise Violation("export-fails", f"{what}: {type(error).__name__}: {error}")
        elif injected is not None and not reaches(error, injected):
            raise Violation("other-error", f"{what}: {type(error).__name__}: {error}")
        if (tuple(figure.get_size_inches()), figure.dpi, tuple(win.canvas.size)) != size:
            raise Violation("canvas-changed", f"{what} makes the canvas "
                            f"{figure.get_size_inches()} at {figure.dpi} instead of {size}")
        after = self.shot(ctx, d, ci)
        same_images(ctx, [after], [before], "snapshot-changed",
                    what + (" that failed" if error else ""))

    @staticmethod
    def complete(ctx, path, fmt, image, what):
        """The file holds all of the image."""
        with open(path, "rb") as f:
            data = f.read()
        if fmt in ("raw", "rgba"):
            ctx.check(data == image.tobytes(), "incomplete-file", f"{what} of {len(data)} bytes "
                      f"for {image.nbytes}")
        elif fmt in ("png", "jpg", "jpeg", "tif", "webp"):
            from PIL import Image
            try:
                with Image.open(io.BytesIO(data)) as im:
                    got = np.array(im.convert("RGBA"))
            except Exception as e:
                raise Violation("incomplete-file", f"{what}: {e}")
            ctx.check(got.shape == image.shape, "wrong-size", f"{what} is {got.shape} instead of "
                      f"{image.shape}")
            if fmt in ("jpg", "jpeg", "webp"):      # (lossy)
                return
            solid = image[..., 3] > 0
            ctx.check((got[solid] == image[solid]).all() and (got[~solid][..., 3] == 0).all(),
                      "file-differs", f"{what} differs from the snapshot")
        else:
            if fmt == "svgz":
                data = gzip.decompress(data)
            end = {"pdf": b"%%EOF", "eps": b"showpage"}.get(fmt, b"</svg>")
            ctx.check(data.rstrip().endswith(end), "incomplete-file", what)


CHECK = C17()
