"""What viewports have to show: a model of renders and resizes.

The model evaluates positions, matrices and attributes of visuals by itself
from the operations of a program and compares the outcome with what the axes
of the figures hold: which items, where, in which order, how they look.
"""
import copy

import numpy as np

from . import scene
from .sim import Violation
from .windows import INCH, Window

SLOTS = {"Points": ["positions", "sizes", "fill_colors", "line_colors", "line_widths"],
         "Pixels": ["positions", "colors"],
         "Markers": ["positions", "types", "sizes", "axis", "angles", "fill_colors",
                     "line_colors", "line_widths"],
         "Segments": ["positions", "line_caps", "line_colors", "line_widths"],
         "Paths": ["positions", "indices", "line_colors", "line_widths", "line_styles",
                   "line_joins", "line_caps"],
         "Polygons": ["positions", "indices", "fill_colors", "line_colors", "line_widths",
                      "line_styles", "line_joins"]}
EYE = np.eye(4)


class Shown:
    """The items of a visual in a viewport as last rendered."""

    def __init__(self, cls, paths, depth, scale, **attrs):
        self.cls, self.paths, self.depth, self.scale = cls, paths, depth, scale
        self.pixel = None               # size of a pixel in points, if they are pixels
        self.attrs = attrs              # name -> list of acceptable (n, ...) arrays, or None

    def __len__(self):
        return len(self.paths)


class Display:
    """A program executed in a node, and what its windows have to show."""

    def __init__(self, ctx, node):
        self.ctx, self.node = ctx, node
        self.s = scene.Scene(node, "mpl", ctx)
        self.windows = {}
        self.trans = {}                 # slot -> current specification
        self.visuals = {}               # slot -> {"cls", attribute: specification}
        self.views = {}                 # slot -> (canvas slot, axes index)
        self.mats = {}                  # (visual, viewport) -> matrices
        self.shown = {}                 # (visual, viewport) -> Shown, in order of first render
        self.used = set()               # visuals rendered anywhere
        self.unknown = set()            # (visual, viewport) left behind by a failure

    # ---- operations
    def apply(self, op):
        """Execute an operation and update the model; False if it does not apply."""
        kind = op[0]
        if kind in ("size", "event", "ratio", "shot"):
            win = self.windows.get(op[1])
            if win is None:
                return False
            if kind == "size":
                win.size(op[2], op[3])
                self.ctx.fault("late-event" if win.pending < 2 else "coalesced-event")
            elif kind == "ratio":
                win.ratio(op[2])
                self.ctx.fault("density-change")
            elif kind == "shot":
                win.canvas.render(None)
            else:
                if op[2] > 1 or not win.pending:
                    self.ctx.fault("repeated-event")
                win.drain(op[2])
                self.redrawn(op[1])
            return True
        if kind == "render" and not self.complete(op):
            return False
        if kind == "setvar":
            return self.setvar(op)
        if kind == "save":
            self.node.gsp.io.json.dump(self.node.gsp.io.queue("active"))
            return True
        if kind == "axes":
            return False
        if not self.s.apply(op):
            return False
        self.executed(op)
        return True

    def complete(self, op):
        """Is it specified what this render shows?"""
        _, vi, pi, mats = op
        if vi not in self.visuals or pi not in self.views:
            return False
        if (vi, pi) in self.mats or vi not in self.used:
            return True
        return all(m is not None for m in mats)

    def setvar(self, op):
        """['setvar', visual, attribute, specification]"""
        _, vi, name, spec = op
        v = self.visuals.get(vi)
        if v is None or name not in v:
            return False
        try:
            value = self.s.arg(spec)
        except scene.Missing:
            return False
        self.s.visuals[vi]["v"].set_variable(name, value)
        v[name] = self.freeze(spec)
        return True

    def executed(self, op):
        kind = op[0]
        if kind == "canvas":
            self.windows[op[1]] = Window(self.s.canvases[op[1]]["c"], op[2], op[3], op[4])
        elif kind == "viewport":
            self.views[op[1]] = (op[2], sum(1 for c, _ in self.views.values() if c == op[2]))
        elif kind == "transform":
            self.trans[op[1]] = self.freeze(op[2])
        elif kind == "settrans":
            spec = self.trans[op[1]]
            if op[2] == "colormap":
                spec[1] = op[3]
            elif op[2] in ("left", "right"):
                spec[2 if op[2] == "left" else 3] = ["num", op[3]]
        elif kind == "visual":
            self.visuals[op[1]] = {"cls": op[2], **{k: self.freeze(a) for k, a in
                                                   zip(SLOTS[op[2]], op[3:])}}
        elif kind == "render":
            self.rendered(*op[1:])

    def freeze(self, spec):
        """Binding copies a transform as it is, other uses refer to it."""
        if spec[0] == "bind":
            inner = copy.deepcopy(self.trans[spec[1][1]] if spec[1][0] == "trans" else spec[1])
            if inner[0] == "cmap":
                return inner[:4] + [self.freeze(spec[2])]
            return ["bind", inner, self.freeze(spec[2])]
        return copy.deepcopy(spec)

    def rendered(self, vi, pi, mats):
        old = self.mats.get((vi, pi), (EYE, EYE, EYE))
        new = [scene.matrix(m) for m in mats]
        self.mats[vi, pi] = tuple(o if n is None else np.array(n, dtype=float)
                                  for o, n in zip(old, new))
        self.used.add(vi)
        self.unknown.discard((vi, pi))
        self.shown[vi, pi] = self.evaluate(vi, pi)

    def forget(self, vi, pi):
        """A render failed and was not tried again."""
        self.used.add(vi)
        self.mats.pop((vi, pi), None)
        self.shown.pop((vi, pi), None)
        self.unknown.add((vi, pi))

    def redrawn(self, ci):
        for vi, pi in self.shown:
            if self.views[pi][0] == ci:
                self.shown[vi, pi] = self.evaluate(vi, pi)

    # ---- evaluation
    def axes(self, pi):
        ci, i = self.views[pi]
        return self.windows[ci].axes[i]

    def value(self, spec, pi, out):
        kind = spec[0]
        if kind == "arr":
            return np.array(self.s.arrays[spec[1]]["now"], dtype=float)
        if kind in ("num", "int"):
            return float(spec[1])
        if kind in ("color", "tuple"):
            return np.array(spec[1], dtype=float)
        if kind == "trans":
            return self.value(self.trans[spec[1]], pi, out)
        if kind == "out" and "." not in spec[1]:    # an attribute that is output
            return self.value(out[None][spec[1]], pi, out)
        if kind == "out":
            name, key = spec[1].rsplit(".", 1)
            return out[name][:, "xyz".index(key)]
        if kind == "unit":
            return self.measure(1.0, spec[1], pi)
        if kind == "op":
            _, op, a, b = spec
            if op == "*" and "unit" in (a[0], b[0]):
                n, u = (a, b) if b[0] == "unit" else (b, a)
                return self.measure(self.value(n, pi, out), u[1], pi)
            a, b = self.value(a, pi, out), self.value(b, pi, out)
            return a + b if op == "+" else a - b if op == "-" else a * b if op == "*" else a / b
        raise AssertionError(spec)

    def measure(self, value, unit, pi):
        """A length in normalised coordinates of a viewport."""
        v = self.s.viewports[pi]["v"]
        win = self.windows[self.views[pi][0]]
        (x0, x1), (y0, y1), (w, h) = v.xlim, v.ylim, v.size
        px = 1.0 if unit == "px" else INCH[unit] * win.dpi
        scale = np.array([(x1 - x0) / w, (y1 - y0) / h, 0.0]) * px
        value = np.asarray(value, float)
        return value * (scale if value.shape and value.shape[-1] == 3 else scale[0])

    def colors(self, spec, n, pi, out):
        """Acceptable (n, 4) colours; None: no telling."""
        while spec[0] == "trans":
            spec = self.trans[spec[1]]
        if spec[0] == "out" and "." not in spec[1]:
            return self.colors(out[None][spec[1]], n, pi, out)
        if spec[0] != "cmap":
            c = np.asarray(self.value(spec, pi, out), float)
            return [np.broadcast_to(c, (n, 4))]
        import matplotlib
        _, name, vmin, vmax, inner = spec
        v = np.asarray(self.value(inner, pi, out), float).reshape(-1)
        lo = v.min() if vmin is None else vmin
        hi = v.max() if vmax is None else vmax
        if hi - lo < 1e-3 or not np.isfinite([lo, hi]).all():
            return None
        t = (v - lo) / (hi - lo)
        eps = 2e-5 * max(1.0, np.abs(v).max() / (hi - lo))
        cmap = matplotlib.colormaps[name]
        c = [cmap(t + e) for e in (0, -eps, eps)]
        return c if len(v) == n else None

    def scalars(self, spec, n, pi, out):
        v = np.asarray(self.value(spec, pi, out), float).reshape(-1)
        return [np.broadcast_to(v, (n,))]

    @staticmethod
    def project(P, T):
        P = np.asarray(P, float).reshape(-1, 3)
        Q = np.c_[P, np.ones(len(P))] @ T.T
        return Q[:, :3] / Q[:, 3:], Q[:, 3]

    def evaluate(self, vi, pi):
        """-> what the visual has to show in the viewport now."""
        v = self.visuals[vi]
        cls = v["cls"]
        model, view, proj = self.mats[vi, pi]
        with np.errstate(all="ignore"):
            Q, w = self.project(self.value(v["positions"], pi, None), proj @ view @ model)
        if not np.isfinite(Q).all() or np.abs(w).min() < 1e-2:
            return None                 # no telling
        scale = 1e-5 * max(1.0, np.abs(Q).max())
        if cls == "Pixels":
            out = {"screen[positions]": Q}
            shown = Shown(cls, [q[None, :2] for q in Q], Q[:, 2], scale,
                          face=self.colors(v["colors"], len(Q), pi, out),
                          width=[np.zeros(len(Q))])     # a pixel has no outline
            shown.pixel = 72 / self.windows[self.views[pi][0]].dpi
            return shown
        if cls in ("Points", "Markers"):
            n = len(Q)
            S = Q.copy()
            S[:, 2] = 1 - S[:, 2]
            out = {"screen[positions]": S, None: v}
            attrs = {"face": self.colors(v["fill_colors"], n, pi, out),
                     "edge": self.colors(v["line_colors"], n, pi, out),
                     "width": self.scalars(v["line_widths"], n, pi, out),
                     "size": self.scalars(v["sizes"], n, pi, out)}
            if cls == "Markers":
                attrs["outline"] = self.outlines(v, n, pi, self.project(
                    self.value(v["positions"], pi, None), model)[0])
            return Shown(cls, [q[None, :2] for q in Q], Q[:, 2], scale, **attrs)
        if cls == "Segments":
            S = Q.reshape(-1, 2, 3)
            n = len(S)
            return Shown(cls, list(S[..., :2]), S[..., 2].mean(1), scale,
                         edge=self.colors(v["line_colors"], n, pi, None),
                         width=self.scalars(v["line_widths"], n, pi, None))
        items = [Q[i] for i in self.partition(v["indices"], len(Q))]
        n = len(items)
        center = np.array([p.mean(0) for p in items])
        out = {"screen[positions]": Q,
               "screen[paths]" if cls == "Paths" else "screen[polygons]": center}
        attrs = {"edge": self.colors(v["line_colors"], n, pi, out),
                 "width": self.scalars(v["line_widths"], n, pi, out)}
        if cls == "Polygons":
            attrs["face"] = self.colors(v["fill_colors"], n, pi, out)
        return Shown(cls, [p[:, :2] for p in items], center[:, 2], scale, **attrs)

    @staticmethod
    def partition(spec, n):
        """Vertex indices of each item."""
        if spec[0] == "int":
            k = spec[1]
            return [np.arange(i * k, i * k + k) for i in range(n // k)]
        if spec[0] == "sizes":
            ends = np.cumsum(spec[1])
            return [np.arange(e - k, e) for e, k in zip(ends, spec[1])]
        return [np.array(x) for x in spec[1]]

    def outlines(self, v, n, pi, P):
        from matplotlib.markers import MarkerStyle
        from matplotlib.transforms import Affine2D
        M = self.node.gsp.core.Marker
        t = v["types"]
        names = [t[2]] * n if t[0] == "enum" else t[1]
        angles = self.scalars(v["angles"], n, pi, None)[0]
        got = []
        for name, angle in zip(names, angles):
            m = MarkerStyle(M.path(getattr(M, name)))
            got.append(m.get_path().transformed(
                m.get_transform() + Affine2D().rotate_deg(angle)).vertices)
        if v["axis"][0] == "none":
            return [got]
        for i, p in enumerate(P):       # turned towards their axis
            T = np.asarray(self.node.mpl.glm.align(p, (0, 0, 1)), float)
            V = got[i]
            got[i] = (np.c_[V, np.zeros(len(V)), np.ones(len(V))] @ T.T)[:, :2]
        return [got]

    # ---- comparison
    def compare(self, what):
        for pi in self.views:
            axes = self.axes(pi)
            have = [c for c in axes.collections if len(items(c))]
            extra = [a for a in list(axes.lines) + list(axes.patches) + list(axes.texts) +
                     list(axes.images)]
            if extra:
                raise Violation("shown-otherwise", f"{what}: viewport {pi} holds {extra}")
            want = [(vi, sh) for (vi, p), sh in self.shown.items() if p == pi]
            if any(sh is None for _, sh in want):
                continue
            loose = sum(p == pi for _, p in self.unknown)
            if not len(want) <= len(have) <= len(want) + loose:
                raise Violation("not-once", f"{what}: viewport {pi} has {len(have)} collections "
                                f"for {len(want)} visuals")
            left = list(have)
            for k, (vi, sh) in enumerate(want):
                why = []
                order = have[k:k + 1] + have    # usually in order of first render
                for c in order:
                    if c not in left:
                        continue
                    w = differs(c, sh)
                    if w is None:
                        left.remove(c)
                        break
                    why.append(w)
                else:
                    raise Violation("shown-otherwise", f"{what}: visual {vi} ({sh.cls}) in "
                                    f"viewport {pi}: {why[0] if why else 'missing'}")
                self.ctx.state(sh.cls, [np.round(p, 3).tolist() for p in sh.paths])


def items(c):
    """Positions of the items of a collection."""
    if type(c).__name__ == "PathCollection":
        return [np.asarray(o, float)[None] for o in np.asarray(c.get_offsets())]
    return [np.asarray(p.vertices, float) for p in c.get_paths()]


def cycle(values, n):
    values = list(np.atleast_1d(values))
    return [values[i % len(values)] if values else None for i in range(n)]


def differs(c, sh):
    """None if a collection shows these items in an order from far to near."""
    got = items(c)
    n = len(got)
    if n != len(sh):
        return f"{n} items instead of {len(sh)}"
    have = {}
    fc, ec = np.atleast_2d(c.get_facecolors()), np.atleast_2d(c.get_edgecolors())
    have["face"] = [fc[i % len(fc)] if fc.size else None for i in range(n)]
    have["edge"] = [ec[i % len(ec)] if ec.size else None for i in range(n)]
    have["width"] = cycle(c.get_linewidths(), n)
    if type(c).__name__ == "PathCollection":
        have["size"] = cycle(c.get_sizes(), n)
        if sh.pixel is not None:
            for size in have["size"]:
                if not .4 <= np.sqrt(size) / sh.pixel <= 1.1:
                    return f"a pixel is {np.sqrt(size) / sh.pixel:.3g} pixels wide"
        paths = c.get_paths()
        have["outline"] = [paths[i % len(paths)].vertices if paths else None for i in range(n)]
    order = np.argsort(-sh.depth, kind="stable")
    tie = sh.scale * 2
    free = list(order)
    for i in range(n):
        depth = sh.depth[order[i]]
        why = "?"
        for j in free:
            if abs(sh.depth[j] - depth) > tie:
                if sh.depth[j] < depth:
                    break
                continue
            why_j = item_differs(i, j, got, have, sh)
            if why_j is None:
                free.remove(j)
                break
            why = why_j if why == "?" else why
        else:
            return f"item {i} of {n}: {why}"
        if why != "?" and j in free:
            return f"item {i} of {n}: {why}"
    return None


def item_differs(i, j, got, have, sh):
    p, q = got[i], np.asarray(sh.paths[j], float)
    if len(p) == len(q) + 1:            # a closed outline
        p = p[:-1]
    if p.shape != q.shape or np.abs(p - q).max(initial=0) > sh.scale:
        return f"is at {np.round(p, 4).tolist()} instead of {np.round(q, 4).tolist()}"
    for name, want in sh.attrs.items():
        if want is None:
            continue
        g = have[name][i]
        if g is None:
            return f"has no {name}"
        g = np.asarray(g, float)
        for w in want:
            w = np.asarray(w[j], float)
            if g.shape == w.shape and np.allclose(g, w, rtol=1e-4, atol=2e-4):
                break
        else:
            return f"has {name} {np.round(g, 3).tolist()} instead of " \
                   f"{np.round(np.asarray(want[0][j], float), 3).tolist()}"
    return None


def look(c):
    """All of what a collection shows, exactly."""
    parts = [type(c).__name__]
    parts += [tuple(map(tuple, x.tolist())) for x in items(c)]
    for name in ("facecolors", "edgecolors"):
        parts.append((name, np.atleast_2d(getattr(c, "get_" + name)()).tolist()))
    parts.append(("widths", np.atleast_1d(c.get_linewidths()).tolist()))
    if hasattr(c, "get_sizes"):
        parts.append(("sizes", np.atleast_1d(c.get_sizes()).tolist()))
        if type(c).__name__ == "PathCollection":
            parts.append(("outlines", [p.vertices.tolist() for p in c.get_paths()]))
    parts.append(("dashes", repr(c.get_linestyles())))
    parts.append(("visible", c.get_visible(), c.get_alpha()))
    return parts
