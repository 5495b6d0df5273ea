"""C16: a failed render leaves the session usable."""
import json
import os

import numpy as np

from .. import scene
from ..display import SLOTS, Display
from ..node import Node, SimClock, close_figures
from ..observe import CallFaults, reaches
from ..scratch import scratch
from ..session import norm_method
from ..sim import SimFault, Violation
from .c07 import same_images
from .c14 import C14, gen_ops
from .c15 import C15, changes

ERRORS = {"error": lambda: SimFault("injected"), "memory": lambda: MemoryError("injected"),
          "os": lambda: OSError(5, "injected"), "value": lambda: ValueError("injected"),
          "key": lambda: KeyError("injected"), "index": lambda: IndexError("injected"),
          "type": lambda: TypeError("injected"), "attribute": lambda: AttributeError("injected"),
          "interrupt": lambda: KeyboardInterrupt("injected"),
          "generator": lambda: StopIteration("injected")}
PARTS = ["call:transform", "call:transform", "call:visual", "call:core", "call:glm", "call:io"]
BAD = ["name", "shape", "text", "map", "map", "matrix"]


def log(node):
    """The recorded commands, objects renamed by first appearance."""
    doc = json.loads(node.gsp.io.json.dump(node.gsp.io.queue("active")))
    names = {}
    out = []
    filled = set()
    for c in doc["commands"]:
        if c["method"].endswith("set_data") and c["parameters"]["id"] not in filled:
            # what a new array holds before it is filled is anything
            filled.add(c["parameters"]["id"])
            c["parameters"]["data"] = "initial"
        p = [(k, names.setdefault(v, len(names)) if k == "id" or k.endswith("(id)") else v)
             for k, v in c["parameters"].items()]
        out.append((norm_method(c["method"]), p))
    return out


class C16(C14):
    id = "C16"
    quick, thorough = 1000, 40000
    rule = ("A run renders visuals in several viewports as in C14 and C15 and lets renders and "
            "the redraws of resizes fail: at any library call made by the code (seeded), with "
            "ordinary errors, memory errors and interrupts, or because a colour map, an "
            "attribute or a matrix is wrong; repeatedly, then retries or goes on. The error "
            "has to reach the caller, other viewports have to be exactly as before and "
            "everything shown as the model has it. A twin in which the failing calls were "
            "never made has to record the same log and show the same pictures.")
    state_measure = "class and projected items of a shown visual; place of a failure"

    def plan(self, r, tier):
        g = scene.Gen(r)
        for _ in range(r.choice([1, 1, 2])):
            g.canvas()
        for _ in range(r.choice([1, 2, 3])):
            g.viewport()
        for _ in range(r.choice([1, 1, 2, 3])):
            g.visual_()
        for _ in range(r.choice([0, 1, 2])):
            g.render()
        for _ in range(r.choice([1, 2, 3] if tier == "quick" else [1, 3, 6, 9])):
            gen_ops(r, g, r.choice([0, 1, 2, 4]), True)
            k = r.choice([r.randrange(12), r.randrange(40), r.randrange(150)])
            err = r.choice(sorted(ERRORS) + ["interrupt"] * 2)
            c = r.random()
            if c < .15:
                g.ops.append(["badevent", r.randrange(g.n_canvas), r.randrange(12, 90),
                              r.randrange(12, 90), k, r.choice(BAD[:-1])])
            elif c < .35:
                g.ops.append(["failevent", r.randrange(g.n_canvas), r.randrange(12, 90),
                              r.randrange(12, 90), k * 2, err])
            else:
                how = "call" if r.random() < .4 else r.choice(BAD) if r.random() < .6 else \
                    r.choice(PARTS)
                if how in PARTS:
                    k = r.choice([r.randrange(6), r.randrange(20)])
                g.ops.append(["fail", r.randrange(g.n_vis), r.randrange(g.n_view),
                              [m and [m[0], m[1].replace("glm", "f4"), *m[2:]]
                               for m in scene.gen_mats(r)], how, k, err, r.choice([1, 1, 2, 3]),
                              r.random() < .75])
            for _ in range(r.choice([0, 1, 2])):
                r.choice([g.write, g.visual_, g.write, g.render])()
        g.render()
        return {"ops": [op for op in g.ops if not (op[0] == "settrans" and op[2] != "colormap")]}

    def run(self, ctx, plan):
        with scratch() as top:
            os.chdir(top)
            done = []
            self.reordered = set()
            with Node(clock=SimClock()) as node:
                d = Display(ctx, node)
                for op in plan["ops"]:
                    if op[0] == "fail":
                        self.fail(ctx, d, op, done)
                    elif op[0] == "badevent":
                        self.badevent(ctx, d, op, done)
                    elif op[0] == "failevent":
                        self.failevent(ctx, d, op, done)
                    elif d.apply(op):
                        done.append(op)
                        ctx.op(op[0] if op[0] != "visual" else op[2])
                    d.compare(f"after {op[:4]}")
                for ci, w in d.windows.items():
                    done += [["ratio", ci, 1], ["event", ci, 1]]
                    d.apply(done[-2])
                    d.apply(done[-1])
                pairs = sorted(set(d.shown) | d.unknown)
                for vi, pi in pairs:
                    if (vi, pi) in d.unknown:
                        done.append(["render", vi, pi, [["e", "f8"]] * 3])
                    else:
                        done.append(["render", vi, pi, [None, None, None]])
                    d.apply(done[-1])
                d.compare("at the end")
                got = [w.canvas.render(None).copy() for w in d.windows.values()]
                cis = list(d.windows)
                mine = log(node)
            close_figures()
            with Node(clock=SimClock()) as node:
                t = Display(ctx, node)
                for op in done:
                    if not t.apply(op):
                        raise Violation("not-usable", f"{op[:4]} was possible after failures only")
                want = [w.canvas.render(None).copy() for w in t.windows.values()]
                theirs = log(node)
            close_figures()
        for i, (a, b) in enumerate(zip(mine, theirs)):
            if a != b:
                raise Violation("log-differs", f"command {i} is {str(a)[:200]} instead of "
                                f"{str(b)[:200]} without failures")
        ctx.check(len(mine) == len(theirs), "log-differs", f"{len(mine)} commands instead of "
                  f"{len(theirs)} without failures")
        same = [i for i, ci in enumerate(cis) if ci not in self.reordered]
        same_images(ctx, [got[i] for i in same], [want[i] for i in same], "picture-differs",
                    "after failures")

    held = staticmethod(C15.held)

    def fail(self, ctx, d, op, done):
        """A render fails a number of times and may then be tried again."""
        _, vi, pi, mats, how, k, err, times, retry = op
        render = ["render", vi, pi, mats]
        if not d.complete(render):
            return
        q = d.node.gsp.io.queue("active")
        others = {p: self.held(d, p) for p in d.views if p != pi}
        commands = list(q.commands)
        failed = False
        for i in range(times):
            undo, injected, bad = None, [], render
            if how.startswith("call"):
                def make():
                    injected.append(ERRORS[err]())
                    return injected[0]
                fault = CallFaults(k + i * (7 if how == "call" else 1), make,
                                   within=how[5:])
            else:
                fault = None
                command = d.node.mod("gsp.io.command")
                command.record(False)
                bad, undo = self.spoil(d, render, how, k)
                command.record(True)
                if undo is None:
                    return
            error = None
            try:
                if fault:
                    with fault:
                        d.s.apply(bad)
                else:
                    d.s.apply(bad)
            except Exception as e:
                error = e
            except KeyboardInterrupt as e:
                error = e
            finally:
                if undo:
                    undo()
            if error is None:
                if fault is None:
                    raise Violation("error-swallowed", f"a bad {how} is not reported")
                # the render coped with it, or made fewer calls
                d.executed(render)
                done.append(render)
                if fault.fired:
                    ctx.op("handled", fault.fired)
                return
            failed = True
            if fault:
                ctx.fault("failing-call")
                ctx.state("fault", fault.fired)
                if fault.fired is None or not reaches(error, injected[0]):
                    raise Violation("other-error", f"{type(error).__name__}: {error} instead of "
                                    f"the error of {fault.fired}")
            else:
                ctx.fault("bad-" + how)
            ctx.op("fail", fault.fired if fault else how)
            for p, old in others.items():
                new = self.held(d, p)
                if new != old:
                    raise Violation("disturbed", f"a failing render in viewport {pi} changes "
                                    f"viewport {p}: {changes(old, new)}")
            ctx.check(len(q.commands) == len(commands) and
                      all(a is b for a, b in zip(q.commands, commands)), "failure-recorded",
                      f"{len(q.commands)} commands instead of {len(commands)}")
        if not failed:
            return
        self.shots(d)
        if retry:
            ctx.check(d.apply(render), "harness", render)
            done.append(render)
        else:
            if (vi, pi) not in d.shown:     # (may or may not have its place in drawing order)
                self.reordered.add(d.views[pi][0])
            d.forget(vi, pi)

    def spoil(self, d, render, how, k):
        """-> what to render and how to put things right again."""
        vi, pi, mats = render[1:]
        v = d.visuals.get(vi)
        real = d.s.visuals[vi]["v"]
        if how == "matrix":
            bad = [["bad", k % 3], *mats[1:]] if k % 2 else [mats[0], mats[1], ["bad", k % 3]]
            return ["render", vi, pi, bad], lambda: None
        names = [n for n in SLOTS[v["cls"]] if n in ("fill_colors", "line_colors", "colors",
                                                     "positions")]
        name = names[k % len(names)]
        if how == "map":                # a colour map in use gets a wrong name
            for n in names:
                spec = v[n]
                while spec[0] == "trans":
                    spec = d.trans[spec[1]]
                t = real.get_variable(n)
                if spec[0] == "cmap" and isinstance(t, d.s.t.Colormap):
                    t.set_colormap("no such map")

                    def undo():
                        command = d.node.mod("gsp.io.command")
                        command.record(False)
                        t.set_colormap(spec[1])
                        command.record(True)
                    return render, undo
            how = "name"
        if how == "name":               # a colour map that does not exist
            if v["cls"] == "Segments":
                return None, None
            name = next(n for n in names if n.endswith("colors"))
            value = d.s.t.Colormap("no such map")(d.s.t.Out("screen[positions].z"))
        elif how == "shape":
            value = np.zeros((5, 7) if name == "positions" else (3, 7), np.float32)
        else:
            value = d.s.t.Out("no.variable") if name != "positions" else "abc"
        old = real.get_variable(name)
        real.set_variable(name, value)
        return render, lambda: real.set_variable(name, old)

    def shots(self, d):
        """Whatever failed, canvases can be looked at."""
        for w in d.windows.values():
            w.canvas.render(None)
        objects = d.node.gsp.Object.objects
        command = d.node.mod("gsp.io.command")
        command.record(False)
        probes = (d.node.gsp.Object(), d.s.t.Transform(), d.s.t.Out("a.b") * 2)
        command.record(True)
        for o in probes:
            if objects.get(o.id) is not o:
                raise Violation("not-usable", f"a new {type(o).__name__} is not known by its id")

    def badevent(self, ctx, d, op, done):
        """A visual cannot be redrawn when its window is resized, under a window system
        that reports such errors and goes on with what else there is to do."""
        _, ci, w, h, k, how = op
        win = d.windows.get(ci)
        mine = [(vi, pi) for vi, pi in d.shown if d.views[pi][0] == ci]
        if not mine:
            return
        vi = mine[k % len(mine)][0]
        command = d.node.mod("gsp.io.command")
        command.record(False)
        _, undo = self.spoil(d, ["render", vi, None, None], how, k)
        command.record(True)
        if undo is None:
            return
        win.size(w, h)
        done += [["size", ci, w, h], ["event", ci, 1]]
        errors = []
        registry = win.figure.canvas.callbacks
        old = registry.exception_handler
        registry.exception_handler = errors.append
        try:
            win.deliver()
        finally:
            registry.exception_handler = old
        ctx.fault("bad-redraw")
        ctx.op("badevent", how)
        ctx.check(errors, "error-swallowed", f"no redraw of visual {vi} fails on a bad {how}")
        win.pending = 0
        d.redrawn(ci)
        lost = {key: d.shown[key] for key in d.shown if key in mine and key[0] == vi}
        for key in lost:
            del d.shown[key]
            d.unknown.add(key)
        d.compare(f"after a redraw of visual {vi} failed in a resize")
        self.shots(d)
        undo()
        d.unknown -= set(lost)
        d.shown.update(lost)            # (order matters for ties only)
        d.apply(done[-1])

    def failevent(self, ctx, d, op, done):
        """The redraws of a resize fail; a later event puts things right."""
        _, ci, w, h, k, err = op
        win = d.windows.get(ci)
        if win is None:
            return
        others = {p: self.held(d, p) for p, (c, _) in d.views.items() if c != ci}
        q = d.node.gsp.io.queue("active")
        n = len(q.commands)
        win.size(w, h)
        done.append(["size", ci, w, h])
        injected = []

        def make():
            injected.append(ERRORS[err]())
            return injected[0]
        fault = CallFaults(k, make)
        error = None
        try:
            with fault:
                win.deliver()
        except Exception as e:
            error = e
        except KeyboardInterrupt as e:
            error = e
        if error is not None:
            ctx.fault("failing-redraw")
            ctx.state("fault", fault.fired)
            if not injected or not reaches(error, injected[0]):
                raise Violation("other-error", f"{type(error).__name__}: {error} instead of the "
                                f"error of {fault.fired}")
        ctx.op("failevent", fault.fired or "none")
        for p, old in others.items():
            new = self.held(d, p)
            if new != old:
                raise Violation("disturbed", f"a failing resize of canvas {ci} changes "
                                f"viewport {p}: {changes(old, new)}")
        ctx.check(len(q.commands) == n, "failure-recorded", f"{len(q.commands) - n} commands")
        event = ["event", ci, 1]
        d.apply(event)
        done.append(event)


CHECK = C16()
