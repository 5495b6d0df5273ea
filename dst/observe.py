"""Observation of and fault injection into the calls a replay makes.

``Observed`` hands CommandQueue.run a backend module whose constructors are
observed, and observes the public methods of the backend's classes; only
outermost calls (those made for a command) are logged.  ``CallFaults`` fails
the n-th call that code of the tree makes into a library.
"""
import functools
import gc
import sys
import types

from .node import REPO

METHODS = ("render", "set_data", "set_base", "set_next", "set_buffer", "set_colormap",
           "set_operator", "set_left", "set_right")


class Observed:
    def __init__(self, node, on_call=None, limit=100000):
        self.node = node
        self.log = []                   # (method, id) of outermost calls
        self.depth = 0
        self.on_call = on_call          # (index, name, phase) -> may raise
        self.limit = limit
        self.undo = []

    def enter(self, name):
        if self.depth == 0:
            self.log.append(name)
            if len(self.log) > self.limit:
                from .sim import NoProgress
                raise NoProgress()
            if self.on_call:
                self.on_call(len(self.log) - 1, name, "before")
        self.depth += 1

    def leave(self, name):
        self.depth -= 1
        if self.depth == 0 and self.on_call:
            self.on_call(len(self.log) - 1, name, "after")

    def around(self, name, func):
        @functools.wraps(func, updated=())
        def inner(*a, **k):
            n = name(*a) if callable(name) else name
            self.enter(n)
            try:
                got = func(*a, **k)
            except BaseException:
                self.depth -= 1
                raise
            self.leave(n)
            return got
        return inner

    def __enter__(self):
        m = self.node.mpl
        self.backend = types.ModuleType("observed_backend")
        for k, v in vars(m).items():
            if not k.startswith("__"):
                setattr(self.backend, k, v)
        seen = set()
        for mod in ("core", "visual", "transform"):
            real = getattr(m, mod)
            ns = types.SimpleNamespace()
            for k, v in vars(real).items():
                if not isinstance(v, type):
                    continue
                setattr(ns, k, self.around(f"{mod}.{k}", v))
                for c in v.__mro__:
                    if c in seen or not c.__module__.startswith("gsp"):
                        continue
                    seen.add(c)
                    for name in METHODS:
                        f = vars(c).get(name)
                        if isinstance(f, types.FunctionType):
                            self.undo.append((c, name, f))
                            setattr(c, name, self.around(
                                lambda s, *a, name=name: f"{type(s).__name__}/{name}", f))
            setattr(self.backend, mod, ns)
        return self

    def __exit__(self, *exc):
        for c, name, f in self.undo:
            setattr(c, name, f)
        self.undo.clear()
        return False


class CallFaults:
    """Fails the n-th call from a frame of the tree into a library.

    n counts from 0; n=None only counts.  ``skip`` names callees that are never
    failed, ``within`` restricts calls to those made by a part of the tree.
    After the failure the calls go through again.
    """

    def __init__(self, n, make, skip=(), within=None):
        self.within = f"/{within}/" if within else None
        self.n, self.make = n, make
        self.count = 0
        self.fired = None
        self.skip = set(skip)
        self.error = None

    def _profile(self, frame, event, arg):
        if self.fired is not None:
            return
        if event == "c_call":
            if not frame.f_code.co_filename.startswith(REPO):
                return
            name = getattr(arg, "__name__", "?")
            mod = getattr(arg, "__module__", None)
            caller = frame
        elif event == "call":
            back = frame.f_back
            if frame.f_code.co_filename.startswith(REPO) or back is None or \
                    not back.f_code.co_filename.startswith(REPO):
                return
            name, mod, caller = frame.f_code.co_name, frame.f_globals.get("__name__"), back
        else:
            return
        if self.within and self.within not in caller.f_code.co_filename:
            return
        if name in self.skip or (mod or "").startswith("dst") or mod == "contextlib":
            return          # (the machinery of "with" itself does not fail)
        self.count += 1
        if self.n is not None and self.count > self.n:
            self.fired = f"{caller.f_code.co_name}->{mod or ''}.{name}"
            self.error = self.make()
            raise self.error

    def __enter__(self):
        # (callbacks of collected objects would be calls at arbitrary moments)
        self.gc = gc.isenabled()
        gc.disable()
        sys.setprofile(self._profile)
        return self

    def __exit__(self, *exc):
        sys.setprofile(None)
        if self.gc:
            gc.enable()
        return False


def reaches(err, injected):
    """Is the injected error what (or why) the caller sees?"""
    seen = set()
    todo = [err]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        if e is injected:
            return True
        seen.add(id(e))
        todo += [e.__cause__, e.__context__]
    return False
