"""Simulated processes ("nodes").

A node is one process of the system under test: a private, freshly executed
import of every gsp / gsp_matplotlib module found in REPO's *current working
tree*.  Everything those modules keep in module or class attributes (command
queues, id counters, object registry, converter table, tracker class) is thus
private to the node, exactly as it would be in an operating system process, and
is lost when the node "crashes" (is dropped).  numpy and matplotlib are shared
between nodes; the only matplotlib state a node can reach through pyplot - the
figure manager - is closed when the node ends.

Only one node runs at a time: ``with node:`` installs its modules in
sys.modules (the code under test imports lazily inside functions).
"""
import importlib.abc
import importlib.util
import itertools
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOTS = ("gsp", "gsp_matplotlib")

sys.dont_write_bytecode = True
if sys.path[:1] != [REPO]:
    sys.path.insert(0, REPO)

import numpy as np                      # noqa: E402  (shared, real)
import matplotlib                       # noqa: E402
matplotlib.use("Agg")
import matplotlib.pyplot as plt         # noqa: E402
import matplotlib.collections           # noqa: E402,F401
import matplotlib.patheffects           # noqa: E402,F401
import matplotlib.markers               # noqa: E402,F401


def _is_sut(name):
    return name.split(".", 1)[0] in ROOTS


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Serves gsp modules from cached code objects compiled from REPO's tree."""

    def __init__(self):
        self.cache = {}
        self.patch = None           # called with each module after execution
        self.importing = 0          # (the interpreter holds locks meanwhile)

    def find_spec(self, name, path=None, target=None):
        if not _is_sut(name):
            return None
        if name not in self.cache:
            rel = os.path.join(REPO, *name.split("."))
            if os.path.isfile(os.path.join(rel, "__init__.py")):
                origin, pkg = os.path.join(rel, "__init__.py"), [rel]
            elif os.path.isfile(rel + ".py"):
                origin, pkg = rel + ".py", None
            else:
                self.cache[name] = None
                return None
            with open(origin, "rb") as f:
                code = compile(f.read(), origin, "exec", dont_inherit=True)
            self.cache[name] = (code, origin, pkg)
        if self.cache[name] is None:
            return None
        code, origin, pkg = self.cache[name]
        return importlib.util.spec_from_file_location(
            name, origin, loader=self, submodule_search_locations=pkg)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        self.importing += 1
        try:
            exec(self.cache[module.__name__][0], module.__dict__)
        finally:
            self.importing -= 1


FINDER = _Finder()
sys.meta_path.insert(0, FINDER)


def _purge():
    mods = {k: sys.modules.pop(k) for k in list(sys.modules) if _is_sut(k)}
    return mods


class Node:
    """One simulated process. ``backend=False`` imports the protocol only."""

    def __init__(self, clock=None, backend=True, name="node"):
        self.name = name
        self.clock = clock
        self.modules = {}
        self._depth = 0
        self._saved = None
        with self:
            import gsp
            import gsp.io
            import gsp.io.json
            import gsp.io.command
            self.gsp = gsp
            if backend:
                import gsp_matplotlib
                self.mpl = gsp_matplotlib
            if clock is not None:
                clock.install(sys.modules)
            gsp.log.disabled = True
            gsp.log.handlers.clear()

    def age(self, n):
        """Let the process have made `n` more objects and commands, since dropped.

        Its counters are moved on, in one step; counters kept in another way are
        left alone (the process is then as young as any)."""
        if not n:
            return
        for module in list(self.modules.values() if self._depth == 0 else
                           [m for k, m in sys.modules.items() if _is_sut(k)]):
            holders = [module] + [c for c in vars(module).values() if isinstance(c, type)
                                  and c.__module__ == module.__name__]
            for holder in holders:
                for k, v in list(vars(holder).items()):
                    if isinstance(v, itertools.count):
                        step = v.__reduce__()[1]
                        if len(step) == 1:
                            setattr(holder, k, itertools.count(step[0] + n))

    def __enter__(self):
        if self._depth == 0:
            self._saved = _purge()
            sys.modules.update(self.modules)
        self._depth += 1
        return self

    def __exit__(self, *exc):
        self._depth -= 1
        if self._depth == 0:
            self.modules = _purge()
            sys.modules.update(self._saved)
            self._saved = None
        return False

    def mod(self, name):
        return self.modules[name] if self._depth == 0 else sys.modules[name]


# Numbers at which a process that has been running for long may be
AGES = (100, 250, 254, 255, 32750, 65530, 10**6, 2**31 - 8, 2**32 - 5, 2**53 - 3)


def draw_age(r, p=.15):
    return r.choice(AGES) + r.randrange(0, 6) if r.random() < p else 0


class SimClock:
    """The only clock the node reads: substituted for `datetime`/`time`."""

    def __init__(self, now=1.7e9):
        self.now = now
        self.reads = 0
        self.fail = 0               # that many reads fail from now on
        self.fail_at = None         # number of the one read that fails

    def read(self):
        self.reads += 1
        if self.reads == self.fail_at:
            raise OSError("clock cannot be read")
        if self.fail:
            self.fail -= 1
            raise OSError("clock cannot be read")
        return self.now

    def install(self, modules):
        import datetime as _dt
        import time as _time
        clock = self

        class SimDatetime(_dt.datetime):
            @classmethod
            def now(cls, tz=None):
                return cls.fromtimestamp(clock.read(), tz)

            @classmethod
            def utcnow(cls):
                return cls.fromtimestamp(clock.read(), _dt.timezone.utc).replace(tzinfo=None)

            @classmethod
            def today(cls):
                return cls.now()

        class _Shim:
            def __init__(self, real, **over):
                self.__dict__.update(over)
                self.__dict__["_real"] = real

            def __getattr__(self, k):
                return getattr(self._real, k)

        dt_shim = _Shim(_dt, datetime=SimDatetime)
        t_shim = _Shim(_time, time=clock.read, monotonic=clock.read,
                       perf_counter=clock.read,
                       time_ns=lambda: int(clock.read() * 1e9),
                       sleep=lambda s: setattr(clock, "now", clock.now + s))
        for name, m in list(modules.items()):
            if not _is_sut(name) or m is None:
                continue
            for k, v in list(vars(m).items()):
                if v is _dt.datetime:
                    setattr(m, k, SimDatetime)
                elif v is _dt:
                    setattr(m, k, dt_shim)
                elif v is _time:
                    setattr(m, k, t_shim)
                elif v is _time.time or v is _time.monotonic:
                    setattr(m, k, clock.read)


def close_figures():
    plt.close("all")


def reset():
    """After a run: no figure and no node module survives."""
    plt.close("all")
    _purge()
