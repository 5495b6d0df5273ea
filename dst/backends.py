"""Stub backend: the protocol classes themselves, with every call observed."""
import types


def stub_backend(session, on_call=None):
    """A backend module for CommandQueue.run made of the protocol's classes.

    ``on_call(name)`` is told about each constructor before it runs and may
    raise; methods of the protocol classes are observed by wrapping them on
    per-backend subclasses.
    """
    gsp = session.node.gsp
    Thing, Sub = session.classes()
    m = types.ModuleType("stub_backend")
    cache = {}

    def wrap(cls, wire):
        if cls in cache:
            return cache[cls]
        if on_call is None:
            cache[cls] = cls
            return cls

        class Ctor:
            """Callable stand-in: observes, then constructs the real class."""

            def __new__(_, *a, **k):
                on_call(wire)
                return cls(*a, **k)

            def __init_subclass__(_):
                raise TypeError
        cache[cls] = Ctor
        return Ctor

    for mod in ("core", "visual", "transform"):
        ns = types.SimpleNamespace()
        real = getattr(gsp, mod)
        for name in dir(real):
            v = getattr(real, name)
            if isinstance(v, type):
                setattr(ns, name, wrap(v, f"{mod}.{name}"))
        setattr(m, mod, ns)
    m.Thing = wrap(Thing, "Thing")
    m.named = types.SimpleNamespace(Sub=wrap(Sub, "named.Sub"))
    return m
