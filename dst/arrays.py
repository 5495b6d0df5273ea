"""Programs over tracked arrays, with a plain numpy model and failing mirrors."""
import copy
import operator
import pickle
import warnings

import numpy as np

DTYPES = ["f4", "f4", "f4", "f8", "i4", "u1", "i2", "f2", "u4", "i8"]
CLASSES = ["tracked", "scalar", "vec2", "vec3", "vec4", "mat2", "mat3", "mat4"]
ITEM = {"vec2": (2,), "vec3": (3,), "vec4": (4,), "mat2": (2, 2), "mat3": (3, 3), "mat4": (4, 4)}
SWIZZLE = {"vec2": ["xy", "ra"], "vec3": ["xyz", "rgb"], "vec4": ["xyzw", "rgba"],
           "mat2": ["xy", "ra"], "mat3": ["xyz", "rgb"], "mat4": ["xyzw", "rgba"]}
IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv,
        "//": operator.ifloordiv, "%": operator.imod, "**": operator.ipow,
        "<<": operator.ilshift, ">>": operator.irshift, "&": operator.iand,
        "|": operator.ior, "^": operator.ixor, "@": operator.imatmul}
FIELDS = [("a", "f4"), ("b", "i2"), ("c", "f4", (2,))]


def data(seed, shape, dtype):
    """Repeatable values of a type; small enough for any arithmetic."""
    r = np.random.RandomState(seed % (2**32))
    dtype = np.dtype(dtype)
    if dtype.names:
        out = np.zeros(shape, dtype)
        for i, n in enumerate(dtype.names):
            out[n] = data(seed + i, out[n].shape, out[n].dtype)
        return out
    if seed % 6 == 0:                   # often the value an item already has
        return r.randint(0, 2, shape).astype(dtype)
    if dtype.kind == "f":
        if seed % 6 == 1:               # equal or unequal values, whatever their bytes
            return r.choice([0.0, -0.0, 1.0, np.nan, np.inf, -np.inf], shape).astype(dtype)
        return r.uniform(-4, 4, shape).astype(dtype)
    return r.randint(0 if dtype.kind == "u" else -9, 10, shape).astype(dtype)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


class Mirror:
    """A mirror that applies the updates it is told of, or fails to."""
    faults = None               # Faults in effect
    made = []

    def __init__(self, array):
        if Mirror.faults is not None:
            Mirror.faults.creation()
        self.bytes = bytearray(np.asarray(array).tobytes())
        self.calls = self.accepted = 0
        self.outside = None
        Mirror.made.append(self)

    def set_data(self, offset, data):
        self.calls += 1
        data = bytes(data)
        if not 0 <= offset <= offset + len(data) <= len(self.bytes):
            self.outside = (int(offset), len(data))
        if Mirror.faults is not None:
            Mirror.faults.update(self, offset, data)
        self.bytes[offset:offset + len(data)] = data
        self.accepted += 1


class Faults:
    """The n-th update of an operation fails, before, amid or after its effect."""

    def __init__(self, mode, frac, make, n=0):
        self.mode, self.frac, self.make, self.n = mode, frac, make, n
        self.error = None
        self.seen = 0

    def creation(self):
        pass

    def update(self, mirror, offset, data):
        self.seen += 1
        if self.error is None and self.seen > self.n:
            k = {"before": 0, "after": len(data)}.get(self.mode, int(self.frac * len(data)))
            mirror.bytes[offset:offset + k] = data[:k]
            self.error = self.make()
            raise self.error


class Root:
    """An allocation: the model's memory and the mirror of the array owning it."""

    def __init__(self, Z, M, mirror):
        self.Z, self.M, self.mirror = Z, M, mirror
        self.slots = []


class World:
    """Arrays of a node under a mirror class, and their plain numpy models."""

    def __init__(self, node, tracker):
        self.nd = node.mpl.glm.ndarray
        self.glm = node.mpl.glm
        self.tracker = tracker
        self.nd.tracked.__tracker_class__ = tracker
        self.slots = {}                 # slot -> [Z, M, root]
        self.roots = []

    def cls(self, name):
        return getattr(self.nd, name)

    # ---- creation
    def new(self, slot, how, cls, shape, dtype, order, seed, mirror_of):
        """Create a tracked array; mirror_of(Z) yields its mirror."""
        C = self.cls(cls)
        if dtype == "struct":
            dtype = np.dtype(FIELDS)
        else:
            dtype = np.dtype(dtype)
        item = ITEM.get(cls, ())
        full = tuple(shape) + item
        if how == "count" and dtype.names is None and cls not in ("tracked",):
            Z = C(tuple(shape), dtype)
            M = np.empty(Z.shape, dtype)
            self.init(Z, M, seed)
        elif how == "plain":            # a plain array seen as a tracked one
            base = np.array(data(seed, full, dtype), order="C" if order is None else order)
            M = base.copy(order="K")
            Z = base.view(C)
        elif how == "as" and cls in ("vec2", "vec3", "vec4"):
            base = data(seed, full, dtype)
            M = base.copy().reshape(-1, item[0])
            Z = getattr(self.glm, "as_" + cls)(base)
        elif how == "to" and cls in ("vec2", "vec3", "vec4"):
            base = data(seed, (int(np.prod(shape)), item[0]), dtype)
            Z = getattr(self.glm, "to_" + cls)(base)
            M = np.array(Z)
        elif how == "buffer" and dtype.names is None and order is None:
            raw = bytearray(data(seed, full, dtype).tobytes())
            M = np.frombuffer(bytearray(raw), dtype).reshape(full)
            if cls == "tracked":
                Z = C(full, dtype, raw)
            else:
                Z = C(tuple(shape), dtype, raw)
        else:
            if cls == "tracked" or dtype.names:
                Z = self.cls("tracked")(full, dtype, order=order)
                M = np.ndarray(full, dtype, order=order)
            elif cls == "scalar":
                Z = C(tuple(shape), dtype, order=order)
                M = np.ndarray(full, dtype, order=order)
            else:
                Z = C(tuple(shape), dtype)
                M = np.empty(full, dtype)
            self.init(Z, M, seed)
        self.add(slot, Z, M, mirror_of)
        return self.slots[slot]

    def init(self, Z, M, seed):
        v = data(seed, M.shape, M.dtype)
        M[...] = v
        faults, Mirror.faults = Mirror.faults, None
        try:
            Z[...] = v
        finally:
            Mirror.faults = faults

    def add(self, slot, Z, M, mirror_of):
        root = Root(Z, M, mirror_of(Z))
        self.roots.append(root)
        self.put(slot, Z, M, root)

    def put(self, slot, Z, M, root):
        self.slots[slot] = [Z, M, root]
        root.slots.append(slot)

    # ---- keys
    def key(self, spec, shape):
        """A basic index for that shape from plan data."""
        out, axis = [], 0
        for kind, *p in spec:
            if kind == "e":
                if any(k is Ellipsis for k in out):
                    continue
                out.append(Ellipsis)
                # the rest addresses the last axes
                rest = sum(1 for k in spec[len(out):] if k[0] in "is")
                axis = max(axis, len(shape) - rest)
                continue
            if kind == "n":
                out.append(None)
                continue
            if axis >= len(shape):
                break
            n = shape[axis]
            axis += 1
            if kind == "i":
                if not n:
                    out.append(slice(None))
                else:
                    i = p[0] % n
                    out.append(i - n if p[1] else i)
            else:
                a, b, step = p
                a = None if a is None else a % (n + 1)
                b = None if b is None else b % (n + 1)
                if a is not None and b is not None and (a > b) == (step > 0):
                    a, b = b, a
                out.append(slice(a, b, step))
        if len(out) == 1 and spec and spec[0][-1] != "tuple":
            return out[0]
        return tuple(out)

    def value(self, seed, target, form):
        """Something that can be written into target."""
        shape, dtype = target.shape, target.dtype
        if form == "scalar" or (dtype.names and form != "full"):
            return data(seed, (), dtype)[()]
        if form == "row" and shape:
            return data(seed, shape[-1:], dtype)
        if form == "list" and dtype.names is None:
            return data(seed, shape, dtype).tolist()
        if form == "double" and dtype.names is None:
            return data(seed, shape, dtype).astype("f8" if dtype.kind == "f" else "i8")
        if form == "strided" and shape:
            return data(seed, shape + (2,), dtype)[..., 0]
        return data(seed, shape, dtype)

    # ---- derived arrays
    def derive(self, Z, how, p):
        """A view or a copy of an array, by public array operations."""
        if how == "key":
            return Z[self.key(p[0], Z.shape)]
        if how == "T":
            return Z.T
        if how == "ravel":
            return Z.ravel()
        if how == "reshape":
            return Z.reshape(-1, p[0]) if Z.size % p[0] == 0 and Z.size else Z.reshape(-1)
        if how == "squeeze":
            return Z.squeeze()
        if how == "swap":
            return Z.swapaxes(0, -1) if Z.ndim else Z
        if how == "flip":
            return Z[::-1] if Z.ndim else Z[...]
        if how == "new":
            return Z[np.newaxis]
        if how == "field" and Z.dtype.names:
            return Z[p[0]]
        if how == "ubyte":
            return Z.view(np.ubyte) if Z.flags.c_contiguous and Z.ndim else Z[...]
        if how == "recast":             # the same bytes as another type
            other = {"f4": "i4", "i4": "f4", "f8": "i8", "i8": "f8", "u4": "f4", "f2": "i2",
                     "i2": "u2", "u1": "i1"}.get(Z.dtype.str[1:])
            return Z.view(other) if other else Z.view()
        if how == "view":
            return Z.view()
        if how == "class":              # seen as another class
            return Z.view(self.cls(["tracked", "scalar", "vec3"][p[0] % 3])) \
                if isinstance(Z, self.nd.tracked) else Z.view()
        if how == "asvec":
            k = 2 + p[0] % 3
            if Z.dtype.names or Z.size % k or not Z.size:
                return Z[...]
            return getattr(self.glm, f"as_vec{k}")(Z) if isinstance(Z, self.nd.tracked) \
                else Z.reshape(-1, k)
        if how == "window":
            if not Z.ndim or len(Z) < 2:
                return Z[...]
            return np.lib.stride_tricks.as_strided(
                Z, (len(Z) - 1,) + Z.shape[1:], Z.strides, subok=True)
        if how == "diag":
            return np.diagonal(Z) if Z.ndim > 1 else Z[...]
        if how == "moveaxis":
            return np.moveaxis(Z, 0, -1) if Z.ndim else Z[...]
        if how == "split":
            return np.array_split(Z, 2)[p[0] % 2] if Z.ndim else Z[...]
        if how == "iter":
            return list(Z)[p[0] % len(Z)] if Z.ndim and len(Z) else Z[...]
        if how == "atleast":
            return np.atleast_2d(Z)
        # copies
        if how == "copy":
            return Z.copy()
        if how == "npcopy":
            return np.copy(Z, subok=True)
        if how == "array":
            return np.array(Z, subok=True)
        if how == "astype":
            return Z.astype(Z.dtype)
        if how == "deepcopy":
            return copy.deepcopy(Z)
        if how == "copycopy":
            return copy.copy(Z)
        if how == "pickle":
            return pickle.loads(pickle.dumps(Z))
        if how == "flatten":
            return Z.flatten()
        if how == "fancy":
            return Z[[0]] if Z.ndim and len(Z) else Z.copy()
        if how == "mask":
            return Z[np.ones(Z.shape[:1], bool)] if Z.ndim else Z.copy()
        if how == "add":
            with np.errstate(all="ignore"):
                return Z + Z if Z.dtype.names is None else Z.copy()
        if how == "neg":
            return Z * 1 if Z.dtype.names is None else Z.copy()
        if how == "rsub":
            with np.errstate(all="ignore"):
                return 1 - Z if Z.dtype.kind == "f" else Z.copy()
        if how == "take":
            return Z.take([0], axis=0) if Z.ndim and len(Z) else Z.copy()
        if how == "repeat":
            return Z.repeat(2, axis=0) if Z.ndim else Z.copy()
        if how == "concat":
            return np.concatenate([Z, Z]) if Z.ndim else Z.copy()
        if how == "where":
            return np.where(np.ones(Z.shape, bool), Z, Z)
        if how == "clip":
            return Z.clip(0, 1) if Z.dtype.kind == "f" else Z.copy()
        return Z[...]


VIEWS = ["key", "key", "key", "key", "T", "ravel", "reshape", "squeeze", "swap", "flip", "new",
         "field", "ubyte", "view", "diag", "moveaxis", "split", "iter", "atleast", "class",
         "class", "recast", "asvec", "window"]
COPIES = ["copy", "npcopy", "array", "astype", "deepcopy", "copycopy", "pickle", "flatten",
          "fancy", "mask", "add", "neg", "rsub", "take", "repeat", "concat", "where", "clip"]


# --------------------------------------------------------------------------
def gen_key(r):
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
        c = r.random()
        if c < .35:
            out.append(["i", r.randrange(64), r.random() < .3])
        elif c < .8:
            out.append(["s", r.choice([None, r.randrange(64)]), r.choice([None, r.randrange(64)]),
                        r.choice([1, 1, 1, 2, 3, -1, -2])])
        elif c < .95:
            out.append(["e"])
        else:
            out.append(["n"])
    return out


def gen_new(r, slot, dtypes=DTYPES, classes=CLASSES):
    cls = r.choice(classes)
    dims = 1 if cls in ITEM or r.random() < .6 else r.choice([0, 2, 2, 3])
    shape = [r.choice([1, 2, 3, 4, 5, 7, 12]) for _ in range(dims)]
    if r.random() < .03 and shape:
        shape[0] = 0
    dtype = r.choice(dtypes)
    if cls == "tracked" and r.random() < .12:
        dtype = "struct"
    return ["new", slot, r.choice(["count", "count", "plain", "as", "to", "buffer", "ndarray"]),
            cls, shape, dtype, r.choice([None, None, None, "F"]), r.randrange(10**6)]


def gen_program(r, n, fancy=True, dtypes=DTYPES):
    """Operations over slots; slots are numbered in creation order."""
    ops = []
    count = 0
    for _ in range(r.choice([1, 1, 2, 3])):
        ops.append(gen_new(r, count, dtypes))
        count += 1
    for _ in range(n):
        s = r.randrange(count)
        c = r.random()
        seed = r.randrange(10**6)
        if c < .04:
            ops.append(gen_new(r, count, dtypes))
            count += 1
        elif c < .22:
            ops.append(["view", count, s, r.choice(VIEWS),
                        [gen_key(r)] if True else None, r.randrange(1, 9), r.choice("abc")])
            count += 1
        elif c < .30:
            ops.append(["copy", count, s, r.choice(COPIES)])
            count += 1
        elif c < .58:
            ops.append(["set", s, gen_key(r), r.choice(["full", "scalar", "row", "list", "double",
                                                       "strided"]), seed])
        elif c < .72:
            ops.append(["iop", s, r.choice(sorted(IOPS)), r.choice(["full", "scalar", "row"]),
                        seed])
        elif c < .80:
            ops.append(["aug", s, gen_key(r), r.choice(["+", "-", "*"]),
                        r.choice(["full", "scalar"]), seed])
        elif c < .88:
            k = r.randrange(1, 5)
            ops.append(["swz", s, r.randrange(2), [r.randrange(4) for _ in range(k)],
                        r.choice(["scalar", "items", "each", "rows", "aug"]), seed])
        elif c < .93 and fancy:
            ops.append(["fancy", s, r.choice(["list", "tuple", "array", "mask", "full-mask",
                                              "ix", "tuplelist"]), seed])
        elif c < .96:
            ops.append(["bad", s, r.choice(["shape", "string", "index", "field", "op"]), seed])
        else:
            ops.append(["vlist", s, r.randrange(1, 5), r.choice(["set", "item", "list"]), seed])
    return ops


class Program:
    """Executes operations on a World."""

    def __init__(self, world, mirror_of):
        self.w = world
        self.mirror_of = mirror_of

    def do(self, op):
        """-> (root touched or None, slot); errors of the operation pass through."""
        kind, w = op[0], self.w
        self.wrote = False              # did the operation write any item?
        if kind == "new":
            w.new(*op[1:], self.mirror_of)
            return
        slot = op[2] if kind in ("view", "copy") else op[1]
        if slot not in w.slots:
            return
        Z, M, root = w.slots[slot]
        getattr(self, "do_" + kind)(Z, M, root, op)

    def root_of(self, op):
        slot = op[1] if op[0] != "new" else None
        return self.w.slots[slot][2] if slot in self.w.slots and op[0] not in ("view", "copy") \
            else None

    def do_view(self, Z, M, root, op):
        _, slot, _, how, key, k, field = op
        p = [field] if how == "field" else key if how == "key" else [k]
        D, m = self.w.derive(Z, how, p), self.w.derive(M, how, p)
        if not isinstance(D, self.w.nd.tracked) or not isinstance(m, np.ndarray):
            return
        self.file(slot, D, m, root, M)

    def file(self, slot, D, m, root, M):
        """A derived array is a view of its source or of a root of its own."""
        shares = np.shares_memory(m, M)
        if shares != np.shares_memory(D, root.Z) and m.size:
            raise AssertionError("the model shares memory where the array does not")
        if shares or (m.base is not None and root.M is not None and
                      np.may_share_memory(m, root.M)):
            self.w.put(slot, D, m, root)
            self.mirror_of_copy(D)      # (made for intermediate arrays, if any)
        else:
            self.w.add(slot, D, m, self.mirror_of_copy)

    def mirror_of_copy(self, Z):
        return None

    def do_copy(self, Z, M, root, op):
        _, slot, _, how = op
        D = self.w.derive(Z, how, [])
        if not isinstance(D, self.w.nd.tracked):
            return
        m = np.array(D)
        if np.shares_memory(D, root.Z):
            m = self.w.derive(M, how, [])
            if not np.shares_memory(m, M):
                return
            self.w.put(slot, D, m, root)
        else:
            self.w.add(slot, D, m, self.mirror_of_copy)

    def do_set(self, Z, M, root, op):
        _, _, key, form, seed = op
        k = self.w.key(key, M.shape)
        if M.dtype.names and not isinstance(M[k], np.ndarray):
            form = "full"               # a record
        target = M[k]
        v = self.w.value(seed, np.asarray(target), form)
        try:
            M[k] = v
        except (ValueError, TypeError, OverflowError):
            self.must_raise(lambda: Z.__setitem__(k, v))
        else:
            Z[k] = v
            self.wrote = np.asarray(target).size > 0

    def must_raise(self, f):
        try:
            f()
        except Exception as e:
            raise Refused() from e
        raise Accepted()

    def do_iop(self, Z, M, root, op):
        _, _, name, form, seed = op
        f = IOPS[name]
        v = self.w.value(seed, M, form)
        if name in ("**", "<<", ">>"):
            with np.errstate(all="ignore"):
                v = np.abs(v) % 3 if M.dtype.names is None else v
            if M.dtype.kind in "iu":
                v = np.asarray(v).astype(M.dtype)
        if name == "@":
            v = data(seed, M.shape[-1:] * 2, M.dtype) if M.ndim else v
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                f(M, v)
            except Exception:
                self.must_raise(lambda: f(Z, v))
            else:
                got = f(Z, v)
                if got is not Z:
                    raise NotSame()
                self.wrote = M.size > 0

    def do_aug(self, Z, M, root, op):
        """Z[key] op= value"""
        _, _, key, name, form, seed = op
        if M.dtype.names:
            return
        f = IOPS[name]
        k = self.w.key(key, M.shape)
        v = self.w.value(seed, np.asarray(M[k]), form)
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                M[k] = f(M[k], v)
            except Exception:
                def again():
                    Z[k] = f(Z[k], v)
                self.must_raise(again)
            else:
                t = Z[k]
                t = f(t, v)
                Z[k] = t
                self.wrote = np.asarray(M[k]).size > 0

    def do_swz(self, Z, M, root, op):
        _, _, which, idx, form, seed = op
        sw = SWIZZLE.get(type(Z).__name__)
        if sw is None or not M.ndim or M.shape[-1] != len(sw[0]) or M.dtype.names:
            return
        name = "".join(sw[which][i % len(sw[0])] for i in idx)
        name = "".join(dict.fromkeys(name))
        if name in ("ra",) and "xyz" in sw:
            return
        shape = M.shape[:-1]
        where = [sw[which].index(c) for c in name]
        seen = getattr(Z, name)
        if seen.shape != M[..., where].shape or not same(seen, M[..., where]):
            raise OtherValue(f"{type(Z).__name__}.{name} is {np.asarray(seen).tolist()} instead "
                             f"of {M[..., where].tolist()}")
        if form == "scalar":
            v = data(seed, (), M.dtype)[()]
        elif form == "items":
            v = data(seed, shape, M.dtype)
        elif form == "each":
            v = tuple(data(seed + i, shape, M.dtype) for i in range(len(name)))
        elif form == "rows":
            v = data(seed, shape + (len(name),), M.dtype)
        else:
            with np.errstate(all="ignore"):
                t = getattr(Z, name)
                t += data(seed, (), M.dtype)[()]
            v = t
        # Other shapes are ambiguous: they may be refused
        strict = M.flags.writeable and (form == "scalar" or M.ndim == 2 and len(M) > 4)
        try:
            setattr(Z, name, v)
            self.wrote = M.size > 0
        except (ValueError, IndexError, TypeError) as e:
            if strict:
                raise
            if M.flags.writeable:
                M[...] = np.asarray(Z)
            raise Refused() from e
        except BaseException:
            if M.flags.writeable:
                M[...] = np.asarray(Z)
            raise
        if not M.flags.writeable:
            return
        if strict:
            for k, i in enumerate(where):
                M[..., i] = v if form in ("scalar", "items") else v[k] if form == "each" else \
                    np.asarray(v)[..., k]
        else:
            M[...] = np.asarray(Z)

    def do_fancy(self, Z, M, root, op):
        _, _, how, seed = op
        if not M.ndim or not M.size:
            return
        n = len(M)
        i = [seed % n, (seed // 7) % n]
        key = {"list": i, "tuple": (Ellipsis, [seed % M.shape[-1]]), "array": np.array(i),
               "mask": np.arange(n) % 2 == seed % 2,
               "full-mask": (np.arange(M.size) % 3 == 0).reshape(M.shape),
               "ix": (np.array(i),) + (slice(None),) * (M.ndim - 1),
               "tuplelist": (i,)}[how]
        v = data(seed, (), M.dtype)[()]
        if not M.flags.writeable:
            self.must_raise(lambda: Z.__setitem__(key, v))
        try:
            Z[key] = v
        except NotImplementedError as e:
            raise Refused() from e
        M[key] = v

    def do_bad(self, Z, M, root, op):
        _, _, how, seed = op

        def f(A):
            if how == "shape":
                A[...] = np.zeros(A.shape + (A.size + 7,))[..., :A.size + 5]
            elif how == "string":
                A[...] = "nonsense"
            elif how == "index":
                A[len(A) + 3 if A.ndim else 3] = 0
            elif how == "field":
                A["nofield"] = 0
            else:
                A += "nonsense"
        if how == "string" and (M.dtype.kind not in "fiu" or not M.size):
            return
        if how == "shape" and not M.ndim:
            return
        self.must_raise(lambda: f(Z))

    def do_vlist(self, Z, M, root, op):
        """Through a ragged list over the array."""
        _, _, k, how, seed = op
        if not M.ndim or not len(M) or M.dtype.names or not M.flags.writeable:
            return
        k = min(k, len(M))
        L = self.w.glm.vlist(Z, [k] + [1] * (len(M) - k))
        v = data(seed, (), M.dtype)[()]
        i = seed % len(L)
        a, b = (0, k) if i == 0 else (k + i - 1, k + i)
        if how == "set":
            L[i] = v
        elif how == "item":
            L[i][...] = v
        elif how == "list":
            try:
                L[[i]] = v
            except NotImplementedError as e:
                raise Refused() from e
        M[a:b] = v
        self.wrote = M.size > 0


class Refused(Exception):
    """The operation raised, as it should; nothing has changed."""


class Accepted(Exception):
    """An operation that plain numpy refuses was accepted."""


class OtherValue(Exception):
    """Components that were read are not those of the array."""


class NotSame(Exception):
    """An in-place operation returned another object."""
