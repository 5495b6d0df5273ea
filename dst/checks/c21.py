"""C21: a ragged list is a live partition of its data."""
import numpy as np

from ..arrays import CLASSES, DTYPES, IOPS, ITEM, Faults, Mirror, World, data
from ..node import Node, SimClock
from ..observe import CallFaults, reaches
from ..sim import Check, Violation
from .c10 import Run, diff, equal
from .c11 import ERRORS

KEYS = ["int", "int", "int", "neg", "slice", "slice", "slice", "step", "all", "list", "tuple",
        "array", "mask", "maskarray", "empty", "ellipsis", "npint", "out", "outlist", "float"]
BAD = ["more", "less", "negative", "zero", "odd", "real", "deep", "neg1"]


def sizes_of(r, n, k=None):
    """Random sizes that add up to n."""
    cuts = sorted(r.randrange(n + 1) for _ in range((k or r.randrange(1, 7)) - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [n])]


class Ragged:
    """A ragged list and its model: an array slot and the bounds of the items."""

    def __init__(self, L, slot, sizes):
        self.L, self.slot = L, slot
        ends = np.cumsum([0] + list(sizes)).tolist()
        self.items = list(zip(ends[:-1], ends[1:]))
        self.sizes = list(sizes)

    def chosen(self, key):
        """Rows of the data chosen by a key."""
        if isinstance(key, (list, tuple)):
            key = np.array(key) if len(key) else np.zeros(0, int)
        some = np.atleast_1d(np.arange(len(self.items))[key])
        return [i for k in some for i in range(*self.items[k])]


class C21(Check):
    id = "C21"
    quick, thorough = 6000, 300000
    rule = ("A run makes ragged lists over tracked arrays (mirrored), views of them, plain "
            "arrays and nested sequences, with sizes in every form, proper or not, and reads, "
            "holds, writes and iterates items by every kind of key, while the arrays and the "
            "parts held earlier are written too and uploads and library calls fail. After each "
            "step every list shows its partition of the model's data item by item, every array "
            "equals its model, every mirror its array, and a failed write touched nothing but "
            "the items asked for.")
    state_measure = "class, type, number of items, kind of key or sizes, and outcome"
    stub = "the mirror (a byte buffer that applies what it is told, or fails to)"

    # ---- plan
    def plan(self, r, tier):
        ops, n, lists = [], 0, 0
        for _ in range(r.randrange(5, 30 if tier == "quick" else 90)):
            c = r.random()
            seed = r.randrange(10**6)
            fault = None
            if r.random() < .15:
                fault = r.choice([
                    ["upload", r.choice(["before", "amid", "after"]), round(r.random(), 3),
                     r.choice(sorted(ERRORS)), r.choice([0, 0, 1])],
                    ["call", r.randrange(25), r.choice(sorted(ERRORS))]])
            if r.random() < .006:       # more data than the integers of the sizes can count
                ops.append([None, ["new", n, "count", r.choice(["scalar", "vec3"]),
                                   [r.choice([260, 300])], r.choice(DTYPES), None, seed]])
                ops.append([fault, ["list", lists, n, r.choice(["u1", "i1"]), 6, seed]])
                n += 1
                lists += 1
            elif n == 0 or c < .06:
                cls = r.choice(CLASSES)
                shape = [r.choice([0, 1, 2, 4, 6, 6, 9, 12, 12])]
                if cls == "tracked" and r.random() < .5:
                    shape.append(r.choice([1, 2, 3]))
                ops.append([None, ["new", n, r.choice(["count", "plain", "ndarray", "buffer"]),
                                   cls, shape, r.choice(DTYPES), None, seed]])
                n += 1
            elif lists == 0 or c < .16:
                ops.append([fault, ["list", lists, r.randrange(n), r.choice(
                    ["int", "one", "list", "list", "array", "tuple", "npint", "i4", "u1", "i1", "none"]),
                    r.choice([1, 2, 3, 4, 6]), seed]])
                lists += 1
            elif c < .2:
                ops.append([fault, ["nested", lists, n, r.choice(
                    ["lists", "tuples", "arrays", "vec3", "tracked", "void", "none"]),
                    sizes_of(r, r.choice([1, 3, 6, 9])), r.choice(DTYPES), seed]])
                lists += 1
                n += 1
            elif c < .24:
                ops.append([fault, ["refused", r.randrange(n), r.choice(BAD), seed]])
            elif c < .29:
                ops.append([fault, ["part", n, r.randrange(n), r.choice([0, 1, 2]), r.choice([1, 2, -1])]])
                n += 1
            elif c < .37:
                ops.append([fault, ["store", r.randrange(n), r.randrange(64),
                                    r.choice(["item", "all", "iop"]), seed]])
            elif c < .55:
                ops.append([fault, ["read", r.randrange(lists), r.choice(KEYS), seed, n,
                                    r.random() < .5]])
                n += ops[-1][1][5]
            elif c < .82:
                ops.append([fault, ["write", r.randrange(lists), r.choice(KEYS), seed, r.choice(
                    ["scalar", "scalar", "full", "full", "row", "listed", "wrong", "text"])]])
            elif c < .88:
                ops.append([fault, ["aug", r.randrange(lists), r.choice(KEYS[:9]), seed,
                                    r.choice(["+", "-", "*"])]])
            elif c < .93:
                ops.append([fault, ["show", r.randrange(lists), r.choice(
                    ["str", "array", "as", "copy", "keep"]), seed]])
            elif c < .95:
                ops.append([None, ["sizes", r.randrange(lists), seed]])
            elif c < .98:
                ops.append([None, ["protocol", seed % 3, r.choice(["tracked", "plain", "list", "bytes", "view"]),
                                   r.choice(["int", "array", "tracked", "list", "buffer"]),
                                   r.choice([0, 1, 4, 6, 12]), r.choice(DTYPES), seed]])
            else:
                ops.append([None, ["rewrite", seed % 3, seed]])
        return {"ops": ops}

    # ---- execution
    def run(self, ctx, plan):
        node = Node(clock=SimClock())
        with node:
            self.ctx, self.r = ctx, Run(ctx, node)
            self.w, self.glm = self.r.w, node.mpl.glm
            self.lists, self.given = {}, {}
            self.partitions, self.core = {}, node.mpl.core
            try:
                for fault, op in plan["ops"]:
                    self.step(ctx, fault, op)
            finally:
                Mirror.faults = None

    def step(self, ctx, fault, op):
        kind = op[0]
        if kind == "new":
            self.w.new(*op[1:], self.r.mirror_of)
            return
        todo = getattr(self, "do_" + kind)(op)
        if todo is None:
            return
        # real: the call; rows: what it may write; good: what follows if it succeeds;
        # refused: it has to raise
        real, good, refused, slot, rows = todo
        calls = None
        if fault and fault[0] == "upload":
            Mirror.faults = Faults(fault[1], fault[2], ERRORS[fault[3]], fault[4])
        elif fault:
            calls = CallFaults(fault[1], ERRORS[fault[2]])
        error = got = None
        try:
            if calls:
                with calls:
                    got = real()
            else:
                got = real()
        except BaseException as e:
            error = e
        injected = None
        if Mirror.faults is not None:
            injected, Mirror.faults = Mirror.faults.error, None
        elif calls:
            injected = calls.error
        what = f"after {op}" + (f" failing by {fault}" if injected is not None else "")
        if injected is not None:
            ctx.fault(f"upload-fails-{fault[1]}" if fault[0] == "upload" else
                      "library-call-error")
            if error is None and fault[0] == "upload":
                raise Violation("error-swallowed", f"{what}: nothing was raised")
            if error is not None and fault[0] == "upload" and not reaches(error, injected):
                raise Violation("other-error", f"{what}: raised {type(error).__name__}")
        elif refused and error is None:
            raise Violation("accepted", f"{what}: {got!r} for something that has no meaning")
        elif refused and not isinstance(error, refused):
            raise Violation("other-refusal", f"{what}: {type(error).__name__}: {error}")
        elif not refused and error is not None:
            raise Violation("refused", f"{what}: {type(error).__name__}: {error}")
        outcome = "failed" if injected is not None else "refused" if refused else "ok"
        ctx.op(kind, outcome)
        if error is None:
            if injected is None or kind != "show":      # (an IndexError ends an iteration)
                good(got, what)
        elif slot is not None:
            self.failed(slot, rows, what)
        elif kind == "rewrite":
            L, A, M, bounds, held = self.partitions[op[1]]
            M[...] = np.asarray(A)
        self.compare(what, injected is not None or error is not None)
        ctx.state(kind, op[2], outcome, type(self.w.slots[slot][0]).__name__ if slot in
                  self.w.slots else None, fault and fault[:2])

    def failed(self, slot, rows, what):
        """A failed write: nothing but the rows asked for has changed."""
        Z, M, root = self.w.slots[slot]
        other = np.ones(len(M), bool)
        other[rows] = False
        if not equal(np.asarray(Z)[other], M[other]):
            raise Violation("other-items-changed", f"{what}: rows other than {rows}")
        if M.flags.writeable:
            M[...] = np.asarray(Z)

    def compare(self, what, faulty):
        self.r.compare(what, mirrors=False)
        for root in self.w.roots:
            m = root.mirror
            if m is None:
                continue
            if m.outside:
                raise Violation("update-outside", f"{what}: {m.outside} of {len(m.bytes)}")
            d = diff(m, root.Z)
            if d is None:
                continue
            dirty = root.Z.dirty
            if dirty is None or dirty[0] > d[0] or dirty[1] < d[1]:
                raise Violation("mirror-differs", f"{what}: bytes {d} of {len(m.bytes)}, "
                                f"{type(root.Z).__name__} {root.Z.shape}, dirty {dirty}")
        for i, g in self.lists.items():
            self.partition(i, g, what)
        for i, (L, A, M, bounds, held) in self.partitions.items():
            for seen, how in ((list(L), "shows"), (held, "parts held show")):
                if seen is None:
                    continue
                if len(L) != len(bounds) or len(seen) != len(bounds) or \
                        not all(equal(s, M[a:b]) for s, (a, b) in zip(seen, bounds)):
                    raise Violation("other-items", f"{what}: partitioned buffer {i} of {len(L)} items "
                                    f"{how} {[np.asarray(s).tolist() for s in seen]} for {bounds} of "
                                    f"{M.tolist()}")

    def partition(self, i, g, what):
        L, M = g.L, self.w.slots[g.slot][1]
        try:
            seen = [np.asarray(v) for v in L]
            n, size, sizes = len(L), L.size, np.asarray(L.itemsize).tolist()
        except Exception as e:
            raise Violation("unreadable", f"{what}: list {i}: {type(e).__name__}: {e}")
        if n != len(g.items) or sizes != g.sizes or size != len(M):
            raise Violation("other-partition", f"{what}: list {i} has {n} items of sizes {sizes} "
                            f"instead of {g.sizes}")
        if len(seen) != n or not all(equal(s, M[a:b]) for s, (a, b) in zip(seen, g.items)):
            raise Violation("other-items", f"{what}: list {i} shows {[s.tolist() for s in seen]} "
                            f"for sizes {g.sizes} of {M.tolist()}")
        if L.dtype != M.dtype or L.shape != M.shape:
            raise Violation("other-type", f"{what}: list {i} {L.dtype} {L.shape} instead of "
                            f"{M.dtype} {M.shape}")

    # ---- operations
    def do_list(self, op):
        _, i, slot, form, k, seed = op
        if slot not in self.w.slots:
            return None
        Z, M, root = self.w.slots[slot]
        if not M.ndim:
            return None
        n = len(M)
        given = None
        if form in ("int", "npint", "one", "none"):
            k = {"one": 1, "none": n or 1}.get(form, k)
            if n % k:
                return None
            given = {"npint": np.int64(k), "none": None}.get(form, k)
            sizes = [k] * (n // k)
        else:
            r = np.random.RandomState(seed)
            cuts = sorted(r.randint(0, n + 1, k - 1).tolist())
            sizes = [b - a for a, b in zip([0] + cuts, cuts + [n])]
            given = {"list": list, "tuple": tuple, "array": np.array,
                     "i4": lambda s: np.array(s, "i4"),
                     "u1": lambda s: np.array(s, np.min_scalar_type(max(s))),
                     "i1": lambda s: np.array(s, np.min_scalar_type(-max(s) - 1))}[form](sizes)

        def good(L, what):
            if n and not np.shares_memory(L.data, Z):
                raise Violation("not-a-view", f"{what}: the list has a copy of the data")
            self.lists[i], self.given[i] = Ragged(L, slot, sizes), given
        return (lambda: self.glm.vlist(Z, given) if form != "none" else self.glm.vlist(Z)), \
            good, None, None, []

    def do_nested(self, op):
        _, i, slot, form, sizes, dtype, seed = op
        values = data(seed, (sum(sizes),), dtype)
        ends = np.cumsum([0] + sizes)
        parts = [values[a:b] for a, b in zip(ends, ends[1:])]
        if form in ("lists", "tuples"):
            arg = (list if form == "lists" else tuple)(p.tolist() for p in parts)
            values = np.concatenate([np.asarray(p) for p in arg])
        elif form == "arrays":
            arg = parts
        elif form == "vec3":
            values = data(seed, (sum(sizes), 3), dtype)
            arg = [values[a:b].view(self.w.nd.vec3) for a, b in zip(ends, ends[1:])]
        elif form == "tracked":
            arg = [p.view(self.w.nd.tracked) for p in parts]
        else:
            arg, sizes = ([] if form == "void" else None), []
            values = np.zeros(0)
        self.r.mirror_of_copy(None)         # (those of the parts)

        def good(L, what):
            D, M = L.data, np.array(values)
            if isinstance(D, self.w.nd.tracked):
                self.w.add(slot, D, M, self.r.mirror_of_copy)
                m = self.w.slots[slot][2]
                if m.mirror is not None and len(m.mirror.bytes) != M.nbytes:
                    m.mirror = None
            else:
                self.w.add(slot, D, M, lambda Z: None)
            if L.data.dtype != M.dtype:
                raise Violation("other-type", f"{what}: {L.data.dtype} instead of {M.dtype}")
            self.lists[i] = Ragged(L, slot, sizes)
        return (lambda: self.glm.vlist(arg)), good, None, None, []

    def do_refused(self, op):
        _, slot, how, seed = op
        if slot not in self.w.slots or not self.w.slots[slot][1].ndim:
            return None
        Z = self.w.slots[slot][0]
        n = len(Z)
        given = {"more": [n, 1], "less": [n - 1] if n else [1, 1], "negative": [n + 2, -2],
                 "zero": 0, "odd": n + 1, "real": [n / 2, n / 2], "deep": [[n]], "neg1": -1}[how]
        if how == "odd" and not n:
            return None
        if how == "less" and n == 0:
            given = [1]
        return (lambda: self.glm.vlist(Z, given)), lambda got, what: None, \
            (ValueError, TypeError), None, []

    def do_part(self, op):
        """A view of an array, of which a list may be made too."""
        _, slot, of, a, step = op
        if of not in self.w.slots or not self.w.slots[of][1].ndim:
            return None
        Z, M, root = self.w.slots[of]
        D, m = Z[a::step] if step > 0 else Z[::step], M[a::step] if step > 0 else M[::step]

        def good(got, what):
            self.w.put(slot, D, m, root)
        return (lambda: D), good, None, None, []

    def do_store(self, op):
        _, slot, at, how, seed = op
        if slot not in self.w.slots:
            return None
        Z, M, root = self.w.slots[slot]
        if not M.ndim or not len(M):
            return None
        k = at % len(M) if how == "item" else slice(None)
        v = data(seed, M[k].shape, M.dtype)

        def real():
            if how == "iop":
                z = Z
                z *= data(seed, (), M.dtype)[()]
            else:
                Z[k] = v

        def good(got, what):
            with np.errstate(all="ignore"):
                if how == "iop":
                    np.multiply(M, data(seed, (), M.dtype)[()], out=M, casting="unsafe")
                else:
                    M[k] = v
        if how == "iop" and M.dtype.kind != "f":
            return None

        def quiet():
            with np.errstate(all="ignore"):
                real()
        return quiet, good, None, slot, [at % len(M)] if how == "item" else list(range(len(M)))

    def key(self, g, kind, seed):
        r = np.random.RandomState(seed)
        n = len(g.items)
        some = (lambda: int(r.randint(n))) if n else lambda: 0
        if kind in ("int", "npint"):
            return np.int64(some()) if kind == "npint" else some()
        if kind == "neg":
            return some() - n
        if kind in ("slice", "step"):
            a, b = sorted((int(r.randint(-n - 1, n + 2)), int(r.randint(-n - 1, n + 2))))
            return slice(None if seed % 3 == 0 else a, None if seed % 5 == 0 else b,
                         [None, 1][seed % 2] if kind == "slice" else
                         [2, 3, -1, -2][seed % 4])
        if kind == "all":
            return slice(None)
        few = [some() - (n if r.randint(2) else 0) for _ in range(r.randint(1, 4))] if n else []
        if kind == "list":
            return few
        if kind == "tuple":
            return tuple(few)
        if kind == "array":
            return np.array(few, dtype=int)
        mask = (r.randint(0, 2, n) > 0)
        if kind == "mask":
            return mask.tolist()
        if kind == "maskarray":
            return mask
        return {"empty": [], "ellipsis": Ellipsis, "out": n + seed % 3, "outlist": [n],
                "float": 0.5}[kind]

    def choose(self, op):
        g = self.lists.get(op[1])
        if g is None:
            return None
        key = self.key(g, op[2], op[3])
        try:
            rows = g.chosen(key)
        except (IndexError, TypeError, ValueError):
            rows = None
        return g, key, rows

    def do_read(self, op):
        c = self.choose(op)
        if c is None:
            return None
        g, key, rows = c
        Z, M, root = self.w.slots[g.slot]

        def good(got, what):
            want = M[np.array(rows, dtype=int)]
            if np.shape(got) != want.shape or not equal(got, want):
                raise Violation("other-value", f"{what}: {np.asarray(got).tolist()} instead of "
                                f"{want.tolist()} for sizes {g.sizes}")
            view = isinstance(key, (int, np.integer)) or \
                isinstance(key, slice) and key.step in (None, 1)
            if view and len(rows):
                if want.size and not np.shares_memory(got, Z):
                    raise Violation("not-a-view", f"{what}: the items are a copy")
                if op[5]:
                    self.w.put(op[4], got, M[rows[0]:rows[-1] + 1], root)
        return (lambda: g.L[key]), good, \
            (IndexError, TypeError, ValueError) if rows is None else None, None, []

    def do_write(self, op):
        c = self.choose(op)
        if c is None:
            return None
        g, key, rows = c
        Z, M, root = self.w.slots[g.slot]
        seed, form = op[3], op[4]
        shape = (len(rows or []),) + M.shape[1:]
        v = data(seed, () if form == "scalar" else M.shape[1:] if form == "row" else
                 (shape[0] + 1,) + shape[1:] if form == "wrong" else shape, M.dtype)
        if form == "listed":
            v = v.tolist()
        elif form == "text":
            v = "nonsense"
        refused = None
        new = None
        if rows is None:
            refused = (IndexError, TypeError, ValueError)
        else:
            new = M.copy()
            try:
                new[np.array(rows, dtype=int)] = v
            except (ValueError, TypeError):
                refused = (ValueError, TypeError)
                if form in ("wrong", "text") and not rows:
                    return None             # (nothing to write: the value does not matter)

        def good(got, what):
            M[...] = new
        return (lambda: g.L.__setitem__(key, v)), good, refused, g.slot, rows or []

    def do_aug(self, op):
        """L[key] op= value"""
        c = self.choose(op)
        if c is None or c[2] is None:
            return None
        g, key, rows = c
        Z, M, root = self.w.slots[g.slot]
        v = data(op[3], (), M.dtype)[()]
        f = IOPS[op[4]]
        if op[2] == "step" and len(set(rows)) < len(rows):
            return None

        def real():
            with np.errstate(all="ignore"):
                t = g.L[key]
                t = f(t, v)
                g.L[key] = t

        def good(got, what):
            i = np.array(rows, dtype=int)
            with np.errstate(all="ignore"):
                M[i] = f(M[i], v)
        return real, good, None, g.slot, rows

    def do_show(self, op):
        g = self.lists.get(op[1])
        if g is None:
            return None
        how, seed = op[2], op[3]
        M = self.w.slots[g.slot][1]
        other = np.dtype(["f8", "f4", "i8"][seed % 3])
        real = {"str": lambda: str(g.L), "array": lambda: np.asarray(g.L),
                "as": lambda: np.asarray(g.L, other), "copy": lambda: np.array(g.L),
                "keep": lambda: np.array(g.L, copy=None)}[how]

        def good(got, what):
            if how == "str":
                want = "[ " + "".join(str(M[a:b]) + " " for a, b in g.items) + "]"
                if got.split() != want.split():
                    raise Violation("other-text", f"{what}: {got} instead of {want}")
                return
            want = M
            with np.errstate(all="ignore"):
                if how == "as":
                    want = M.astype(other)
            if got.dtype != want.dtype or not equal(got, want):
                raise Violation("other-array", f"{what}: {got.tolist()} instead of {want.tolist()}")
            if how == "copy" and M.size and np.shares_memory(got, self.w.slots[g.slot][0]):
                raise Violation("not-a-copy", what)

        def quiet():
            with np.errstate(all="ignore"):
                return real()
        return quiet, good, None, None, []

    def do_protocol(self, op):
        """The list of the protocol: a buffer and the sizes of its items."""
        _, i, form, given, n, dtype, seed = op
        core, nd = self.core, self.w.nd
        M = data(seed, (n,), dtype)
        A = {"tracked": lambda: M.copy().view(nd.tracked), "plain": M.copy, "list": M.tolist,
             "view": lambda: data(seed, (2 * n,), dtype).view(nd.tracked)[::2],
             "bytes": lambda: core.Buffer(n, M.dtype, M.tobytes())}[form]()
        if form in ("list", "view"):
            M = np.array(A, copy=True).view(np.ndarray)
        r = np.random.RandomState(seed)
        sizes = np.diff([0] + sorted(r.randint(0, n + 1, seed % 5).tolist()) + [n]).tolist()
        if given == "int":
            fit = [k for k in (1, 2, 3, 4, 6) if n % k == 0]
            k = fit[seed % len(fit)]
            sizes, S = [k] * (n // k), k
        else:
            S = {"array": lambda: np.array(sizes), "list": lambda: list(sizes),
                 "tracked": lambda: np.array(sizes).view(nd.tracked),
                 "buffer": lambda: core.Buffer(len(sizes), np.dtype(int),
                                               np.array(sizes).tobytes())}[given]()
        ends = np.cumsum([0] + sizes).tolist()
        self.r.mirror_of_copy(None)

        def good(L, what):
            M.flags.writeable = form != "list"
            self.partitions[i] = [L, A, M, list(zip(ends, ends[1:])),
                                  None if form in ("list", "view") else list(L)]
        return (lambda: core.List(A, S)), good, None, None, []

    def do_rewrite(self, op):
        """Data of a list of the protocol are written."""
        _, i, seed = op
        if i not in self.partitions:
            return None
        L, A, M, bounds, held = self.partitions[i]
        if not M.flags.writeable or not len(M):
            return None
        k = seed % len(M)
        v = data(seed, M[k:].shape, M.dtype)

        def good(got, what):
            M[k:] = v
        if isinstance(A, np.ndarray):
            return (lambda: A.__setitem__(slice(k, None), v)), good, None, None, []
        return (lambda: A.set_data(k * M.itemsize, v.tobytes())), good, None, None, []

    def do_sizes(self, op):
        """The sizes a list was made of belong to the caller."""
        given = self.given.get(op[1])
        if isinstance(given, (list, np.ndarray)) and np.ndim(given):
            return (lambda: given.__setitem__(slice(None), [7] * len(given))), \
                (lambda got, what: None), None, None, []
        return None


CHECK = C21()
