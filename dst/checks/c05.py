"""C05: an acknowledged save is complete; a failed or crashed save destroys nothing."""
import base64
import json
import os
import pathlib

import numpy as np

from ..backends import stub_backend
from ..node import draw_age
from ..scratch import NAMES, scratch
from ..session import ANY, Session, diff_log, gen_bad, gen_call, gen_new
from ..sim import Check, SimCrash, SimFault, Violation
from ..simfs import SimFS

KINDS = ["eio", "enospc", "eacces", "emfile", "erofs", "short", "crash", "crash-after",
         "power", "power-after", "power-after", "crash-after"]
CLASSES = ["core.Canvas", "core.Viewport", "core.Buffer", "core.List", "visual.Points",
           "visual.Pixels", "visual.Paths", "transform.Colormap", "transform.Add", "Thing",
           "named.Sub", "core.Data"]
CALLS = ["Visual.render", "Thing.poke", "Buffer.set_data", "Canvas.render"]


class Flaky:
    """A value whose conversion, done while saving, fails on demand."""
    fail = False

OTHER = ("s.txt", "session", "s.json.bak", "s.JSON", "s.json~", ".json")


def form_of(path, named=False):
    """Format to name where the extension does not tell it."""
    return [] if pathlib.PurePath(path).suffix == ".json" and not named else ["json"]


class C05(Check):
    id = "C05"
    quick, thorough = 2400, 120000
    rule = ("A run is up to three processes that record, save to one of two files by every "
            "public way of saving (names of every kind, given absolutely, relatively, by a path "
            "object or a link), and restart; saves meet I/O errors, full disks, short "
            "writes, failing conversions and unserialisable values, and the process or the "
            "machine dies at a drawn operation of the save.")
    state_measure = "(storage operation, fault) pairs and how the save ended"
    stub = ("storage (real files in a scratch directory behind a seam at every open, write, "
            "fsync, rename, unlink and close; simulated loss of what was not synchronised), clock")

    def plan(self, r, tier):
        ops = []
        if r.random() < .3:
            ops.append(["garbage", r.randrange(2), r.randrange(0, 200)])
        if r.random() < .25:
            ops += [gen_new(r, "core.Canvas"), ["queue", "other"]]
        for _ in range(r.randrange(2, 6)):
            for _ in range(r.randrange(0, 6)):
                c = r.random()
                ops.append(gen_new(r, r.choice(CLASSES)) if c < .6 else
                           gen_call(r, r.choice(CALLS)) if c < .8 else
                           gen_bad(r) if c < .84 else
                           ["raw", r.randrange(1, 5), r.randrange(99)] if c < .9 else
                           ["flaky"] if c < .93 else ["poison"] if c < .95 else
                           ["big", r.choice([9000, 30000])] if c < .97 else
                           r.choice([["queue", "other"], ["readonly"], ["empty"]]))
            c = r.random()
            faults = []
            if c < .75:
                for _ in range(r.choice([1, 1, 1, 2])):
                    faults.append([r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14]),
                                   r.choice(KINDS)])
            ops.append(["save", r.choice(["gsp", "gsp", "named", "json", "dump", "queue"]), r.randrange(2),
                        faults, r.random() < .25, [r.choice([0, 0, .5, 1]), r.choice([0, 0, .5, 1])],
                        r.random() < .3, r.random() < .15])
        for op in ops:
            if op[0] == "save":
                op.append(r.choice(["abs", "abs", "abs", "rel", "path", "link"]))
        for i in range(len(ops), 0, -1):
            if r.random() < .02:
                ops.insert(i, ["age", 1 + draw_age(r, 1)])
        return {"ops": ops, "names": r.sample(NAMES + OTHER, 2) if r.random() < .4 else list(NAMES[:2])}

    def simpler(self, plan):
        for i, op in enumerate(plan["ops"]):
            if op[0] == "save" and op[3]:
                for j in range(len(op[3])):
                    p = json.loads(json.dumps(plan))
                    del p["ops"][i][3][j]
                    yield p

    # ------------------------------------------------------------------
    def run(self, ctx, plan):
        with scratch() as d:
            top, d = d, os.path.join(d, "disk")
            os.makedirs(os.path.join(d, "sub"))
            os.chdir(d)
            self.names = tuple(plan["names"])
            self.paths = [os.path.join(d, self.names[0]), os.path.join(d, "sub", self.names[1])]
            self.links = [os.path.join(top, f"link{i}.json") for i in range(2)]
            for p, l in zip(self.paths, self.links):
                os.symlink(p, l)
            self.disk = [None, None]            # (bytes, expected commands)
            i = 0
            while i < len(plan["ops"]):
                i = self.process(ctx, d, plan["ops"], i)

    def process(self, ctx, d, ops, i):
        s = Session(ctx)
        ctx.op("process")
        with s.node:
            gsp = s.node.gsp
            gsp.io.register("Flaky", "str")(self.flaky)
            s.poisoned = False
            s.loaded = []
            if i and self.disk[0] and self.disk[0][1] is not None:
                # carry on with the saved session
                gsp.load(self.paths[0], *form_of(self.paths[0])).run(stub_backend(s))
                s.expected = [dict(c, flaky=False) for c in self.disk[0][1]]
            while i < len(ops):
                op = ops[i]
                i += 1
                kind, outcome = op[0], "ok"
                if kind == "garbage":
                    data = b"x" * op[2]
                    with open(self.paths[op[1]], "wb") as f:
                        f.write(data)
                    self.disk[op[1]] = (data, None)
                elif kind == "raw":
                    z = np.random.RandomState(op[2]).uniform(-1, 1, (op[1], 3)).astype("f4")
                    v = gsp.visual.Pixels(z, [1, 0, 0, 1])
                    s.t0 = s.t1 = s.clock.now
                    s.note("visual.Pixels", {"id": int(v.id), "positions(id)": ["jit", z.tolist()],
                                             "colors": [1, 0, 0, 1]})
                    if s.recording:
                        s.expected[-1]["jit"] = base64.b64encode(z.tobytes()).decode()
                    s.objects.append((v, int(v.id), "Pixels"))
                elif kind == "flaky":
                    Thing, _ = s.classes()
                    o = Thing(1, 2.0, Flaky())
                    s.t0 = s.t1 = s.clock.now
                    s.note("Thing/__init__", {"id": int(o.id), "a": 1, "b": 2.0,
                                              "c": "converted", "other": None})
                    if s.recording:
                        s.expected[-1]["flaky"] = True
                    s.objects.append((o, int(o.id), "Thing"))
                elif kind == "age":
                    s.node.age(op[1])
                elif kind == "poison":
                    o = gsp.core.Data("u", 1, [object()])
                    s.t0 = s.t1 = s.clock.now
                    s.note("core.Data", {"id": int(o.id), "uri": "u", "nbytes": 1, "dtype": ANY})
                    if s.recording:
                        s.expected[-1]["poison"] = True
                    s.objects.append((o, int(o.id), "Data"))
                elif kind == "big":
                    s.apply(["new", "core.Buffer", "gsp", 3,
                             [["int", op[1]], ["dtype", "uint8"], ["bytes", op[1], 7]], True])
                elif kind == "queue":
                    # a second queue becomes active: its session is what is saved
                    if gsp.io.CommandQueue.active is None or \
                            gsp.io.CommandQueue.active.name != op[1]:
                        gsp.io.queue(op[1])
                        s.expected, s.recording = [], True
                        s.pool.clear()      # sessions are self-contained
                elif kind == "readonly":
                    gsp.io.queue("active").readonly = True
                    s.recording = False
                elif kind == "empty":
                    gsp.io.queue("active").empty()
                    s.expected = []
                    s.pool.clear()
                elif kind == "save":
                    outcome = self.save(ctx, d, s, op)
                    if outcome == "died":
                        ctx.op("save", outcome)
                        ctx.op("restart")
                        return i
                elif s.recording:
                    outcome = s.apply(op)
                else:
                    outcome = "skip"
                ctx.op(kind if kind not in ("new", "call") else op[1], outcome)
        return i

    @staticmethod
    def flaky(value):
        if Flaky.fail:
            raise SimFault("conversion fails")
        return "converted"

    def save(self, ctx, d, s, op):
        _, via, which, faults, sticky, (names, data), flaky, lose, form = op
        gsp = s.node.gsp
        path = self.paths[which]
        given = {"abs": path, "rel": os.path.relpath(path, d), "path": pathlib.Path(path),
                 "link": self.links[which]}[form]
        q = gsp.io.queue("active")
        Object = s.node.mod("gsp.object").Object
        Flaky.fail = False
        poison = any(c.get("poison") for c in s.expected)
        before = [] if poison else self.without_jit(s, s.dump())
        objects = dict(Object.objects)
        state = [(int(c.id), c.timestamp) for c in q.commands]
        flags = (q.readonly, gsp.io.CommandQueue.active is q)
        Flaky.fail = flaky and any(c.get("flaky") for c in s.expected)
        if Flaky.fail:
            ctx.fault("conversion-error")
        if poison:
            ctx.fault("unserialisable-value")
        must_fail = poison or Flaky.fail
        outcome, error = "ok", None
        fs = SimFS(ctx, d, dict(faults), sticky, self.names)
        with fs:
            try:
                if via in ("gsp", "named"):
                    gsp.save(given, *form_of(given, via == "named"))
                elif via == "json":
                    gsp.io.json.save(given)
                elif via == "dump":
                    gsp.io.json.dump(filename=given)
                else:
                    gsp.io.json.save(given, q)
            except SimCrash:
                outcome = "died"
            except Exception as e:
                outcome, error = "raised", e
            if fs.dead:
                outcome = "died"
        Flaky.fail = False
        if outcome == "ok" and lose:
            # acknowledged, then the power fails
            ctx.fault("power after the save")
            fs.dead = "power"
        if fs.dead == "power":
            fs.power_loss(names, data)
        for k, w in fs.hit:
            ctx.state(w.split()[0], k, outcome)
        got = None
        if os.path.exists(path):
            with open(path, "rb") as f:
                got = f.read()
        old = self.disk[which]
        other = self.disk[1 - which]
        if outcome == "ok":
            ctx.check(not must_fail, "error-swallowed", "a failing conversion was not reported")
            why = self.is_new(s, got)
            if why:
                raise Violation("acknowledged-incomplete",
                                f"save returned after {fs.hit} but the file {why}")
            self.disk[which] = (got, [dict(c) for c in s.expected])
            self.loads(s, path)
            if lose:
                return "died"
        else:
            if not fs.hit and not must_fail:
                raise error
            if got != (old[0] if old else None):
                why = self.is_new(s, got) if not must_fail else "cannot be the new session"
                if why:
                    raise Violation("destroyed", f"save {outcome} at {fs.hit} and the file is "
                                    f"neither the previous session nor the new one: {why}")
                self.disk[which] = (got, [dict(c) for c in s.expected])
                self.loads(s, path)
        p = self.paths[1 - which]
        now = None
        if os.path.exists(p):
            with open(p, "rb") as f:
                now = f.read()
        ctx.check(now == (other[0] if other else None), "other-file-changed")
        if outcome == "died":
            return outcome
        # neither the queue nor the objects change
        ctx.check([(int(c.id), c.timestamp) for c in q.commands] == state, "queue-changed")
        ctx.check((q.readonly, gsp.io.CommandQueue.active is q) == flags, "queue-flags-changed")
        if not poison:
            after = self.without_jit(s, s.dump())
            ctx.check(after == before, "queue-changed", lambda: f"{before} became {after}")
        for oid, o in objects.items():
            ctx.check(Object.objects.get(oid) is o and o.id == oid, "object-lost", str(oid))
        if outcome == "raised" and not must_fail:
            # Once the faults have stopped saving works again
            gsp.save(given, *form_of(given))
            with open(path, "rb") as f:
                got = f.read()
            why = self.is_new(s, got)
            if why:
                raise Violation("retry-incomplete", f"the file {why}")
            self.disk[which] = (got, [dict(c) for c in s.expected])
        return outcome

    @staticmethod
    def known(s):
        return {c["parameters"]["id"] for c in s.expected}

    def without_jit(self, s, commands):
        """Commands with those of just in time conversions folded in."""
        known = self.known(s)
        jit, out = {}, []
        for c in commands:
            p = c["parameters"]
            if p["id"] not in known:
                if c["method"].startswith("core.Buffer"):
                    jit[p["id"]] = p["data"]
                elif not c["method"].startswith("Buffer/set_data"):
                    out.append(c)
                continue
            p = {k: (["jit", jit[v]] if k.endswith("(id)") and v in jit else v)
                 for k, v in p.items()}
            out.append({"method": c["method"], "parameters": p})
        return out

    def is_new(self, s, got):
        """None if the bytes are the complete current session."""
        if got is None:
            return "does not exist"
        try:
            commands = json.loads(got)["commands"]
        except ValueError as e:
            return f"cannot be parsed ({e})"
        want = []
        for c in s.expected:
            c = {"method": c["method"], "parameters": dict(c["parameters"]),
                 "jit": c.get("jit")}
            if c.pop("jit", None):
                for k, v in c["parameters"].items():
                    if k.endswith("(id)") and isinstance(v, list):
                        data = np.array(v[1], "f4").tobytes()
                        c["parameters"][k] = ["jit", base64.b64encode(data).decode()]
            want.append(c)
        return diff_log(self.without_jit(s, commands), want, times=False)

    def loads(self, s, path):
        """The file can be loaded after a restart and has the same commands."""
        with open(path) as f:
            want = json.load(f)["commands"]
        node = Session(s.ctx).node
        with node:
            node.gsp.load(path, *form_of(path))
            d = diff_log(json.loads(node.gsp.io.json.dump())["commands"], want, times=False)
        if d:
            raise Violation("cannot-be-loaded", d)


CHECK = C05()
