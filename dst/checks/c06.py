"""C06: loading a session is all or nothing."""
import json
import os
import pathlib
import random

from ..scratch import NAMES, scratch
from ..session import Session, diff_log, gen_call, gen_new, gen_session, norm_method
from ..sim import Check, SimCrash, SimFault, Violation
from ..simfs import SimFS

CLASSES = ["core.Canvas", "core.Viewport", "core.Buffer", "visual.Pixels", "Thing",
           "transform.Colormap", "named.Sub"]
VALUES = [None, 1, -3, 2.5, True, "", "a/b/c", "x/", "é", [], {}, [1], {"id": "7"}, {"id": None},
          {"id": 1}, {"x": 1}, "core.Canvas", "Canvas/render/x"]


class C06(Check):
    id = "C06"
    quick, thorough = 4000, 200000
    rule = ("A run is a process with queues and objects that loads session files, by every "
            "public way of loading, which are well-formed, missing, unreadable, cut off at any "
            "point, damaged in any bit or structurally malformed, with read errors, short "
            "reads and clock errors while loading; it records and loads again afterwards.")
    state_measure = "(kind of damage, way of loading, verdict, outcome)"
    stub = "storage (seam at every open, read and close), clock"

    def plan(self, r, tier):
        files = []
        for _ in range(r.randrange(1, 3)):
            files.append({"session": [gen_new(r, r.choice(CLASSES)) if r.random() < .7 else
                                      gen_call(r, r.choice(["Visual.render", "Thing.poke"]))
                                      for _ in range(r.choice([0, 1, 3, 8, 15]))]})
        ops = []
        for _ in range(r.randrange(2, 7)):
            for _ in range(r.randrange(0, 4)):
                ops.append(gen_new(r, r.choice(CLASSES)) if r.random() < .8 else
                           r.choice([["queue", "q"], ["queue", "default"], ["readonly", True],
                                     ["readonly", False], ["record", False], ["record", True],
                                     ["empty"]]))
            damage = []
            if r.random() < .75:
                for _ in range(r.choice([1, 1, 2])):
                    damage.append(r.choice([
                        ["trunc", r.random()], ["trunc", r.choice([0, .999, 1 - 1e-9])],
                        ["flip", r.random(), r.randrange(8)],
                        ["flip", r.random(), r.randrange(8)],
                        ["delkey", r.random(), r.choice(["method", "parameters", "id", "timestamp"])],
                        ["delid", r.random()],
                        ["setid", r.random(), r.choice([True, False, 2.0, "3", -4, 0, [5], None])],
                        ["set", r.random(), r.choice(["method", "parameters"]), r.choice(VALUES)],
                        ["entry", r.random(), r.choice(VALUES)],
                        ["commands", r.choice(VALUES)], ["top", r.choice(VALUES)],
                        ["delcommands"], ["dup", r.random()], ["append", r.choice(["}", " ", "x", "\n"])],
                        ["nul", r.random()], ["latin", r.random()], ["param", r.random(), r.choice(VALUES)],
                    ]))
            faults, env = [], "ok"
            if r.random() < .3:
                faults = [[r.randrange(0, 6), r.choice(["eio", "eacces", "emfile", "short", "short"])]]
            elif r.random() < .15:
                env = r.choice(["missing", "directory", "unknown-format", "suffix", "explicit"])
            ops.append(["load", r.choice(["gsp", "gsp", "json", "named"]),
                        r.randrange(9), damage, faults, env,
                        r.randrange(0, 12) if r.random() < .12 else -1,
                        r.choice(NAMES) if r.random() < .3 else "s.json",
                        r.choice(["abs", "abs", "rel", "path"])])
        return {"files": files, "ops": ops}

    def simpler(self, plan):
        for i, op in enumerate(plan["ops"]):
            if op[0] == "load":
                for k in (3, 4):
                    for j in range(len(op[k])):
                        p = json.loads(json.dumps(plan))
                        del p["ops"][i][k][j]
                        yield p
        for i, f in enumerate(plan["files"]):
            for j in range(len(f["session"])):
                p = json.loads(json.dumps(plan))
                del p["files"][i]["session"][j]
                yield p

    # ---- files
    @staticmethod
    def damage(raw, ops):
        kinds = []
        for d in ops:
            k = d[0]
            if k == "trunc":
                raw = raw[:int(d[1] * len(raw))]
            elif k == "flip" and raw:
                b = bytearray(raw)
                b[int(d[1] * len(b)) % len(b)] ^= 1 << d[2]
                raw = bytes(b)
            elif k == "append":
                raw = raw + d[1].encode()
            elif k == "nul":
                i = int(d[1] * len(raw))
                raw = raw[:i] + b"\0" * (len(raw) - i)
            elif k == "latin":
                i = int(d[1] * len(raw))
                raw = raw[:i] + b"\xe9" + raw[i + 1:]
            else:
                try:
                    doc = json.loads(raw)
                    cs = doc["commands"]
                    n = int(d[1] * len(cs)) if isinstance(d[1:] and d[1], float) and cs else None
                    if k == "commands":
                        doc["commands"] = d[1]
                    elif k == "top":
                        doc = d[1]
                    elif k == "delcommands":
                        del doc["commands"]
                    elif n is None:
                        continue
                    elif k == "delkey":
                        del cs[n][d[2]]
                    elif k == "delid":
                        del cs[n]["parameters"]["id"]
                    elif k == "setid":
                        cs[n]["parameters"]["id"] = d[2]
                    elif k == "set":
                        cs[n][d[2]] = d[3]
                    elif k == "entry":
                        cs[n] = d[2]
                    elif k == "dup":
                        cs.insert(n, cs[n])
                    elif k == "param":
                        ps = cs[n]["parameters"]
                        key = sorted(ps)[0]
                        ps[key] = d[2]
                    raw = json.dumps(doc).encode()
                except (ValueError, KeyError, TypeError, AttributeError, IndexError):
                    continue
            kinds.append(k)
        return raw, kinds

    @staticmethod
    def verdict(raw):
        """('load', commands) | ('raise', why) | ('either', commands)"""
        try:
            doc = json.loads(raw.decode("utf-8"))
        except (ValueError, RecursionError) as e:
            return "raise", str(e)
        if not isinstance(doc, dict) or not isinstance(doc.get("commands"), list):
            return "raise", "no list of commands"
        out, sure = [], True
        if raw.startswith(b"\xef\xbb\xbf") or "gsp_version" not in doc:
            sure = False
        for c in doc["commands"]:
            if not isinstance(c, dict) or not isinstance(c.get("method"), str) or \
                    not isinstance(c.get("parameters"), dict) or "id" not in c["parameters"]:
                return "raise", f"malformed entry {c!r}"
            oid = c["parameters"]["id"]
            if not isinstance(oid, int) or isinstance(oid, bool):
                return "raise", f"malformed id {oid!r}"
            m = c["method"]
            ok = m.count("/") <= 1 and m.count(".") <= 1 and \
                all(p.isidentifier() for p in m.replace("/", ".").split("."))
            if not ok or oid <= 0 or set(c) != {"method", "id", "timestamp", "parameters"} or \
                    type(c["id"]) is not int or type(c["timestamp"]) not in (int, float):
                sure = False
            # ("x/" is no proper method; taken for "x")
            out.append({"method": m if ok else m.rstrip("/"), "parameters": c["parameters"]})
        return ("load" if sure else "either"), out

    # ------------------------------------------------------------------
    def run(self, ctx, plan):
        with scratch() as d:
            raws = []
            for i, f in enumerate(plan["files"]):
                s = Session(ctx)
                with s.node:
                    for op in f["session"]:
                        s.apply(op)
                    p = os.path.join(d, f"f{i}.json")
                    s.node.gsp.io.json.save(p)
                with open(p, "rb") as g:
                    raws.append(g.read())
            s = Session(ctx)
            with s.node:
                self.process(ctx, s, plan["ops"], raws, d)

    def process(self, ctx, s, ops, raws, d):
        gsp = s.node.gsp
        command = s.node.mod("gsp.io.command")
        Object = s.node.mod("gsp.object").Object
        logs = {}               # name -> expected commands

        def observe():
            qs = {n: command.CommandQueue(n) for n in logs}
            return ({n: ([(int(c.id), c.timestamp) for c in q.commands], s.dump(q), q.readonly)
                     for n, q in qs.items()},
                    {k: id(o) for k, o in Object.objects.items()},
                    [(k, int(o.id)) for k, o in Object.objects.items()],
                    command.__record__, id(command.CommandQueue.active), Object.record)

        def queue(name):
            q = gsp.io.queue(name)
            logs.setdefault(q.name, [])
            return q
        queue("default")
        rec = True
        for op in ops:
            kind, outcome = op[0], "ok"
            active = command.CommandQueue.active
            if kind == "queue":
                queue(op[1])
            elif kind == "readonly":
                active.readonly = op[1]
            elif kind == "record":
                rec = op[1]
                gsp.io.record(rec)
            elif kind == "empty":
                active.empty()
                logs[active.name].clear()
            elif kind == "load":
                outcome = self.load(ctx, s, op, raws, d, queue, logs, observe)
            else:
                s.recording = rec and not active.readonly
                s.expected = logs[active.name]
                outcome = s.apply(op)
            ctx.op(kind if kind not in ("new", "call") else op[1], outcome)
            for n in logs:
                df = diff_log(s.dump(command.CommandQueue(n)), logs[n], times=False)
                if df:
                    raise Violation("queue-differs", f"queue {n!r} after {op[:2]}: {df}")

    def load(self, ctx, s, op, raws, d, queue, logs, observe):
        _, via, which, damage, faults, env, clock, name, form = op
        gsp = s.node.gsp
        command = s.node.mod("gsp.io.command")
        Object = s.node.mod("gsp.object").Object
        raw, kinds = self.damage(raws[which % len(raws)], damage)
        for k in kinds:
            ctx.fault("damage: " + k)
        name = {"unknown-format": "s.txt", "suffix": "s.data"}.get(env, name)
        path = os.path.join(d, name)
        for p in ("s.txt", "s.data", name):
            p = os.path.join(d, p)
            if os.path.isdir(p):
                os.rmdir(p)
            elif os.path.exists(p):
                os.unlink(p)
        if env == "directory":
            os.mkdir(path)
        elif env != "missing":
            with open(path, "wb") as f:
                f.write(raw)
        want, commands = self.verdict(raw)
        fmt = {"explicit": "json", "suffix": "json"}.get(env)
        if env in ("missing", "directory", "unknown-format") and \
                (env != "unknown-format" or via == "gsp"):
            want = "raise"
        if env != "ok":
            ctx.fault(env)
        before = observe()
        active = command.CommandQueue.active
        target = active
        fs = SimFS(ctx, d, dict(faults), names=(name,))
        reads = s.clock.reads
        if clock >= 0:
            # the clock cannot be read at its n-th reading from now
            real, left = s.clock.read, [clock]
            s.clock.fail_at = reads + clock + 1
        error = got = None
        os.chdir(d)
        given = {"abs": path, "rel": name, "path": pathlib.Path(path)}[form]
        with fs:
            try:
                if via == "gsp":
                    got = gsp.load(given, fmt) if fmt else gsp.load(given)
                elif via == "json":
                    got = gsp.io.json.load(given)
                else:
                    other = [n for n in logs if n != active.name]
                    target = command.CommandQueue(other[0]) if other else active
                    got = gsp.io.json.load(given, target)
            except Exception as e:
                error = e
        hard = [h for h in fs.hit if h[0] != "short"]
        if s.clock.fail_at and s.clock.reads >= s.clock.fail_at:
            ctx.fault("clock-error")
            want = "raise" if want == "raise" else "either"
        s.clock.fail_at = None
        if hard:
            want = "raise"
        ctx.state("+".join(kinds), via, want, env, error is None, bool(hard))
        ctx.ev("verdict", want, str(commands)[:200], type(error).__name__)
        if error is None:
            ctx.check(want != "raise", "malformed-loaded",
                      lambda: f"{kinds} {env} {fs.hit} loaded without an error: {commands!r:.300}")
            ctx.check(got is target, "wrong-queue", "load returned another queue")
            # (compared by the caller)
            logs[target.name][:] = commands
            now = observe()
            ctx.check(now[3] == before[3] and now[4] == before[4] and now[5] == before[5],
                      "state-changed", "recording state or active queue")
            ctx.check(now[0][target.name][2] == before[0][target.name][2],
                      "state-changed", "read-only flag")
            for n in logs:
                if n != target.name:
                    ctx.check(now[0][n] == before[0][n], "other-queue-changed", n)
            if via == "gsp":
                ctx.check(not Object.objects, "objects-kept", "objects of the previous session")
                s.pool.clear()
            else:
                ctx.check(now[1:3] == before[1:3], "registry-changed")
            return "loaded"
        ctx.check(want != "load", "well-formed-rejected",
                  lambda: f"{kinds} {env} {fs.hit}: {type(error).__name__}: {error}")
        now = observe()
        for what, a, b in zip(("queues", "objects", "objects", "recording", "active queue",
                               "object recording"), now, before):
            ctx.check(a == b, "half-loaded", lambda: f"load raised {type(error).__name__} and the "
                      f"{what} changed from {b!r:.300} to {a!r:.300}")
        return "raised"


CHECK = C06()
