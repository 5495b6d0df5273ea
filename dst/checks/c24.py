"""C24: textual dumps show every command once, in order, and change nothing."""
import contextlib
import datetime
import io
import json
import os
import re

import numpy as np

from ..node import draw_age
from ..observe import CallFaults, reaches
from ..scratch import scratch
from ..session import Session, ANY, diff_log, gen_session, norm_method
from ..sim import Check, SimFault, Violation
from ..simfs import ERRORS, SimFS

FORMS = ["ansi", "text", "json", "queue", "console", "commands"]
ERR = {"error": lambda: SimFault("injected"), "memory": lambda: MemoryError("injected"),
       "value": lambda: ValueError("injected"), "interrupt": lambda: KeyboardInterrupt("injected"),
       "key": lambda: KeyError("injected")}
STYLE = re.compile("\033\\[[0-9;]*m")
HEAD = re.compile(r"^(\d+)\. COMMAND$")
LINE = re.compile(r"^     - ([^:]+): (.*)$", re.S)


def parse(text):
    """Blocks of a textual dump: (command id, method, time, object id, {name: value})."""
    out = []
    for line in STYLE.sub("", text).split("\n"):
        m = HEAD.match(line)
        if m:
            out.append({"cid": int(m[1]), "params": {}})
        elif line.startswith("     - ") and out:
            name, value = LINE.match(line).groups()
            # (the type follows the value)
            i = value.rfind(" (")
            what, value = (value[i + 2:-1], value[:i]) if i >= 0 else ("", value)
            if name in ("METHOD", "COMMAND_ID", "TIMESTAMP") and name not in out[-1]:
                out[-1][name] = value
            else:
                if name in out[-1]["params"]:
                    raise Violation("shown-twice", f"parameter {name} of {out[-1]}")
                out[-1]["params"][name] = value
    return out


class C24(Check):
    id = "C24"
    quick, thorough = 2400, 100000
    rule = ("A run is a client session of both flavours as in C01, with values that are converted "
            "when they are looked at, on several queues, some of them write-protected or empty. "
            "At any time a queue is dumped - as coloured or plain text, JSON, its summary, the "
            "console dump of its commands, to the caller or to a file - amid library calls that "
            "fail and full or failing disks. Dumps have to show the reference log, command by "
            "command, and to change neither queues, commands, objects nor recording. The session "
            "is saved, the client dies, and what another process loads is dumped as well.")
    state_measure = "form, length and outcome of a dump"
    stub = "clock; storage of the dumped files (simulated file system)"

    def plan(self, r, tier):
        ops = []
        for op in gen_session(r, r.randrange(3, 20), bad=r.choice([0, .15])):
            ops.append(op)
            c = r.random()
            if c < .12:
                ops.append(["raw", r.choice(["nd", "list", "colors"]), r.randrange(1, 5),
                            r.randrange(99)])
            elif c < .2:
                ops.append(r.choice([["queue", "other"], ["queue", "default"], ["readonly", True],
                                     ["readonly", False], ["record", False], ["record", True],
                                     ["empty"], ["clock", r.choice([-1e5, 10.25, 1e6, .123456, 3600.000871])]]))
            elif c < .55:
                ops.append(self.gen_dump(r))
        ops.append(self.gen_dump(r))
        if r.random() < .1:
            ops.insert(r.randrange(0, len(ops) + 1), ["age", draw_age(r, 1)])
        return {"ops": ops, "again": [self.gen_dump(r) for _ in range(r.randrange(1, 4))]}

    @staticmethod
    def gen_dump(r):
        fault = ["none"]
        if r.random() < .4:
            fault = r.choice([["call", r.randrange(r.choice([6, 30, 100])), r.choice(sorted(ERR))],
                              ["disk", [[r.choice([0, 0, 1, 1, 2, 3, 4]), r.choice(
                                  sorted(ERRORS) + ["short"])]]]])
        return ["dump", r.choice(FORMS), r.choice([None, None, "default", "other", "new"]),
                r.random() < .5 if fault[0] != "disk" else True, fault]

    # ------------------------------------------------------------------
    def run(self, ctx, plan):
        with scratch() as d:
            s = Session(ctx)
            path = os.path.join(d, "session.json")
            with s.node:
                gsp = s.node.gsp
                self.logs = {"default": []}
                self.made = []
                rec = True
                gsp.io.queue("default")
                command = s.node.mod("gsp.io.command")
                for op in plan["ops"]:
                    kind, outcome = op[0], "ok"
                    active = command.CommandQueue.active
                    s.recording = rec and not active.readonly
                    s.expected = self.logs[active.name]
                    if kind == "queue":
                        self.logs.setdefault(gsp.io.queue(op[1]).name, [])
                        command.CommandQueue.active = gsp.io.queue(op[1])
                    elif kind == "readonly":
                        active.readonly = op[1]
                    elif kind == "record":
                        rec = op[1]
                        gsp.io.record(rec)
                    elif kind == "empty":
                        active.empty()
                        self.logs[active.name].clear()
                    elif kind == "clock":
                        s.clock.now = max(1e6, s.clock.now + op[1])
                        ctx.advance(op[1])
                    elif kind == "age":
                        s.node.age(op[1])
                    elif kind == "raw":
                        self.raw(s, op)
                    elif kind == "dump":
                        outcome = self.dump(ctx, s, op, d)
                    else:
                        outcome = s.apply(op)
                    ctx.op(kind if kind not in ("new", "call") else op[1], outcome)
                for q in self.logs:
                    command.CommandQueue(q).readonly = False
                gsp.save(path)
                log = self.logs[command.CommandQueue.active.name]
            ctx.fault("client-crash")
            s = Session(ctx, clock=s.clock)
            with s.node:
                gsp = s.node.gsp
                command = s.node.mod("gsp.io.command")
                gsp.io.queue("default")
                s.clock.now += 1000
                s.t0 = s.t1 = s.clock.now
                gsp.load(path)
                # what conversions issued is part of the file
                self.logs = {"default": [dict(c, t=(s.t0, s.t1), raw=False)
                                         for w in log for c in self.issued(w) + [w]]}
                for op in plan["again"]:
                    ctx.op("dump", self.dump(ctx, s, op, d))

    @staticmethod
    def issued(c):
        """Commands that converting the parameters of a command issues."""
        if not c.get("raw"):
            return []
        return [{"method": "core.Buffer", "parameters": None},
                {"method": "Buffer/set_data", "parameters": None}] * c["raw"]

    def raw(self, s, op):
        """Positions and colours that become buffers when they are looked at."""
        _, kind, n, seed = op
        z = np.random.RandomState(seed).uniform(-1, 1, (n, 3)).astype("f4")
        c = [.5, .25, 0., 1.]
        s.t0 = s.t1 = s.clock.now
        if kind == "colors":
            c = np.random.RandomState(seed).uniform(0, 1, (n, 4)).astype("f4")
        v = s.node.mpl.visual.Pixels(z.tolist() if kind == "list" else z, c)
        s.note("visual.Pixels", {"id": int(v.id), "positions": ANY, "colors": ANY})
        if s.recording:
            s.expected[-1]["raw"] = 2 if kind == "colors" else 1
        s.objects.append((v, int(v.id), "Pixels"))

    # ---- a dump and what it must not change
    def observe(self, s):
        command = s.node.mod("gsp.io.command")
        Object = s.node.mod("gsp.object").Object
        qs = {n: command.CommandQueue(n) for n in self.logs}
        return ({n: ([(id(c), int(c.id), c.timestamp, c.classname, c.methodname,
                       [(k, id(v)) for k, v in c.parameters.items()]) for c in q.commands],
                     q.readonly) for n, q in qs.items()},
                command.__record__, id(command.CommandQueue.active), Object.record,
                id(getattr(command.Capture.current, "value", None))
                if hasattr(command, "Capture") else None), dict(Object.objects)

    def dump(self, ctx, s, op, d):
        _, form, name, tofile, fault = op
        gsp = s.node.gsp
        command = s.node.mod("gsp.io.command")
        active = command.CommandQueue.active
        if name is not None and name not in self.logs:
            if name != "new" and name != "other":
                return "skip"
            # a queue nothing was recorded in (asking for it makes it the active one)
            gsp.io.queue(name)
            self.logs.setdefault(name, [])
            command.CommandQueue.active = active
        q = None if name is None else command.CommandQueue(name)
        log = self.logs[active.name if q is None else q.name]
        before, objects = self.observe(s)
        path = os.path.join(d, "dump.out")
        tofile = tofile and form in ("ansi", "text", "json")
        old = b"what was there"
        if tofile:
            with open(path, "wb") as f:
                f.write(old)
        mod = {f: __import__(f"gsp.io.{f}", fromlist=["x"]) for f in ("ansi", "text", "json")}
        out = io.StringIO()
        the = active if q is None else q

        def make():
            if form in mod:
                if tofile:
                    mod[form].dump(q, path)
                    return None
                return mod[form].dump(q)
            if form == "queue":
                return str(the)
            if form == "console":
                with contextlib.redirect_stdout(out):
                    for c in the:
                        c.dump()
                return out.getvalue()
            return "\n".join(str(c) for c in the) if len(the) else ""
        fs = SimFS(ctx, d, dict(fault[1]) if fault[0] == "disk" else {}, names=("dump.out",))
        cf = CallFaults(fault[1] if fault[0] == "call" else None,
                        ERR[fault[2]] if fault[0] == "call" else None)
        got = error = None
        with fs:
            try:
                if fault[0] == "call":
                    with cf:
                        got = make()
                else:
                    got = make()
            except BaseException as e:
                error = e
        hard = [h for h in fs.hit if h[0] != "short"]
        if error is not None:
            if cf.error is not None:
                if not reaches(error, cf.error):
                    raise error
            elif not hard or not isinstance(error, OSError):
                raise error
            ctx.fault("failing-dump")
        elif hard and tofile:
            # (only errors while cleaning up may pass unnoticed)
            ctx.op("handled", str(hard))
        if tofile:
            with open(path, "rb") as f:
                content = f.read()
            if error is not None:
                if content == old:
                    content = None
            os.unlink(path)
            got = None if content is None else content.decode()
            # (a failing dump may have been complete already)
        after, now = self.observe(s)
        if after != before:
            raise Violation("dump-changed", f"{op}: queues or recording differ after a dump"
                            f"{' that failed' if error is not None else ''}")
        for i, o in objects.items():
            ctx.check(now.get(i) is o, "dump-changed", f"{op}: object {i} is not known anymore")
        if got is not None:
            self.compare(ctx, form, got, log, the, op)
        ctx.state(form, len(log), tofile, error is None)
        return "ok" if error is None else "raised"

    # ---- what a dump has to show
    def compare(self, ctx, form, got, log, q, op):
        where = f"{op}"
        cids = [int(c.id) for c in q.commands]
        if form == "json":
            want = []
            for c in log:
                want += self.issued(c) + [c]
            have = json.loads(got)["commands"]
            seen = [(norm_method(c["method"]), c["id"]) for c in have]
            own = [c for c in have if c["id"] in cids]
            if len(own) == len(log):
                for c, w in zip(own, log):
                    # (a converted parameter is shown as an object)
                    if w["parameters"] is None or ANY in map(str, w["parameters"].values()):
                        continue
                    e = diff_log([c], [w])
                    if e:
                        raise Violation("shown-otherwise", f"{where}: {e}")
        elif form in ("ansi", "text"):
            have = parse(got)
            if form == "text" and "\033" in got:
                raise Violation("shown-otherwise", f"{where}: styles in plain text")
            seen = [(norm_method(c.get("METHOD", "").strip('"')), c["cid"]) for c in have]
            for c in have:
                ctx.check(c.get("COMMAND_ID") == str(c["cid"]), "shown-otherwise",
                          f"{where}: {c}")
            for c, w in zip([c for c in have if c["cid"] in cids], log):
                self.block(c, w, where)
        elif form in ("queue", "commands"):
            rows = re.findall(r"#(\d+): ([\w.]+)\(id=(\d+)\)(?:/(\w+))?", got)
            if [int(a) for a, *_ in rows] != cids:
                raise Violation("shown-otherwise", f"{where}: {[a for a, *_ in rows]} instead of "
                                f"{cids}")
            for (a, cls, i, m), w in zip(rows, log):
                method = norm_method(w["method"])
                name = method.split("/")[0].split(".")[-1]
                if name != cls.split(".")[-1] or w["parameters"] is not None and \
                        int(i) != w["parameters"]["id"] or \
                        (m or "__init__") != (method.split("/") + ["__init__"])[1]:
                    raise Violation("shown-otherwise", f"{where}: {cls}({i})/{m} instead of {w}")
            return
        else:
            rows = re.split(r"^#", got, flags=re.M)[1:]
            if len(rows) != len(log):
                raise Violation("shown-otherwise", f"{where}: {len(rows)} commands instead of "
                                f"{len(log)}")
            for row, c, w in zip(rows, cids, log):
                names = re.findall(r"^ +\| ([^:]+):", row, re.M)
                ok = int(re.match(r"\d+", row)[0]) == c
                if w["parameters"] is not None:
                    ok = ok and sorted(n.replace("(id)", "") for n in names) == \
                        sorted(k.replace("(id)", "") for k in w["parameters"])
                if not ok:
                    raise Violation("shown-otherwise", f"{where}: {row!r} instead of {w}")
            return
        want = []
        own = iter(cids)
        for c in log:
            want += [(x["method"], None) for x in self.issued(c)]
            want.append((norm_method(c["method"]), next(own)))
        shown = [(m, c if c in cids else None) for m, c in seen]
        if shown != want:
            raise Violation("other-commands", f"{where}: shows {shown} instead of {want}")

    @staticmethod
    def block(c, w, where):
        """One command in a textual dump."""
        p = w["parameters"]
        if "t" in w:
            when = {datetime.datetime.fromtimestamp(t).strftime("%Y-%m-%dT%H:%M:%S.%f")
                    for t in w["t"]}
            if len(when) == 1 and c.get("TIMESTAMP") not in when:
                raise Violation("shown-otherwise", f"{where}: {w['method']}: time "
                                f"{c.get('TIMESTAMP')} instead of {when}")
        if p is None:
            return
        have = dict(c["params"])
        for k, v in p.items():
            name = "OBJECT_ID" if k == "id" else k.upper()
            if k.endswith("(id)"):
                name = k[:-4].upper() + "_ID"
            if v == ANY and isinstance(v, str):
                have.pop(name, have.pop(name + "_ID", None))
                continue
            if name not in have:
                raise Violation("shown-otherwise", f"{where}: {w['method']}: {name} is missing")
            got = have.pop(name)
            if type(v) in (int, float, str, type(None), bool) and len(str(v)) < 30:
                text = got.removesuffix(" (converted)")
                if text != str(v) and not text.startswith(("<", "b'", 'b"')) and \
                        not re.fullmatch(r"\w+\.\w+|\w+|", text) or \
                        type(v) in (int, float) and re.fullmatch(r"-?\d+(\.\d+)?", text) and \
                        float(text) != float(v):
                    raise Violation("shown-otherwise", f"{where}: {w['method']}: {name} is "
                                    f"{got!r} instead of {v!r}")
        if have:
            raise Violation("shown-otherwise", f"{where}: {w['method']}: also shows {have}")


CHECK = C24()
