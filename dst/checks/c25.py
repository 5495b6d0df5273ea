"""C25: a downloaded asset is complete or not there."""
import contextlib
import importlib.util
import io
import os
import sys
import types

import numpy as np

from ..node import REPO
from ..scratch import scratch
from ..sim import Check, SimCrash, Violation
from ..simfs import SimFS

NAMES = ["misc/lidar.npz", "a.bin", "misc/deep/b.txt"]
DISK = ["eio", "enospc", "eacces", "emfile", "short", "crash", "crash-after", "power",
        "power-after"]


class NetError(IOError):
    """Stands for requests.exceptions.RequestException."""


class Server:
    """The asset repository: raw files, some of which are LFS pointers."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.files = {}                 # name -> (content, in lfs)
        self.faults = []                # one per request
        self.requests = 0
        self.hit = []

    def get(self, url, **kwargs):
        self.requests += 1
        fault = self.faults.pop(0) if self.faults else ["none"]
        if fault[0] == "connect":
            self.hit.append(fault)
            self.ctx.fault("connection-refused")
            raise NetError("connection refused")
        host, _, path = url.partition("://")[2].partition("/")
        name = path.split("/main/")[-1]
        media = host.startswith("media")
        status = 200
        body = b""
        if name not in self.files:
            status = 404
        else:
            body, lfs = self.files[name]
            if lfs and not media:
                body = (b"version https://git-lfs.github.com/spec/v1\noid sha256:%064x\nsize %d\n"
                        % (len(body) + 7, len(body)))
        if fault[0] == "status":
            self.hit.append(fault)
            self.ctx.fault("http-error")
            status = fault[1]
        return Response(self, url, status, body, fault)


class Response:
    def __init__(self, server, url, status, body, fault):
        self.server, self.url, self.status_code = server, url, status
        self.body, self.fault = body, fault
        self.headers = {"Content-Length": str(len(body))}
        self.ok = status < 400
        self.cached = None

    def raise_for_status(self):
        if self.status_code >= 400:
            raise NetError(f"{self.status_code}")

    def iter_content(self, chunk_size=1, **kwargs):
        n = len(self.body)
        stop = int(n * self.fault[1]) if self.fault[0] == "cut" else n
        for i in range(0, stop, chunk_size or n or 1):
            yield self.body[i:min(i + (chunk_size or n), stop)]
        if self.fault[0] == "cut":
            self.server.hit.append(self.fault)
            self.server.ctx.fault("connection-lost")
            raise NetError("connection lost")
        if self.fault[0] == "timeout":
            self.server.hit.append(self.fault)
            self.server.ctx.fault("timeout")
            raise NetError("read timed out")

    @property
    def content(self):
        if self.cached is None:
            self.cached = b"".join(self.iter_content(1000))
        return self.cached

    @property
    def raw(self):
        return io.BytesIO(self.content)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


class C25(Check):
    id = "C25"
    quick, thorough = 6000, 200000
    rule = ("A run is up to four processes that download assets, plain and in large file storage, "
            "into one cache, some of them by force, while the assets change. Connections are "
            "refused, lost amid a file or time out, the server answers with errors, the disk fails "
            "or fills up, and the process or the machine dies at any operation on the cache. "
            "A returned path has to name the complete asset, every cached file has to be complete "
            "at any time, also after a restart.")
    state_measure = "outcome of a download, faults met, and whether the asset was cached"
    stub = ("network (requests), location of the cache (platformdirs), storage (scratch directory "
            "behind the simulated file system)")

    def plan(self, r, tier):
        ops = []
        for _ in range(r.randrange(3, 14)):
            c = r.random()
            name = r.randrange(3)
            if c < .25 or not ops:
                ops.append(["publish", name, r.choice(["lfs", "plain", "almost", "empty"]),
                            r.choice([5, 300, 9000, 40000]), r.randrange(999)])
                continue
            if c < .3:
                ops.append(["restart"])
                continue
            net = [r.choice([["none"]] * 4 + [["connect"], ["status", r.choice([404, 503])],
                                              ["cut", round(r.random(), 2)], ["timeout"]])
                   for _ in range(2)] if r.random() < .6 else []
            disk = [[r.randrange(12), r.choice(DISK)] for _ in range(r.choice([0, 1, 1, 2]))]
            ops.append(["get", name, r.random() < .3, net, disk,
                        [r.choice([0, .5, 1]), r.choice([0, .3, 1])]])
        return {"ops": ops}

    def run(self, ctx, plan):
        with scratch() as d:
            cache = os.path.join(d, "cache")
            os.mkdir(cache)
            server = Server(ctx)
            held = {}                   # name -> complete contents that may be in the cache
            past = {}
            fs, mod = None, None
            for op in plan["ops"]:
                if op[0] == "publish":
                    v = np.random.RandomState(op[4]).bytes(op[3])
                    if op[2] == "empty":
                        v = b""
                    if op[2] == "almost":
                        v = b"version https://git-lfs.github.com is not a pointer" + v
                    server.files[NAMES[op[1]]] = (v, op[2] == "lfs")
                    past.setdefault(NAMES[op[1]], set()).add(v)
                    ctx.op("publish", op[2])
                elif op[0] == "restart":
                    mod = None
                    ctx.op("restart")
                else:
                    if mod is None:
                        mod = self.load()
                    outcome = self.get(ctx, op, mod, server, d, cache, held, plan)
                    if outcome == "partial":
                        ctx.op("partial")
                        return

    @staticmethod
    def load():
        path = os.path.join(REPO, "examples", "common", "asset_downloader.py")
        spec = importlib.util.spec_from_file_location("asset_downloader", path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        return mod

    def get(self, ctx, op, mod, server, d, cache, held, plan):
        _, which, force, net, disk, loss = op
        name = NAMES[which]
        path = os.path.join(cache, "datoviz", "data", name)
        was = self.read(path)
        server.faults, server.hit, n = [list(f) for f in net], [], server.requests
        requests = types.ModuleType("requests")
        requests.get = server.get
        requests.exceptions = types.SimpleNamespace(RequestException=NetError)
        requests.RequestException = NetError
        dirs = types.ModuleType("platformdirs")
        dirs.user_cache_dir = lambda *a, **k: os.path.join(cache, *[str(x) for x in a[:1]])
        saved = {m: sys.modules.get(m) for m in ("requests", "platformdirs")}
        sys.modules.update(requests=requests, platformdirs=dirs)
        fs = SimFS(ctx, d, dict(disk), names=[os.path.basename(x) for x in NAMES])
        got, error, outcome = None, None, "ok"
        try:
            with fs, contextlib.redirect_stdout(io.StringIO()):
                got = mod.download_data(name, force) if force else mod.download_data(name)
        except SimCrash:
            outcome = "died"
        except Exception as e:
            error, outcome = e, "raised"
        finally:
            for m, x in saved.items():
                if x is None:
                    sys.modules.pop(m, None)
                else:
                    sys.modules[m] = x
        if fs.dead:
            outcome = "died"
            if fs.dead == "power":
                fs.power_loss(*loss)
        now = self.read(path)
        new = server.files.get(name, (None, 0))[0]
        where = f"{op}: {outcome} ({fs.hit}, {server.hit})"
        ctx.op("get", outcome)
        ctx.state(outcome, [h[0] for h in fs.hit], [h[0] for h in server.hit], was is None)
        # whatever happened, the file is complete
        ok = {was, new} if new is not None else {was}
        if fs.dead == "power" and was is not None:
            ok |= held.get(name, set())
        if fs.dead == "power" and name in held:
            ok |= {None} if None in held[name] else set()
        if now not in ok and outcome != "ok" and server.requests > n and new is not None \
                and now is not None and new.startswith(now) and not plan.get("strict"):
            # Listed in known_findings.json: download_data() writes the file in place, so a
            # download that fails or dies leaves its beginning.  Nothing can be said about
            # this cache any more.
            return "partial"
        if now not in ok:
            raise Violation("incomplete", f"{where}: the cache holds "
                            f"{'nothing' if now is None else f'{len(now)} bytes'} for an asset of "
                            f"{'?' if new is None else len(new)} bytes")
        if outcome == "ok":
            hard = [h for h in server.hit]
            ctx.check(os.path.abspath(str(got)) == os.path.abspath(path), "wrong-path",
                      f"{where}: {got}")
            if was is not None and not force:
                ctx.check(now == was, "cache-ignored", f"{where}: a cached file changed")
                ctx.check(server.requests == n, "cache-ignored", f"{where}: downloaded again")
            else:
                ctx.check(not hard, "error-swallowed", where)
                ctx.check(new is not None and now == new, "not-downloaded",
                          f"{where}: returned without the asset")
        elif outcome == "raised":
            if not fs.hit and not server.hit and new is not None:
                raise error
        # what a later power failure may bring back
        if now != was or outcome == "ok":
            held.setdefault(name, {None}).update({now, was})
        # no other asset is concerned
        for other in NAMES:
            if other != name and not fs.dead:
                p = os.path.join(cache, "datoviz", "data", other)
                c = self.read(p)
                ctx.check(c is None or c in held.get(other, ()), "other-changed", other)

    @staticmethod
    def read(path):
        if not os.path.isfile(path):
            return None
        with open(path, "rb") as f:
            return f.read()


CHECK = C25()
