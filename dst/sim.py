"""Simulation core: plans, contexts, search, shrinking, replay files, evidence.

One seed is one execution.  A check draws a *plan* (plain JSON: configuration,
operations, fault decisions) from a seeded generator and executes it; executing
a plan consults no other source of randomness, time or I/O, so a plan *is* the
schedule and fault trace of its run and replaying it repeats the run exactly.
"""
import collections
import gc
import hashlib
import json
import os
import random
import signal
import sys
import time as _time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property under test does not hold in this run."""

    def __init__(self, kind, msg=""):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class SimFault(Exception):
    """An injected environment error that is an ordinary exception."""


class SimCrash(BaseException):
    """The simulated process dies here; nothing of it runs any more."""


class NoProgress(BaseException):
    """The watchdog ended an execution that does not terminate."""


class Ctx:
    """What one run records: event log, fault counts, states, simulated time."""

    def __init__(self, keep=False):
        self._h = hashlib.sha256()
        self.events = collections.deque(maxlen=None if keep else 60)
        self.n = 0
        self.faults = collections.Counter()
        self.ops = collections.Counter()
        self.states = set()
        self.sig = hashlib.sha256()
        self.sim_time = 0.0

    def ev(self, *items):
        line = " ".join(x if isinstance(x, str) else repr(x) for x in items)
        self._h.update(line.encode() + b"\n")
        self.events.append(line)
        self.n += 1

    def op(self, name, outcome="ok"):
        self.ops[name] += 1
        self.sig.update(f"{name}/{outcome};".encode())
        self.ev("op", name, outcome)

    def fault(self, kind):
        self.faults[kind] += 1
        self.sig.update(f"!{kind};".encode())
        self.ev("fault", kind)

    def state(self, *key):
        self.states.add(hashlib.sha256(repr(key).encode()).digest()[:8])

    def advance(self, dt):
        self.sim_time += abs(dt)

    def digest(self):
        return self._h.hexdigest()

    def check(self, cond, kind, msg=""):
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)


class Check:
    id = None
    title = ""
    level = "exploration"
    quick = 400
    thorough = 20000
    cpu_limit = 30.0
    rule = ""
    real = "every gsp and gsp_matplotlib module of /repo, numpy, matplotlib (Agg)"
    stub = ""

    def plan(self, rng, tier):
        raise NotImplementedError

    def run(self, ctx, plan):
        raise NotImplementedError

    # Shrinking hook: yield simpler plans (beyond dropping operations)
    def simpler(self, plan):
        return iter(())

    def setup(self):
        pass


def seed_of(check, base, index):
    return f"{base}:{check.id}:{index}"


def make_plan(check, seed, tier):
    plan = check.plan(random.Random(seed), tier)
    return json.loads(json.dumps(plan))          # plain data only


def innermost_repo_frame(tb, repo):
    last = None
    for frame in traceback.extract_tb(tb):
        if frame.filename.startswith(repo + os.sep):
            last = f"{os.path.relpath(frame.filename, repo)}:{frame.name}"
    return last


def execute(check, plan, keep=False):
    """Run a plan. Returns (violation or None, ctx, harness_error or None)."""
    from . import node as _node
    ctx = Ctx(keep)
    violation = error = None

    def on_timer(signum, frame):
        raise NoProgress()

    old = signal.signal(signal.SIGPROF, on_timer)
    signal.setitimer(signal.ITIMER_PROF, check.cpu_limit, 1.0)
    try:
        try:
            check.run(ctx, plan)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Violation as v:
        violation = v
    except NoProgress:
        violation = Violation("no-progress",
                              f"execution used more than {check.cpu_limit} s of CPU")
    except Exception as e:          # neither the property nor a known outcome
        where = innermost_repo_frame(e.__traceback__, _node.REPO)
        if where is not None:
            # Raised by the code under test where the harness knows that
            # it has to succeed.
            violation = Violation(f"unexpected-error:{type(e).__name__}:{where}",
                                  f"{type(e).__name__}: {e} (in {where})")
        else:
            error = "".join(traceback.format_exception(e))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        _node.reset()
    if violation is not None:
        ctx.ev("violation", violation.kind)
    return violation, ctx, error


# --------------------------------------------------------------------------
# Shrinking
def shrink(check, plan, kind, budget_s=40.0, budget_n=400):
    """Smallest plan found that violates in the same way."""
    t0 = _time.monotonic()
    n = 0

    def fails(p):
        nonlocal n
        if n >= budget_n or _time.monotonic() - t0 > budget_s:
            return False
        n += 1
        try:
            v, _, err = execute(check, json.loads(json.dumps(p)))
        except BaseException:
            return False
        return v is not None and err is None and v.kind == kind

    def ddmin(p, key):
        items = p[key]
        size = max(1, len(items) // 2)
        while size >= 1 and items:
            i, changed = 0, False
            while i < len(items):
                cand = dict(p, **{key: items[:i] + items[i + size:]})
                if len(cand[key]) < len(items) and fails(cand):
                    p, items, changed = cand, cand[key], True
                else:
                    i += size
            if size == 1 and not changed:
                break
            size = max(1, size // 2) if size > 1 else (1 if changed else 0)
        return p

    changed = True
    while changed:
        before = json.dumps(plan, sort_keys=True)
        for key in [k for k, v in plan.items() if isinstance(v, list)]:
            plan = ddmin(plan, key)
        for cand in check.simpler(plan):
            if fails(cand):
                plan = cand
        changed = json.dumps(plan, sort_keys=True) != before
    return plan, n


# --------------------------------------------------------------------------
# Replay files
def replay_path(check, seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{check.id}-{seed.replace(':', '_')}.json")


def write_replay(check, seed, plan, original_ops):
    v, ctx, err = execute(check, plan, keep=True)
    path = replay_path(check, seed)
    doc = {"property": check.id, "seed": seed, "violation": v.kind if v else None,
           "message": str(v) if v else None, "digest": ctx.digest(),
           "original_ops": original_ops, "plan": plan,
           "events": list(ctx.events)[-400:]}
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path, v


# --------------------------------------------------------------------------
def EMPTY():
    return dict(runs=0, viol=None, errors=[], faults=collections.Counter(),
                ops=collections.Counter(), states=set(), sigs=set(), events=0,
                sim_time=0.0, digests={}, samples=[])


def worker(args):
    """Run a batch of seeds; returns plain data."""
    check, base, indices, tier, deadline = args
    out = EMPTY()
    for k, i in enumerate(indices):
        if _time.monotonic() > deadline:
            break
        seed = seed_of(check, base, i)
        plan = make_plan(check, seed, tier)
        v, ctx, err = execute(check, plan)
        out["runs"] += 1
        out["faults"] += ctx.faults
        out["ops"] += ctx.ops
        out["states"] |= ctx.states
        out["events"] += ctx.n
        out["sim_time"] += ctx.sim_time
        sig = ctx.sig.digest()[:8]
        if sum(ctx.ops.values()) >= 2:
            out["sigs"].add(sig)
        if i % 97 == 0:
            out["digests"][i] = ctx.digest()
        if i < 2:
            out["samples"].append({"seed": seed, "plan": plan,
                                   "events": list(ctx.events)[-25:]})
        if err:
            out["errors"].append((seed, err))
            if len(out["errors"]) > 3:
                break
        if v is not None:
            out["viol"] = (i, seed, v.kind, str(v), plan)
            break
        if k % 10 == 9:
            gc.collect()
    return out
