#!/usr/bin/env python3
"""check.py <ID> [quick|thorough] | replay <file> | one <ID> <seed> | selftest

Exit 0: the property held in every simulated run.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it did not.  Anything else (2: the
machinery could not decide) is an error of the check.
"""
import collections
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from dst import sim, node            # noqa: E402


def load(pid):
    return importlib.import_module(f"dst.checks.{pid.lower()}").CHECK


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["known"] if k["property"] == pid]


def confirm(path):
    """Does the replay file reproduce its violation in a fresh process?"""
    env = dict(os.environ, PYTHONHASHSEED="77")
    r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "replay", path],
                       env=env, capture_output=True, text=True, timeout=300)
    return r.returncode == 1, r.stdout + r.stderr


def child(task, conn):
    try:
        out = sim.worker(task)
    except BaseException:
        import traceback
        out = dict(sim.EMPTY(), errors=[("worker", traceback.format_exc())])
    conn.send(out)
    conn.close()
    os._exit(0)


def work(tasks, jobs, deadline):
    """Run each task in a process of its own; yields results as they come.

    A process that dies or says nothing until the deadline yields None.
    """
    ctx = multiprocessing.get_context("fork")
    todo = list(reversed(tasks))
    running = {}                    # connection -> process
    try:
        while todo or running:
            while todo and len(running) < jobs:
                mine, theirs = ctx.Pipe(False)
                p = ctx.Process(target=child, args=(todo.pop(), theirs), daemon=True)
                p.start()
                theirs.close()
                running[mine] = p
            ready = multiprocessing.connection.wait(
                list(running), max(0.0, deadline - time.monotonic()))
            if not ready:
                yield None
                return
            for conn in ready:
                try:
                    out = conn.recv()
                except EOFError:
                    out = None
                running.pop(conn).join()
                conn.close()
                yield out
    finally:
        for conn, p in running.items():
            p.kill()
            p.join()
            conn.close()


def main_check(pid, tier):
    check = load(pid)
    check.setup()
    base = int(os.environ.get("VERIF_SEED", "1") or 1)
    runs = int(os.environ.get("VERIF_RUNS", 0)) or getattr(check, tier)
    limit = float(os.environ.get("VERIF_LIMIT_S", 240 if tier == "quick" else 7200))
    jobs = int(os.environ.get("VERIF_JOBS", 0)) or min(8, os.cpu_count() or 1)
    start = time.monotonic()
    deadline = start + limit
    evidence = os.path.join(HERE, "evidence", f"{pid}.json")
    if os.path.exists(evidence):
        os.unlink(evidence)

    batch = max(4, min(200, runs // (jobs * 4) or 1))
    tasks = [(check, base, list(range(i, min(i + batch, runs))), tier, deadline)
             for i in range(0, runs, batch)]
    total = dict(runs=0, errors=[], faults=collections.Counter(),
                 ops=collections.Counter(), states=set(), sigs=set(), events=0,
                 sim_time=0.0, digests={}, samples=[])
    viols = []
    for out in work(tasks, jobs, deadline + 120):
        if out is None:
            print(f"ERROR property={pid}: a worker gives no answer")
            return 2
        for k in ("runs", "events", "sim_time"):
            total[k] += out[k]
        for k in ("faults", "ops"):
            total[k] += out[k]
        for k in ("states", "sigs"):
            total[k] |= out[k]
        total["digests"].update(out["digests"])
        total["errors"] += out["errors"]
        total["samples"] += out["samples"]
        if out["viol"]:
            viols.append(out["viol"])
        if viols or len(total["errors"]) > 5:
            break

    known = known_findings(pid)
    wall = time.monotonic() - start
    status, lines = 0, []
    replay = None
    if viols:
        viols.sort(key=lambda v: v[0])
        index, seed, kind, msg, plan = viols[0]
        small, tried = sim.shrink(check, plan, kind)
        replay, v = sim.write_replay(check, seed, small, len(plan.get("ops", ())))
        ok, text = confirm(replay)
        if not ok:
            replay, v = sim.write_replay(check, seed, plan, len(plan.get("ops", ())))
            ok, text = confirm(replay)
        if not ok:
            print(f"ERROR property={pid}: seed {seed} violated ({msg}) but its replay "
                  f"does not reproduce it:\n{text}")
            return 2
        print(f"seed {seed}: {msg}")
        print(f"minimised to {len(small.get('ops', ()))} operations of "
              f"{len(plan.get('ops', ()))} in {tried} executions; message: {v}")
        lines.append(f"VIOLATION property={pid} replay={replay}")
        status = 1
    elif total["errors"]:
        for seed, err in total["errors"][:2]:
            print(f"ERROR property={pid} seed={seed}\n{err}")
        return 2
    elif total["runs"] == 0:
        print(f"ERROR property={pid}: nothing was run")
        return 2

    # Same seeds again, in another process with another hash seed: same run?
    again = sorted(total["digests"])[: 6 if tier == "quick" else 40]
    repeated = 0
    if status == 0 and again:
        env = dict(os.environ, PYTHONHASHSEED="4242")
        r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "digests", pid,
                            tier, str(base)] + [str(i) for i in again],
                           env=env, capture_output=True, text=True, timeout=600)
        got = json.loads(r.stdout.strip().splitlines()[-1]) if r.returncode == 0 else {}
        bad = [i for i in again if got.get(str(i)) != total["digests"][i]]
        if bad:
            print(f"ERROR property={pid}: runs {bad} are not repeatable\n{r.stderr[-2000:]}")
            return 2
        repeated = len(again)

    wall = time.monotonic() - start
    cov = {
        "evaluations": total["runs"],
        "distinct_nontrivial": len(total["sigs"]),
        "rule": check.rule + " A run counts as non-trivial if it executed at least two "
                "operations; runs are distinct if their sequences of operations, "
                "outcomes and injected faults (or thread switches) differ.",
        "samples": total["samples"][:2],
        "seeds_per_hour": int(total["runs"] / max(wall, 1e-9) * 3600),
        "events": total["events"],
        "operations": dict(sorted(total["ops"].items())),
        "simulated_seconds": round(total["sim_time"], 3),
        "faults_injected": dict(sorted(total["faults"].items())),
        "distinct_states": len(total["states"]),
        "state_measure": getattr(check, "state_measure", ""),
        "runs_repeated_identically_in_another_process": repeated,
        "real_code": check.real,
        "stubs": check.stub,
        "violations": len(viols),
    }
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    with open(evidence, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": base, "level": check.level,
                   "coverage": cov, "wall_s": round(wall, 2)}, f, indent=1)
    for k in known:
        if check_known(check, k):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for line in lines:
        print(line)
    if status == 0:
        print(f"OK property={pid} runs={total['runs']} distinct={len(total['sigs'])} "
              f"states={len(total['states'])} faults={sum(total['faults'].values())} "
              f"sim={total['sim_time']:.0f}s wall={wall:.1f}s")
    sys.stdout.flush()
    return status


def check_known(check, entry):
    """A known finding is a plan that is expected to violate as recorded."""
    if "plan" not in entry:
        return True
    v, _, _ = sim.execute(check, entry["plan"])
    return v is not None and v.kind == entry["violation"]


def main_replay(path):
    with open(path) as f:
        doc = json.load(f)
    check = load(doc["property"])
    check.setup()
    v, ctx, err = sim.execute(check, doc["plan"], keep=True)
    if err:
        print(err)
        return 2
    if v is None:
        print(f"NOT REPRODUCED: expected {doc['violation']}")
        return 0
    print("\n".join(list(ctx.events)[-40:]))
    print(v)
    same = v.kind == doc["violation"] and ctx.digest() == doc["digest"]
    print("reproduced exactly" if same else
          f"violates as {v.kind}, the recorded run differs ({doc['violation']})")
    print(f"VIOLATION property={doc['property']} replay={path}")
    return 1


def main_digests(pid, tier, base, indices):
    check = load(pid)
    check.setup()
    out = {}
    for i in indices:
        plan = sim.make_plan(check, sim.seed_of(check, int(base), int(i)), tier)
        _, ctx, _ = sim.execute(check, plan)
        out[str(i)] = ctx.digest()
    print(json.dumps(out))
    return 0


def main_one(pid, seed, tier="quick"):
    check = load(pid)
    check.setup()
    plan = sim.make_plan(check, seed, tier)
    print(json.dumps(plan))
    v, ctx, err = sim.execute(check, plan, keep=True)
    print("\n".join(ctx.events))
    print("violation:", v, "\nerror:", err)
    return 1 if v else 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "replay":
        sys.exit(main_replay(a[1]))
    if a[0] == "digests":
        sys.exit(main_digests(a[1], a[2], a[3], a[4:]))
    if a[0] == "one":
        sys.exit(main_one(*a[1:]))
    if a[0] == "selftest":
        from dst import selftest
        sys.exit(selftest.main(a[1:]))
    sys.exit(main_check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
