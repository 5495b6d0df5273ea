"""Tests of the machinery itself: ./run.sh selftest

- every check repeats its runs exactly, in one process and in another one with
  another hash seed and after other runs;
- plans do not change while they are executed;
- the minimiser keeps a violation and drops what it does not need;
- a failure injected at every possible call is reported as injected.
"""
import copy
import json
import os
import subprocess
import sys

from . import sim
from .observe import CallFaults, reaches
from .sim import Check, SimFault, Violation

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(pid):
    import importlib
    return importlib.import_module(f"dst.checks.{pid.lower()}").CHECK


def repeatable(pid, n=12):
    check = load(pid)
    check.setup()
    first = {}
    for i in range(n):
        plan = sim.make_plan(check, sim.seed_of(check, 9, i), "quick")
        kept = copy.deepcopy(plan)
        v, ctx, err = sim.execute(check, plan)
        assert not err, err
        assert v is None, (pid, i, v)
        assert plan == kept, f"{pid}: plan {i} was changed while it ran"
        first[str(i)] = ctx.digest()
    for i in reversed(range(n)):
        plan = sim.make_plan(check, sim.seed_of(check, 9, i), "quick")
        _, ctx, _ = sim.execute(check, plan)
        assert ctx.digest() == first[str(i)], f"{pid}: run {i} differs when repeated"
    r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "digests", pid, "quick",
                        "9"] + [str(i) for i in range(n)], capture_output=True, text=True,
                       env=dict(os.environ, PYTHONHASHSEED="31337"))
    assert json.loads(r.stdout.strip().splitlines()[-1]) == first, f"{pid}: another process"


class Toy(Check):
    """Violated as soon as 3 and 5 occur in this order."""
    id = "TOY"

    def plan(self, r, tier):
        return {"ops": [["n", r.randrange(9)] for _ in range(40)]}

    def run(self, ctx, plan):
        seen = False
        for _, n in plan["ops"]:
            ctx.op("n", n)
            if n == 3:
                seen = True
            if n == 5 and seen:
                raise Violation("toy", "3 before 5")


def minimises():
    toy = Toy()
    done = 0
    for i in range(50):
        plan = sim.make_plan(toy, sim.seed_of(toy, 1, i), "quick")
        v, _, _ = sim.execute(toy, plan)
        if v is None:
            continue
        small, _ = sim.shrink(toy, plan, v.kind)
        assert small["ops"] == [["n", 3], ["n", 5]], small
        assert sim.execute(toy, small)[0].kind == "toy"
        done += 1
    assert done > 10


def faults_reach():
    """Each failing call of a render is reported as it was injected."""
    from . import scene
    from .node import Node, SimClock, close_figures
    fired = set()
    for n in range(0, 400, 7):
        with Node(clock=SimClock()) as node:
            s = scene.Scene(node, "mpl")
            s.apply(["canvas", 0, 40, 30, 50])
            s.apply(["viewport", 0, 0, ["int", 0], ["int", 0], ["num", 1.0], ["num", 1.0],
                     ["color", [1, 1, 1, 1], "tuple"]])
            s.apply(["array", 0, "vec3", 3, 1])
            s.apply(["visual", 0, "Points", ["arr", 0], ["num", 3.0],
                     ["color", [1, 0, 0, 1], "tuple"], ["color", [1, 0, 0, 1], "tuple"],
                     ["num", 1.0]])
            cf = CallFaults(n, lambda: SimFault("injected"))
            try:
                with cf:
                    s.apply(["render", 0, 0, [["e", "f8"]] * 3])
            except SimFault as e:
                assert reaches(e, cf.error)
                fired.add(cf.fired)
        close_figures()
    assert len(fired) > 10, fired
    return len(fired)


def main(args):
    from .checks import __path__ as where
    ids = args or sorted(f[:3].upper() for f in os.listdir(where[0]) if f.startswith("c"))
    minimises()
    print("minimiser ok")
    print("call faults ok,", faults_reach(), "places")
    for pid in ids:
        repeatable(pid)
        print(pid, "repeatable")
    return 0
