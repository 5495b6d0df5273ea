#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (dst/checks/cNN.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C19": "Pure functions of their arguments: no scheduling, time, I/O, fault or history can "
           "influence them, so there is nothing for a simulator to control.",
    "C20": "A pure conversion of one value: no nondeterminism, state or fault to simulate. "
           "(Data types that occur in sessions are exercised by C05-C07 all the same.)",
    "C21": "A pure data structure without history, time, I/O or parties; simulation has no "
           "decision to make.",
    "C22": "A pure parser; the input alone decides the result.",
}
NOTE = {
    "C01": "Seeded client sessions against a reference model of the log written from the protocol; clock jumps, clock errors, failing calls. Bounded sessions (30 calls).",
    "C02": "Seeded histories of calls, queue look-ups, toggles and empties against a small model of named queues. Bounded histories.",
    "C03": "Seeded histories of sessions with id gaps replayed into fresh and used nodes (crash and restart), registry checked after every step.",
    "C04": "Seeded schedules of 2-4 real threads that a simulated scheduler switches at source lines of gsp; locks simulated. Not exhaustive; line, not bytecode, granularity.",
    "C05": "Every file operation of a save goes through a simulated file system with errors, short writes, full disk, crash and power loss at seeded operations; restart and load. POSIX rename/fsync model.",
    "C06": "Seeded files (intact, truncated, flipped, malformed, short reads, read errors) loaded into seeded prior states; state compared before and after.",
    "C07": "Seeded programs executed directly on the backend and recorded, saved, restarted, loaded and replayed; images compared exactly. Real matplotlib (Agg).",
    "C08": "Seeded sessions replayed with an injected failure at a seeded command or backend call, then retried; state, order and images compared.",
    "C09": "Seeded sessions run several times among saves, resizes and recordings; executed commands, queues, dumps and images compared.",
    "C10": "Seeded histories of writes through arrays, views, accessors and derived arrays against a mirror fed only by notifications.",
    "C11": "As C10 with seeded upload failures (before, during and after being applied); dirty region compared with the real difference.",
    "C12": "Seeded histories of writes to used and unused arrays; the recorded log is cut at every command (client crash) and replayed by an independent interpreter.",
    "C13": "Seeded resize histories (coalesced, repeated, late events) against an executable model of the specification of viewports.",
    "C14": "Seeded histories of data changes, renders and resizes against a display model; artists read back from the axes.",
    "C15": "As C14 with several viewports and canvases; every render or resize must leave all other viewports as the model has them.",
    "C16": "Seeded faults at call boundaries inside renders (numpy, matplotlib, converters, bad data), then retries, changes and resizes against the display model.",
    "C17": "Seeded histories of resizes, renders and exports over a simulated file system with I/O faults; snapshot compared with an undisturbed twin node.",
    "C18": "Seeded pointer streams with loss, duplication, coalescing and reordering against an independent rotation model.",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if os.path.exists(os.path.join(HERE, "dst", "checks", pid.lower() + ".py")):
            checks.append({
                "property": pid,
                "quick_cmd": f"./run.sh {pid} quick",
                "thorough_cmd": f"./run.sh {pid} thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": "deterministic simulation with fault injection",
                "level": "exploration",
                "level_note": NOTE[pid]})
        else:
            na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
    doc = {"version": 1, "setup_cmd": "/bin/true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam (clock, files, locks and threads, events, "
                    "backend calls, array mirror) is substituted from outside, see DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
