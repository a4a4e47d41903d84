#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/props.py."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS
TECH = {
    "C01": "deterministic simulation: seeded thread schedules over instrumented memory accesses, solo-call oracle",
    "C02": "deterministic simulation: nested calls and thread death at seeded accesses, solo-call oracle",
    "C03": "deterministic simulation: write-protected operands as injected fault, solo-call oracle",
    "C04": "deterministic simulation: seeded allocation failures in histories of solver calls, retry oracle",
    "C05": "deterministic simulation: seeded memory environments (fills, strides, guard pages), solo-call oracle",
    "C06": "deterministic simulation: seeded call histories, first-call-in-process oracle",
    "C07": "deterministic simulation: seeded order of static initialisers of multi-unit programs, documented values as oracle",
    "C08": "deterministic simulation: scripted generator streams and caller interleavings, range and reach oracle",
    "C09": "deterministic simulation: degenerate generator streams with recovery, validity and bounded-draws oracle",
    "C10": "deterministic simulation: seeded histories with re-seeding, draw accounting and fresh-process oracle",
    "C11": "deterministic simulation: walker histories with checkpoint, crash and restore, long double reference model",
    "C12": "deterministic simulation: point streams with loss, duplication, reordering, partition and rebuild; reference model",
    "C13": "deterministic simulation: followers under a faulty clock and retargeting, per-update and convergence oracle",
    "C14": "deterministic simulation: animations under a faulty clock, envelope and monotonicity oracle",
    "C15": "deterministic simulation: orientation replicas with fail-over and batching, long double reference model",
    "C16": "deterministic simulation: transform histories with rollback and undo, long double reference model",
    "C17": "deterministic simulation: matrix mutation histories, recomputed classification as oracle",
    "C18": "deterministic simulation: motion, merge, clip and conversion histories of bounding volumes with undo and crash, exact interval reference model",
    "C25": "deterministic simulation: accumulators and inputs under a faulty clock with crash and restore, exact reference model",
    "C19": "deterministic simulation: heading replicas with fail-over, crash and restore, long double reference model",
    "C22": "deterministic simulation: curves split and splines rebuilt from an unreliable way point stream, long double reference model",
    "C24": "deterministic simulation: light replicas in three colour spaces with crash and rebuild, exact reference model",
    "C26": "deterministic simulation: moving camera with crash and restore, long double culling oracle",
    "C21": "deterministic simulation: projectiles in arbitrary time slices among moving bodies, long double geometric oracle and exactly-once check over the slices",
    "C23": "deterministic simulation: implicit conduction histories with link faults, shuffled equations, crash and restore; residual and conservation oracle",
    "C27": "deterministic simulation: journalled typed cells with torn records, crash and restore, exact element reference",
    "C29": "deterministic simulation: key-framed cameras on a faulty clock with crash and restore, long double arc oracle",
    "C30": "deterministic simulation: populations of vectors stepped through seeded histories with crash and restore, long double step oracle",
    "C31": "deterministic simulation: populations of general matrices stepped through seeded histories with crash and restore, long double element oracle",
    "C20": "deterministic simulation: populations of general quaternions stepped through seeded histories with crash and restore, long double element oracle",
    "C32": "deterministic simulation: seeded histories of in-place steps over shared cells with seeded coincidence of operands, crash and restore; bitwise comparison with the same step on separate copies",
    "C33": "deterministic simulation: seeded histories of panels on a faulty clock, crash and restore; long double curves, mirrored and halved replicas",
}
NOTE = "Seeded sampling, not exhaustive; replays are exact. Real library code compiled from /repo's working tree; the environment (scheduler, allocator, entropy, memory, clock, delivery) is simulated. Trusts the simulator, the reference models' tolerances and the compiler."
NA = {
    "C28": "test-support predicate on one pair of values: no schedule, clock, fault or history for a simulator to decide",
}
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every seam is at the compiler, linker or libc boundary. Known findings and repairs: known-findings.jsonl."}
for l in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration", "level_note": PROPS[i].get("note", "") + NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "claimed in principle; its simulator is not built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
