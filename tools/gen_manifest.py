#!/usr/bin/env python3
"""Writes MANIFEST.json. The list of claimed properties is here."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
OPS = "seeded search over operation and fault histories of the real library in one process (workers, solution bus, simulated disk), judged step by step by an executable reference model and independent f64 geometry; every failure has its seed and a ddmin-minimised trace as replay file"
CLI = "seeded search over system-call, clock, entropy and crash faults injected into the real command-line binary through an LD_PRELOAD seam with a simulated clock, rayon replaced by a seeded scheduler; outputs judged against an undisturbed run and independent oracles"
PAR = "seeded search over thread interleavings: real code on a baton scheduler (one runnable thread, seeded switch points at every allocation), rayon-core replaced by a seeded deterministic stand-in"
C = {
 "C01": (OPS, "exploration", "bounded random histories; verdicts within the rounding band of the border (4e-4 relative) are not judged"),
 "C02": (OPS, "exploration", "compared with a layout rebuilt from the public content after every step"),
 "C03": (OPS, "exploration", "for circles, edges and rectangles only hazards whose border meets them are required"),
 "C04": (OPS, "exploration", "all cells compared with an independent f64 computation"),
 "C05": (OPS, "exploration", "snapshots, restores, clones and bin changes in random histories"),
 "C06": (OPS, "exploration", "solutions from clones, from disk and incremental ones included"),
 "C07": (OPS, "exploration", "accounting re-derived from the layouts after every step"),
 "C08": (OPS, "exploration", "strip packing only; items within the rounding band of the new border are not judged"),
 "C09": (PAR, "exploration", "2 to 4 threads, each on its own clone; every observation compared with the same history run alone; interleavings at allocation granularity, sequentially consistent memory"),
 "C10": (PAR, "exploration", "rayon's splitting and stealing decided by the seed, pool sizes 1 to 64; result compared with the sequential parse and with the JSON itself in f64"),
 "C11": (CLI, "exploration", "bytes compared with an undisturbed run; the optimiser as a library compared by content"),
 "C12": ("seeded search over optimiser histories (solve, partial fills, removals, restarts from file, restores) with hostile random streams, plus the real command-line binary with simulated entropy; the written positions are judged against the raw input polygons in f64", "exploration", "overlaps thinner than the rounding band (4e-4 relative) are not judged"),
 "C13": (CLI, "exploration", "faults on every open, mkdir and write of the output files; close errors and machine crashes are not modelled (the program never syncs)"),
 "C14": (CLI, "exploration", "short, interrupted, failing and prematurely ending reads, and stored damage that makes the JSON invalid or drops required keys"),
 "C16": (CLI, "exploration", "simulated monotonic and wall clocks, slow I/O, clock jumps"),
 "C17": ("seeded search over optimiser histories with hostile random streams (extremes, repeats, sparse generator states), budgets counted in samples and random draws, left-out items re-examined by independent sampling, bounded-time watchdog", "exploration", "items left out are judged only where missing them by chance is practically impossible (below e-40)"),
 "C18": (CLI, "exploration", "process kill at any intercepted system call, incl. in the middle of a write; rerun on what is left"),
 "C15": (OPS, "exploration", "simulated disk with torn and lost writes, process restart"),
}
NA = {
 "C19": "pure function of one polygon and one tolerance: no schedule, clock, I/O, crash point or history can influence it, so there is nothing for a simulator to control",
 "C20": "pure function of one polygon and a configuration, computed once at parse time: nothing for a simulator to schedule or fault (its effect on verdicts is judged by C01)",
 "C21": "pure arithmetic on values without state, time, concurrency or I/O",
}
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "true",
 "checks": [
  {"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
   "evidence_file": f"evidence/{p}.json", "technique": C[p][0], "level": C[p][1], "level_note": C[p][2]}
  for p in props if p in C],
 "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in C],
}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
