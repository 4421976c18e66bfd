#!/usr/bin/env python3
"""Writes MANIFEST.json (run from /verif: python3 tools/mkmanifest.py)."""
import json, subprocess
T = "deterministic simulation with fault injection (seeded search over schedules, deliveries and faults of the real code in one process)"
N = {
 "C01": "Seeded search over image bytes x luminance x delivery and fault plans; every outcome compared with an independent decoder. Trusts the decoder and the libc-level file stub.",
 "C02": "Seeded search over failing calls and allocations in every loader; descriptor table and heap balance compared before and after. Trusts the libc-level file stub and the allocator seam.",
 "C03": "Seeded search over libraries, chunk sizes, cuts and read faults; round trip compared glyph by glyph.",
 "C04": "Seeded search over tables, chunk sizes, cuts, overwrites and read faults; round trip compared row by row.",
 "C05": "Seeded search over word lists, cuts, structural damage and read faults; acceptance compared with the list over members, near-members and enumeration.",
 "C06": "Seeded search over libraries and damage; index compared with an independent record reader.",
 "C07": "Seeded search over tables, tears and replacement texts; compared with independent readers; endless loops found by a step bound.",
 "C08": "Seeded search over fault plans for each tool's real main(); success is compared with the fault-free output and with what was read.",
 "C09": "Seeded search over failing or killed steps of the real learning script and tools in a private directory; artefacts checked against the extractions and against a fault-free run.",
 "C10": "Seeded search over picture histories through reused buffers, including processing cut short by failing allocations; pictures and whole lines, one model or two in turns with reloads; each result compared with a fresh-process result.",
 "C11": "Seeded search over cooperative interleavings at basic-block granularity; sequentially consistent schedules only (no weak-memory effects).",
 "C12": "Seeded search over failing allocation indices inside row additions; table compared with its previous rows and with a never-failing history.",
 "C13": "Seeded search over fault storms and damaged files; work counted in basic blocks and file operations against a bound in the input size.",
 "C14": "Seeded search over environments (clock, read and write splits, heap fill and placement) of one input set; outputs compared byte by byte.",
 "C15": "Seeded search over media that fail or fill up at any byte; medium compared with the healthy prefix.",
 "C16": "Seeded search over damaged files of all kinds; loading and every use run under AddressSanitizer with crash detection.",
 "C17": "Seeded search over histories of loads, reloads and stores with failures; each result compared with the first load of a forked fresh process, all other live objects compared with their recorded contents.",
 "C18": "Seeded search over 23 kinds of work x the failing allocation (drawn among those the work makes, once or for good, or by size); results compared with a fault-free run in a fresh process, read-only objects with their dumps, live memory over repetitions.",
}
NA = {
 "F01": "a pure function of one image: no schedule, time, I/O or fault can influence it, so simulation adds nothing to plain input generation",
 "F02": "a pure function of one image: no schedule, time, I/O or fault can influence it",
 "F03": "a pure arithmetic relation between two values: no schedule, time, I/O or fault can influence it",
 "F04": "a pure function of candidate lists and a word set: no schedule, time, I/O or fault can influence it",
 "F05": "pure functions of one image: no schedule, time, I/O or fault can influence them",
}
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
assert set(props) == set(N) | set(NA), set(props) ^ (set(N) | set(NA))
m = {
 "version": 1,
 "setup_cmd": "python3 tools/build.py",
 "hooks": {"guard": "none", "enable": "no hooks: all seams are at the libc, allocator, streambuf and basic-block level, added by the build in /verif (symbol wrapping and -fsanitize-coverage callbacks)", "source_commits": []},
 "checks": [{"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
             "evidence_file": "evidence/%s.json" % p, "technique": T, "level": "exploration", "level_note": N[p]} for p in props if p in N],
 "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p in NA],
 "notes": "Replay a violation with: build/ppsim replay --file <path>. Fixed defects are listed in known-findings.txt.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
