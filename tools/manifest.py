#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the table below."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RACE = "; Go race detector"
TECH = {
    "C01": "lockstep model oracle (finite map) over random and hostile histories, instrumented keys",
    "C02": "lockstep model oracle (sorted map) and structural monitor of the nodes",
    "C03": "structural monitor of balance and reported heights after every operation",
    "C04": "snapshot monitor of every version over branching histories" + RACE,
    "C05": "lockstep model oracle (sorted map) over random and hostile histories",
    "C06": "lockstep model oracle (multimap), monitored predicates",
    "C07": "lockstep model oracle for scans and ranges",
    "C08": "lockstep model oracle (map over byte strings)",
    "C09": "lockstep model oracle for ordered iteration and prefix search",
    "C10": "buffer monitors (canaries, mutation after the call)" + RACE,
    "C11": "lockstep model oracle (sequence)",
    "C12": "lockstep model oracle (sorted multiset)",
    "C13": "lockstep model oracle (set, map of entries)",
    "C14": "model oracle (mathematical sets) with operand snapshots",
    "C15": "round-trip oracle and behavioural comparison of the decoded collection",
    "C16": "fault injection in encodings, snapshot monitor of the receiver",
    "C17": "law monitor over value pools against the natural order",
    "C18": "law monitor over container pools with different histories",
    "C19": "lockstep model oracle (priority multiset), conservation",
    "C20": "lockstep model oracle (unique priority queue)",
    "C21": "lockstep model oracle (double-ended queue)",
    "C22": "lockstep model oracle (unique double-ended queue)",
    "C23": "visit-log monitor against reference traversals",
    "C24": "exactly-once and concurrency-limit monitor of stressed pools" + RACE,
    "C25": "barrier monitor over event logs of stressed pools" + RACE,
    "C26": "offline exactly-once check of concurrent draws against the reference stream" + RACE,
    "C27": "trace monitor of generated try/catch/finally programs against a reference interpreter",
    "C28": "trace monitor of generated closing blocks, rethrow and join monitors",
    "C29": "monitor of reports, stacks and log output",
    "C30": "isolation monitor: lockstep models of source and copy",
    "C31": "concurrent readers compared with sequential answers" + RACE,
    "C32": "comparison counters in instrumented keys held to bounds",
    "C33": "monitor of interleaved iterators against the iteration alone and the model",
    "C34": "model oracle for printed text, parser monitor of printed tries and graphs",
    "C35": "law monitor over entries, nodes, containers and strangers",
    "C36": "lockstep model oracles run side by side on separate objects" + RACE,
    "C37": "reachability monitor: weak pointers and heap statistics after forced collections",
    "C38": "argument monitor inside instrumented keys over the histories of other properties",
    "C39": "outcome and output monitor of generated tests in a process of their own; monitor of random data",
    "C40": "hash monitor over groups of values that differ in one place",
    "C41": "allocation counters of the runtime read around each phase of a history",
    "C42": "counters of executed basic blocks, inserted by the compiler, read around each phase of a history",
    "C43": "lockstep with exact models at sizes beyond two bytes",
}
NOTE = ("Every case of a list fixed by VERIF_SEED runs the real library through its public API and is judged by an "
        "independent reference; evidence counts what was executed. No claim beyond the executed histories. Trusted: "
        "the reference in /verif/harness and the Go toolchain.")
RNOTE = (" The schedules are those the Go scheduler produced under the race detector, which reports unsynchronised "
         "accesses of the executed paths whatever their timing.")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "bash check.sh " + i,
        "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH[i],
        "level": "exploration",
        "level_note": NOTE + (RNOTE if RACE in TECH[i] else ""),
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: the harness uses the public API of the library only. Findings and repairs are in KNOWN_FINDINGS.txt and DESIGN.md.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
