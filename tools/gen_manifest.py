#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
    "C01": "linearizability of every counter series (per-series histories of updates, creations and scrapes against a wrapping u64)",
    "C02": "linearizability of every integer gauge series against a wrapping i64 cell",
    "C03": "linearizability of every float gauge series against an f64 cell (bit-exact)",
    "C04": "linearizability of every histogram series against (cumulative buckets, count, sum); each scrape must be one state of it",
    "C05": "series identity: every scraped label set is one the run used, once, with the state its own history explains; creation races",
    "C06": "linearizability of histories with removals: each removed state goes to exactly one remover, nothing is lost or resurrected",
    "C07": "interned and limited label sets: one id per value and value per id, refusals only when full, known labels never refused, under racing interning",
    "C08": "strict independent exposition-format parser over every scrape, compared with the expected families, headers, order, labels and values, under hostile names, labels, groups, namespaces and abandoned scrapes",
    "C09": "injected short writes, interruptions, zero writes, errors at chosen calls/bytes and failing flushes: the scrape fails with that first error or its output is complete; output is always a prefix; later scrapes are intact",
    "C10": "independent protobuf decoder over every scrape, compared with the expected families and values, abandoned scrapes included",
    "C11": "injected writer faults under the protobuf encoder: an error is reported, output is a prefix, and later scrapes decode intact",
    "C12": "simulated monotonic and wall clocks: each timer observes exactly its span once, wherever it ends (drop, observe, unwind, forget), across clock jumps",
    "C13": "injected panics at every user callback (Hash, Eq, Default, label and value encoding, writer, groups): panic propagates, everything else stays linearizable and usable",
    "C14": "scrapes stalled for ever inside the writer: every update of an existing series completes; progress once only stalled scrapes remain",
    "C15": "simulated procfs (processes exiting, ids reused, values changing, errors, short, interrupted and malformed reads at every system call): each reported value must be one the kernel exposed to this scrape, of one process, and is left out exactly when its source was troubled",
    "C16": "real tokio runtimes under the simulated scheduler and clock: every scrape must report each registered runtime completely and once per family, with values equal to (or bracketed by) what RuntimeMetrics says; failing and panicking registrations, failing writers, runtime shutdown",
    "C17": "cardinality bounds under concurrency and exact agreement with a scrape at quiescence; no series from lookups",
}
NA = {
    "C18": "pure functions of their arguments: no concurrency, time, I/O, randomness or faults for a simulator to decide; input enumeration would be another technique",
    "C19": "pure validation of one string: no concurrency, time, I/O, randomness or faults for a simulator to decide; input enumeration would be another technique",
}
extra = os.path.join(root, "tools", "claimed.json")
if os.path.exists(extra):
    CLAIMED.update(json.load(open(extra)))
NOTE = ("Seeded sampling of schedules, inputs and fault sequences over the real crates under a deterministic simulator: a violation is a real execution "
        "(replayable from its file); silence is evidence for the explored seeds only. Simulated memory is sequentially consistent; weak-memory "
        "reorderings and spurious compare-exchange failures are not simulated. ")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in CLAIMED:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i} quick",
        "thorough_cmd": f"./check {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: seeded schedule and fault search; oracle: " + CLAIMED[i],
        "level": "exploration",
        "level_note": NOTE,
    })
na = [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids if i not in CLAIMED]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are needed in /repo: the simulator interposes atomics (compiler instrumentation of the unmodified sources), futexes, threads, clocks, allocation and system calls from outside. replay FILE re-executes a recorded violation.",
}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
