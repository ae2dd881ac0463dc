#!/usr/bin/env python3
"""Writes MANIFEST.json. Claimed: the properties the simulator has a world for."""
import json, sys
CLAIMED = sys.argv[1].split(",") if len(sys.argv) > 1 else ["C%02d" % i for i in range(1, 21) if i != 18]
BASE = ("Seeded search over operation histories, schedules, enumeration orders and fault sequences; "
        "a clean run is evidence for the sampled executions, not proof. Trusts the instrumenter, the simulated "
        "sync/os packages and the reference model. ")
NOTE = {
 "C01": "Fault sequences on in-memory storages (one-by-one, batch, both) and on the file store below a simulated disk, with crashes and power losses; storage content compared with an explicit reference after every operation.",
 "C02": "Rejections at chosen storage calls; accepted changes must be the oldest pending ones, in order, each once. For the file store the visible content must be a prefix of the pending changes applied to the old content.",
 "C03": "Failing storage calls, loads, saves and file operations; errors must be returned exactly when storage failed; decisions, switching of tracking and later changes are checked afterwards.",
 "C04": "Autosave, wait, tracking, adapter and model changes; each storage call is checked against the mode.",
 "C05": "A fault, crash or power loss at a chosen file system call of each save or change; the disk model loses unsynced data and unsynced directory entries, and tears writes.",
 "C06": "Unusual values, chains of changes, short reads and partial read errors.",
 "C07": "Files damaged at one place. The rule 'every undamaged line was loaded' is only decided for files without quoted values; for the others no panic, no hang, later use.",
 "C08": "Matchers generated from a grammar and evaluated rule by rule by an independent evaluator; histories of changes, clears, loads, failures and restarts.",
 "C09": "Every query is repeated under several enumeration orders chosen by the simulator.",
 "C10": "User functions, role managers, effectors and rule expressions that fail at a chosen call. Whether a failing part is evaluated at all may depend on the evaluation order; only observed failures count.",
 "C11": "2 to 4 threads, scheduling points at every statement, happens-before checks of built-in maps; results compared with the same queries run alone.",
 "C12": "Callbacks that stop at a chosen call, and callbacks and matcher functions that issue nested queries. Role-matching functions registered on a role manager may not query the same role manager (documented exclusion).",
 "C13": "Grant histories against a reference graph; pattern names, domain patterns, enumeration orders. Excludes overlapping patterns of patterns and domains of mixed depth.",
 "C14": "2 to 4 threads on one role manager; histories checked for linearizability against a reference graph.",
 "C15": "2 to 4 threads on one cache; histories checked for linearizability against a reference LRU.",
 "C16": "Histories with similar and malformed rules, clears, listeners that come and go; every announcement compared with the reference.",
 "C17": "Queries repeated many times; enumerations and the simulated cost (steps) of probe operations must not change.",
 "C19": "Histories of definitions with printing, restarting from the text and comparing definitions, text and decisions with a reference. Matchers come from a grammar with unusual texts.",
 "C20": "The same histories with unknown, removed and malformed names. Matchers which were built before the definition they use was replaced are not judged until they are built again.",
}
checks = []
for p in CLAIMED:
    checks.append({
        "property": p,
        "quick_cmd": "./check %s quick" % p,
        "thorough_cmd": "./check %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "deterministic simulation with fault injection (seeded search, replayable)",
        "level": "exploration",
        "level_note": BASE + NOTE[p],
    })
NA = {
 "C18": "A pure function of two strings: no schedule, clock, I/O, storage, fault or history for a simulation to control. Deciding it would need input generation against a reference matcher, a different technique.",
}
na = [{"property": p, "reason": r} for p, r in sorted(NA.items())]
for i in range(1, 21):
    p = "C%02d" % i
    if p not in CLAIMED and p not in NA:
        na.append({"property": p, "reason": "The check is being built (see DESIGN.md)."})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks instrument a copy of the current sources through go build -overlay. known_findings.txt lists repaired defects."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
