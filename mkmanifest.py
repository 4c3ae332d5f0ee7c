#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, plan.py and the notes below"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from plan import PLAN, LEVEL
TECH = {
    "C01": "runtime monitor: reference dictionary, call by call",
    "C02": "runtime monitor: model deque compared with every iterator step",
    "C03": "runtime monitor: differential (bulk vs incremental vs model), then shared history",
    "C04": "runtime monitor: reference set and union, step by step",
    "C05": "runtime monitor: live cursors vs nearest-key queries on a model",
    "C06": "runtime monitor: aggregates recomputed from entries, root and every subtree",
    "C07": "runtime monitor: positions and ranks vs model indices",
    "C08": "runtime monitor: group answers vs a scan of the model",
    "C09": "AddressSanitizer, Miri, MemorySanitizer, std UB checks over hostile workloads",
    "C10": "runtime monitor: ownership ledger and heap balance; AddressSanitizer, Miri",
    "C11": "runtime monitor: two models after cloning; AddressSanitizer",
    "C12": "ThreadSanitizer, Miri data-race detection, comparison of concurrent with serial answers",
    "C13": "runtime monitor: metered user calls per operation vs bound; shape by visitor",
    "C14": "fault injection at every user call, ledger and model audit after each panic",
    "C15": "runtime monitor: counting allocator vs bound after every operation",
    "C16": "AddressSanitizer, Miri, ledger and watchdog under misbehaving user code",
    "C17": "runtime monitor: differential against a freshly built equal collection",
    "C18": "runtime monitor: transcript of visitors and searches vs the entries",
    "C19": "runtime monitor: counters vs reconstruction from observed shapes",
    "C20": "runtime monitor: node store that judges every access, store audit, differential between stores",
}
NOTE = {
    "C12": "Interleavings are those that happened under 2-8 threads; races are judged by happens-before (TSan, Miri), and the types' Send/Sync markers by compilation.",
    "C14": "All fault points of an operation are enumerated when few (else sampled), in states reached by random histories.",
    "C13": "Bounds carry a constant factor; a slowdown below that factor is not seen.",
    "C15": "The bound carries a constant factor over nodes a quarter full.",
}
GEN = "Held on the executions observed: random histories, no proof of absence. Trusts the oracle of the harness."
checks = []
for p in sorted(PLAN):
    checks.append({
        "property": p,
        "quick_cmd": f"python3 run.py check {p} --tier quick",
        "thorough_cmd": f"python3 run.py check {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": TECH[p],
        "level": LEVEL.get(p, "exploration"),
        "level_note": (NOTE.get(p, "") + " " + GEN).strip(),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "hooks": {
        "guard": "--cfg sweep_bptree_small_nodes (node capacity 8 instead of 64)",
        "enable": "RUSTFLAGS='--cfg sweep_bptree_small_nodes' for the variants small, plain8, asan8, asanplain8, msan8, tsan8, miri8, miritb8, miriplain8",
        "source_commits": ["7bc9ac75997d55aa71567d6b34c22bc8e2dcce43"],
    },
    "checks": checks,
    "not_applicable": [],
    "notes": "run.py replay <file> runs a recorded witness again; known_findings.txt lists repaired defects.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
