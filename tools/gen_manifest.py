#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
AI = "abstract interpretation of go/ssa"
TRUST = "Trusts the Go type checker, go/ssa and the library models listed in the evidence; what the analysis cannot settle is listed there as undecided and is not an alarm."
checks = {
 "C01": (AI + " (symbolic ranges and linear facts at every panicking instruction)", "Every index, slice, division, shift, allocation, nil dereference, assertion, panic and raw memory access reachable from every shipped client is proved in bounds for arbitrary arguments (DAG coins: the first 50,000 epochs; arbitrary disk contents). " + TRUST),
 "C02": (AI + " (facts that hold at every return)", "All outcomes for slices of any length are covered. " + TRUST),
 "C06": (AI + " (nilness and length of results per outcome)", "All outcomes for arbitrary arguments are covered. " + TRUST),
 "C17": ("symbolic loop summaries and constant propagation over go/ssa", "All 50,000 epochs of all five DAG configurations: ranges of epochs by a symbolic loop summary, table entries by constant propagation against an independent computation. " + TRUST),
 "C18": ("constant propagation through the constructors against a table of published parameters", "Covers configuration fields; constants inside the algorithms are covered by C09, C22 and C24 where claimed. " + TRUST),
 "C22": (AI + " (constant propagation per height interval, read off the symbolic digest)", "All 2^64 heights in 73 intervals. " + TRUST),
 "C10": ("lockset and typestate analysis over " + AI, "Every access to goroutine-shared memory in GetCache (arbitrary history, with its goroutine) and in every Compute/Verify. " + TRUST),
 "C07": ("points-to and effect analysis over " + AI, "All entry points, arbitrary slices with arbitrary capacity; escapes via client, package variables and goroutines. " + TRUST),
 "C08": ("non-interference by data and control provenance over " + AI, "All entry points; memory written across calls is replaced by arbitrary contents labelled as history and the call analysed again. " + TRUST),
 "C11": (AI + " (value analysis of epochs, seeds, sizes and file names)", "All outcomes of GetCache for arbitrary epoch and history, and of every Compute of a DAG coin. The digest's dependency closure is not available for the ProgPow coins (loops are not unrolled there); their calls are still checked. " + TRUST),
 "C12": ("typestate analysis over " + AI, "Every path of Compute and of cache generation. " + TRUST),
 "C13": ("typestate analysis over " + AI, "Every path of cache generation with every combination of failing file operations. Durability rests on the documented behaviour of flush and rename. " + TRUST),
 "C14": (AI + " (path facts at the use of file data)", "Arbitrary file contents and sizes. " + TRUST),
 "C15": ("typestate and completeness analysis over " + AI, "Every combination of failing storage operations. " + TRUST),
 "C16": (AI + " (symbolic file names)", "Arbitrary names, revisions and epochs; the shipped names by constant propagation. " + TRUST),
 "C21": ("lock typestate and lock-order analysis over " + AI, "Every path of GetCache, its goroutine and every Compute/Verify. " + TRUST),
 "C23": (AI + " (cardinality of the retained set)", "Arbitrary history and any set within the bound; the eviction order is not covered. " + TRUST),
 "C19": (AI + " per GOARCH, and of the assembler's listing for the assembly kernels, over one abstract memory", "Every file set Go's platform list selects; all slice lengths up to the bound in the evidence, arbitrary bytes, each argument also aliased with the destination. " + TRUST),
 "C04": (AI + " collecting path conditions; membership in the GF(2) span of the path's bit equations, order facts", "Arbitrary header and solution, all five parameter sets, the whole tree unrolled; independence of hash bits is assumed. " + TRUST),
 "C05": (AI + " collecting path conditions; membership in the GF(2) span of the path's bit equations, order facts", "Arbitrary header and solution, the whole tree unrolled; mixed words are uninterpreted apart from value numbering. " + TRUST),
 "C24": ("global value numbering against an independent reference implementation, with random interpretation of unproved differences", "Arbitrary inputs; equal value numbers are a proof for all of them. ProgPoW at sample heights, eaglesong at sample lengths, octopus at sample nonce residues (listed in the evidence); where value numbers differ but agree under random interpretation the evidence says so. " + TRUST),
}
na = {}
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        t, n = checks[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "evidence_file": f"evidence/{i}.json", "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no check has been built for it yet")})
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
