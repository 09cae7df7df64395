#!/usr/bin/env python3
"""Write MANIFEST.json from plan.py and properties.jsonl."""
import json, plan
TECH = {
    "C01": "runtime monitoring: online reference-model monitor over random histories",
    "C02": "runtime monitoring: independent root-hash recomputation and commitment table over random histories",
    "C03": "runtime monitoring: independent hash of every witness produced",
    "C04": "runtime monitoring: verifier oracle on serialized key witnesses",
    "C05": "runtime monitoring: gap-free coverage verifier on range, prefix and key-list witnesses",
    "C06": "runtime monitoring: disclosure monitor on witnesses",
    "C07": "runtime monitoring: independent hasher and CBOR codec on generated hash trees",
    "C08": "runtime monitoring: independent byte representations of generated values",
    "C09": "runtime monitoring: independent labels and byte-order oracle on generated key pairs",
    "C10": "runtime monitoring: search-path shape monitor and work counters in instrumented keys and values",
    "C11": "runtime monitoring and sanitizers: AddressSanitizer, Miri (three targets), ownership ledger, allocator balance, compile-escape probes",
    "C12": "runtime monitoring: list model and independent chain hash over random histories",
    "C13": "runtime monitoring: page-layout model and proof verifier over random insertions",
    "C14": "runtime monitoring: differential encoding oracle, and state oracle on decoded valid, permuted and mutated bytes",
    "C15": "runtime monitoring: directory-tree model and disclosure verifier over random groups",
    "C16": "runtime monitoring: digest comparison of recorded results over repeats, processes, builds and architectures (Miri i686, s390x)",
    "C17": "runtime monitoring: fault injection at every callback, with state and ownership oracles",
    "C18": "runtime monitoring: verifier on serialized nested proofs against a nested model",
    "C19": "runtime monitoring: differential run with and without queries",
}
NOTE = {
    "default": "Held on the executions counted in the evidence; trusts the harness's own reference code (self-tested SHA-256 and CBOR), rustc and std.",
    "C09": "Held on the pairs counted in the evidence, except the recorded findings (signed integers, principals of different lengths, NonNull, variable-length keys of paged collections), which are matched by exact signature.",
    "C11": "No undefined behaviour seen by ASan and Miri on the executions counted; a clean sanitizer run is not a proof of memory safety. The escape probes decide that listed unsound programs are rejected by the compiler.",
    "C17": "Every callback of the API, at every position of the generated operations; held on the injections counted in the evidence.",
}
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PROPS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": TECH[i],
            "level": plan.PROPS[i].get("level", "exploration"),
            "level_note": NOTE.get(i, NOTE["default"]),
        })
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: every monitor works through the public API, so hooks are not listed. known_findings.txt lists repairs and recorded findings; python3 check.py --replay FILE re-runs what a VIOLATION line named.",
}, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
