#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GRAPH = "value-graph equivalence (gated global value numbering over type-checked MIR, normal forms, no solver) against a reference definition"
TRUST = "Trusts rustc's MIR, the models of standard-library and digest functions, and the reference definition in spec/src/refs.rs; no code of the crate is run."
N = {
 "C01": (GRAPH, "translation_validation", "All inputs of all lengths (opaque byte string of unknown length) in debug and release MIR. " + TRUST),
 "C02": (GRAPH, "translation_validation", "All inputs of all lengths, debug and release MIR. " + TRUST),
 "C03": (GRAPH, "translation_validation", "All inputs of all lengths, debug and release MIR. " + TRUST),
 "C04": (GRAPH, "translation_validation", "All inputs of all lengths, debug and release MIR. " + TRUST),
 "C05": (GRAPH + "; the general function is an opaque symbol", "translation_validation", "All inputs of all lengths. " + TRUST),
 "C06": (GRAPH, "translation_validation", "All 2^256 values of the stage's input. " + TRUST),
 "C07": (GRAPH, "translation_validation", "All 2^256 values of the stage's input. " + TRUST),
 "C08": (GRAPH + ", per parameter context", "translation_validation", "All password and salt bytes for each of several hundred contexts (lengths, sizes, parameters), chosen by boundary lists and by the constants and branches found in the code; other contexts are not covered. One known finding (tail bytes). " + TRUST),
 "C09": (GRAPH + ", per parameter context", "translation_validation", "All input bytes for each enumerated matrix shape; shapes beyond the enumerated ones are not covered. " + TRUST),
 "C10": (GRAPH + ", per parameter context", "translation_validation", "All input bytes for each enumerated time cost; very large time costs only for early return and refusal. " + TRUST),
 "C11": (GRAPH + ", per parameter context", "translation_validation", "All input bytes for each enumerated output size (all of 0..130 and selected sizes to 2048). " + TRUST),
 "C12": (GRAPH, "translation_validation", "All 2^256 values of the stage's input. " + TRUST),
 "C13": ("path-condition analysis of the same value graph with all arguments symbolic: no exit reachable for refused parameters, no refusal for valid ones", "other", "Refusal: all values of all other arguments. Acceptance: all T for four shapes up to the allocation, and enumerated R and T. " + TRUST),
 "C14": ("discharge of every panic and loop obligation in the value graph of each chain", "translation_validation", "All inputs of all lengths, debug and release MIR; panics inside the digest crates are outside. " + TRUST),
 "C15": ("discharge of every panic and loop obligation in the value graph, per parameter context", "translation_validation", "All input bytes for each enumerated parameter context. " + TRUST),
 "C16": ("effect analysis over resolved callees, statics and pointer operations in type-checked HIR/MIR, with positive and negative examples", "other", "Every body of the crate reachable from a public function; standard-library and digest functions are classified by name; digest crates trusted to be pure."),
 "C17": ("value-graph comparison across build variants, and scan of configuration predicates", "translation_validation", "All four combinations of debug assertions and overflow checks plus one variant per configuration option in the source; codegen is trusted. " + TRUST),
 "C18": ("unsafe-construct analysis over the type-checked HIR/MIR of the whole crate, with positive and negative examples", "other", "Every item and body of the crate, including unreachable ones; trusts rustc's borrow and type checking and the dependencies."),
 "C19": ("value-graph comparison of the MIR for big-endian and 32-bit targets with the reference", "translation_validation", "s390x, powerpc and i686 MIR, all inputs of all lengths for the chains, all input bytes for a set of Lyra2 contexts. " + TRUST),
}
checks = []
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
for p in props:
    i = p["id"]
    if i not in N:
        continue
    t, l, n = N[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i, "evidence_file": "evidence/%s.json" % i, "technique": "static analysis: " + t, "level": l, "level_note": n})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "See DESIGN.md. No hooks in /repo: the checks analyse the unmodified crate."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
