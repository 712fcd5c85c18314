#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
done = os.environ.get("DONE", "").split() or [p["id"] for p in props]
TV = ("TLC decides whether every recorded call of the real library is a step of the TLA+ machine (spec/Neon.tla); the specification's own "
      "meaning is model-checked exhaustively on small words. ")
note = {
 "C01": "Every load/store intrinsic, random, patterned and boundary memory images, windows flush against guard pages at either end.",
 "C02": "Every 2/3/4-structured load/store; data independence of the moves makes distinct-byte images decisive for the placement.",
 "C03": "Every lane/broadcast intrinsic with every legal lane, all operand classes.",
 "C04": "All pairs of 8-bit lanes are judged, of 16-bit lanes searched; wider lanes by boundary products, related pairs and random values.",
 "C05": "All pairs of 8-bit lanes are enumerated for two-operand forms; wider ones and accumulators are sampled.",
 "C06": "All 16-bit operands of the one-operand narrowing forms are enumerated in the thorough tier, samples otherwise.",
 "C07": "All pairs of 8-bit lanes enumerated; saturation boundaries of the wider ones by boundary products and related pairs.",
 "C08": "All 8-bit lanes x all counts enumerated; wider ones sampled.",
 "C09": "All pairs of 8-bit lanes enumerated for AND/OR/XOR/NOT; every lane type; arbitrary masks for select.",
 "C10": "All pairs of 8-bit lanes enumerated; special float values crossed.",
 "C11": "Distinct-byte images decide placement (moves are data independent); plus random ones.",
 "C12": "All 256 index values against every table size, random tables.",
 "C13": "Layout and brace initialisation of every vector type in C and C++; every reinterpretation.",
 "C14": "Boundary and special values crossed, random values of every exponent; NaN payloads free.",
 "C15": "Boundary and special values crossed, ties, saturation borders, random values of every exponent.",
 "C16": "All table entries, every exponent, subnormals and specials; random pairs for the step.",
 "C17": "All legal immediates and a spread of illegal ones over the int range, in an assert-enabled and an NDEBUG build.",
 "C18": "All catalogued intrinsics, as C and as C++ client: declared, linked, called.",
 "C19": "Model-generated and random histories with rejected calls, repetition, threads, preemption at every instruction.",
 "C20": "Guard pages, canaries and a sanitizer build, every legal immediate.",
 "C22": "Every vector and address operand of every intrinsic offered every vector and element-pointer type, by three compilers; every pair of vector types.",
 "C23": "Calls recorded here are repeated in 32-bit x86 processes, in WebAssembly machines (clang, node) and with unsigned char.",
 "C21": "Same inputs in a matrix of compilers, optimisation levels and debug settings.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in done:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification model-checked with TLC; TLC trace validation of the real library",
                       "level": "model_checking",
                       "level_note": TV + note[i] + " Trusts TLC, the compilers and the harness; coverage-guided and native searches over up to 10^9 calls choose what TLC judges; behaviour between judged operands is not proved."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
           "notes": "TLA+/TLC. No hooks in /repo: the public API exposes the abstract state. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
