#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after changing what is claimed)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ENUM = ("exhaustive enumeration of bounded input/operation spaces on the real code of every backend, each step compared "
        "with an executable FIPS-197 reference model (explicit-state, replayed against the implementation)")
CHECKS = {
 "C01": ("model_checking", ENUM + "; the model's round and key-schedule state machine is explored exhaustively and every explored trace is replayed on the implementation",
         "Every case of the enumerated alphabets (all byte values at every position of key and block, two-valued blocks, word alphabets, inverted round states and schedule windows) in 13 configurations; beyond the alphabets it is bounded evidence. Trusts the reference model (checked against FIPS vectors each run) and qemu-user for foreign targets."),
 "C02": ("model_checking", ENUM + "; decrypters both built directly and derived", "As C01."),
 "C03": ("exploration", ENUM + "; all derivation paths over {convert, clone, clone_from over an unrelated object, clone_from over a nearly equal one} up to depth 5 (thorough 8), all intermediate objects kept alive and used again up to depth 5", "All derivation paths to the depth bound over the key alphabets; the paths are complete, the keys bounded."),
 "C04": ("exploration", ENUM + "; lane-assignment products", "All lane/value assignments in the alphabets, for 1, 2 and 4 lanes."),
 "C05": ("exploration", ENUM + "; per-byte and per-column spaces are complete (thorough: all 2^32 columns)", "Byte-wise and column-wise input spaces are exhaustive; cross-column behaviour over alphabets."),
 "C06": ("exploration", ENUM + "; all chain lengths in the bound, with every key position distinguished", "Chain lengths 0..16 completely plus selected long chains."),
 "C07": ("exploration", ENUM + "; lane-assignment products with per-lane keys", "All lane/value assignments in the alphabets."),
 "C08": ("exploration", ENUM + "; all byte pairs at each position, all single and double bit differences", "Bitwise operations: all pairs of byte values at each position; equality and zero test: every single- and double-bit difference."),
 "C09": ("exploration", ENUM + "; all conversion routes in and out", "All routes x byte values x positions."),
 "C10": ("exploration", "exhaustive enumeration of slice lengths, positions and alignments against guard pages and canaries on the real code, and in the Miri interpreter",
         "Every length to the bound at both ends of mapped memory; an access outside the slice faults (or Miri reports it). Outside the bound (lengths over 131 kB) it is evidence only."),
 "C11": ("exploration", "exhaustive enumeration of one identical input/operation space on every backend; digests of all results must agree",
         "Agreement of 13 configurations (26 in the thorough tier) over identical spaces; foreign targets run under qemu-user, which is trusted."),
 "C12": ("exploration", "exhaustive enumeration of secret operands over bounded alphabets; per public shape the trace (edges and addresses, or every machine instruction with its memory operand under the trap flag) must be one and the same",
         "Trace equality over the enumerated secrets on compiled code; micro-architectural data-dependent timing of single instructions is outside the model. EQ/IS_ZERO/formatting are not in the property."),
 "C13": ("model_checking", "stateless exploration of operation histories and of interleavings at machine-instruction granularity (trap flag + fork), partial-order reduced by trapping every store to shared memory; oracle: the operation alone in a fresh process",
         "All histories to depth 2 in separate processes and 3 in one process, all single preemptions of chosen pairs; if no operation stores to shared memory (trapped on every execution) all interleavings of the explored operations commute. Trusts mprotect and the trap flag; weak memory only matters once there are shared stores."),
 "C15": ("exploration", "exhaustive enumeration of the same space under each build profile (overflow checks, debug assertions, optimisation levels) and in Miri; digests must agree, no panic, no undefined behaviour",
         "Identical spaces under 4 (thorough 8) build profiles per backend plus Miri for the backends it can interpret."),
 "C16": ("exploration", "exhaustive enumeration of the configuration lattice; the compiled code of every public operation is classified by instructions and tables and compared with README's decision table",
         "Complete over the enumerated lattice of 100 (thorough: more) configurations; other target features are not expected to matter."),
 "C14": ("exploration", ENUM + "; all byte values at each position, all format specifiers", "All byte values at each position with each format trait and alternate form."),
}
PENDING = {}
def main():
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    for i in ids:
        if i in CHECKS:
            lv, tech, note = CHECKS[i]
            m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}",
                                "thorough_cmd": f"python3 check.py {i} --tier thorough",
                                "evidence_file": f"evidence/{i}.json", "technique": tech, "level": lv, "level_note": note})
        else:
            m["not_applicable"].append({"property": i, "reason": "check under construction"})
    m["notes"] = "No hooks: the checks use the public interface only."
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
main()
