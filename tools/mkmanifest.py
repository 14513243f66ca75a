#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the table below (only properties that checks.py implements are claimed)."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
impl = set(re.findall(r"^def (C\d\d)\(", open(os.path.join(HERE, "checks.py")).read(), re.M))
T = {
 "C01": ("bounded exhaustive enumeration of inputs and programmed random-oracle answers on the real code", "exploration", "Exhaustive over the listed message/randomness lengths, keys, IV carry patterns, tree positions and challenge patterns; other values are not explored. Trusts the link-time interposition of the oracles."),
 "C02": ("bounded exhaustive enumeration, implementation replayed against an executable reference model", "exploration", "Byte equality with an independently written model of FAEST v1 on every enumerated input and programmed oracle answer; trusts the model (itself agreeing with the NIST known answers)."),
 "C03": ("exhaustive single-fault enumeration over signatures, messages, keys and recomputed hash values", "fault_enumeration", "Every single-bit change of the signatures of the enumerated base cases; multi-bit forgeries are covered by C04's structured prover deviations only."),
 "C04": ("model-based adversary: every single-step deviation of the reference prover replayed against the verifier", "model_checking", "The decision of the implementation equals the model verifier's on every enumerated deviating transcript; trusts the reference model."),
 "C05": ("enumeration of key-generation random streams and targeted invalid keys at every S-box position", "exploration", "Every S-box position of every parameter set is hit with a zero input; random streams enumerated up to four redraws."),
 "C06": ("exhaustive fault injection on the random source (all answer sequences up to a depth)", "model_checking", "All sequences of short, interrupted and failing answers up to the stated depth, against a model of the required behaviour; trusts the interposed system calls."),
 "C07": ("exhaustive enumeration of argument combinations with guard pages and snapshots", "exploration", "All null/length/capacity combinations of every entry point."),
 "C08": ("exhaustive enumeration of malformed inputs under ASan, UBSan, MSan and guard pages", "exploration", "Memory errors on the enumerated inputs; trusts the sanitizers."),
 "C09": ("explicit-state exploration of all operation sequences to a depth on the real code", "model_checking", "All operation sequences up to the stated depth over an alphabet of successful and failing operations; results compared with a fresh-process oracle."),
 "C10": ("stateless model checking: controlled scheduler over instrumented memory accesses", "model_checking", "All interleavings of conflicting shared accesses up to the preemption bound; with no shared writes the interleavings form one equivalence class, which is what is established; sequentially consistent memory assumed."),
 "C11": ("exhaustive enumeration of lengths, overlaps and tamperings of signed messages", "exploration", "All message lengths and truncations within the stated bounds and all overlap offsets enumerated."),
 "C12": ("exhaustive enumeration of tree positions and single-node faults against a reference model", "exploration", "Every depth in use and every hidden position within bounds."),
 "C13": ("exhaustive enumeration of challenges per tree position, implementation against model", "exploration", "Every position of every tree; both sides' outputs compared for every column."),
 "C14": ("exhaustive enumeration of the linear map on its basis plus structured seeds", "exploration", "Every input bit of every hash at structured and pseudo-random seeds; linearity makes the basis decisive for a linear implementation, and linearity itself is checked on enumerated combinations."),
 "C15": ("exhaustive enumeration of operands: all pairs in GF(2^8), all basis-pair products and carry patterns in the large fields", "exploration", "GF(2^8) is complete; the large fields on all basis pairs and structured operands."),
 "C16": ("exhaustive enumeration of bytes, positions, lengths and counter carries against a reference model", "exploration", "All single-byte S-box positions, all output lengths to the bound, all carry positions."),
 "C17": ("exhaustive enumeration of lengths and chunkings against a reference model", "exploration", "All lengths to a bound, all two-way and three-way splits to a bound, absorb calls above 4 GiB."),
 "C18": ("exhaustive enumeration of identifiers and the whole parameter table", "exploration", "Complete over the finite parameter space (all set identifiers, an interval of unknown ones)."),
 "C19": ("exhaustive product of build configurations and enumerated inputs, compared pairwise", "exploration", "All listed configurations that build on this machine; other compilers, CPUs and operating systems are not explored."),
 "C20": ("explicit heap-state monitoring over all enumerated operations and outcomes", "model_checking", "Outstanding-allocation state compared before and after each operation in every enumerated sequence."),
 "C21": ("exhaustive pairwise trace comparison of instrumented executions over enumerated secrets", "exploration", "Branch and address traces equal across the enumerated secrets with equal public data; trusts compiler instrumentation, does not model micro-architecture."),
 "C22": ("exhaustive enumeration of request-size sequences against a reference model; replay of generated files", "exploration", "All request sequences to the stated depth and size; KAT files of all sets."),
 "C23": ("exhaustive enumeration of alignments and contents in every build mode, with binary-level memory observation", "exploration", "All alignments mod 64, all sets, release and LTO builds."),
 "C24": ("exhaustive allocation-failure injection at every allocation index", "fault_enumeration", "Every allocation the library makes itself fails once; in the backend every allocation call site (first, middle, last occurrence) and every fourth allocation of one signature (thorough: every allocation). An operation that ends without returning (the process dies) counts as no false success."),
 "C25": ("exhaustive enumeration of witness bits and constraints against a reference model", "exploration", "Every witness bit and every S-box constraint of the enumerated keys."),
}
NA = [dict(property="C26", reason="Cryptographic hardness (unforgeability and zero knowledge against efficient adversaries) quantifies over all adversaries and rests on computational assumptions; no enumeration of bounded executions decides it.")]
checks = []
for p, (tech, level, note) in sorted(T.items()):
    if p in impl: checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p, technique="model checking: " + tech, level=level, level_note=note))
    else: NA.append(dict(property=p, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=NA, notes="No hooks in /repo: the checks interpose at link time and with compiler instrumentation. All checks build /repo's working tree under /verif/.work."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
