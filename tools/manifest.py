#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("stateful model-based generation: operation histories against a sorted-vector model", "bounded-exhaustive short histories plus random histories over 5 storages and several total orders; every return value and all contents compared; trusts the model and the walk"),
 "C02": ("stateful generation with structural invariant oracle; bounded-exhaustive tree shapes x edits", "every edit of every tree shape of up to 3 leaves, plus random histories; invariant checked by an independent walk through the node API after every operation"),
 "C03": ("generated next/next_back words against a deque model", "every split point of every small shape and random words with copies, early stops and writes"),
 "C04": ("generated trees, all addresses of each, against the in-order address sequence computed by an independent walk", "all addresses of all small shapes and of random trees; limited to the addresses for which the code defines an answer (DESIGN.md, exclusions)"),
 "C05": ("stateful model-based generation: positional edits against a list model; bounded-exhaustive shapes x positions", "every address-based edit of every small shape plus random histories"),
 "C06": ("generated histories and endings with an ownership ledger per item and a counting allocator", "each item carries an identity whose creation, hand-over and drop are recorded; every ending of every small shape plus random histories, two build configurations"),
 "C07": ("fault injection: a panic at the k-th callback, over generated histories", "every callback position on every small shape, random positions on random trees; judged by the ownership ledger and by the state before"),
 "C08": ("differential histories on five storages, four of which monitor the storage contract", "the monitor rejects any access to an inactive identifier, double release, unreachable node; shapes and results must agree between storages"),
 "C09": ("stateful model-based generation on a tree and its clone, two models and an ownership ledger", "small shapes plus random divergent histories on both sides"),
 "C10": ("stateful generation with inconsistent comparators; conservation and structure oracles", "arbitrary, stateful and random comparators; item conservation judged by the ledger, structure by the walk"),
 "C11": ("generated large histories with counted comparisons and node accesses against closed-form bounds", "bounds per level are constants stated in DESIGN.md, chosen with a margin of about 2 above what the algorithm needs"),
 "C12": ("generated trees, visitor calls against the post-order computed by an independent walk", "small shapes and random trees, both visitors"),
 "C13": ("generated trees and generated corruptions through the node API, against an independent checker", "accept iff the independent checker accepts; debug-assertions configuration only (validate does not exist otherwise)"),
 "C14": ("generated trees, DOT output parsed back and compared; failing writers injected", "round-trip oracle; every write position made to fail on small trees"),
 "C15": ("stateful model-based generation of node operations against a list model", "every operation on every small node plus random sequences"),
 "C16": ("generated sorted multitrees and keys against the partition point of the in-order sequence", "every key and gap of every small shape plus random trees with and without equivalent items"),
 "C17": ("bounded-exhaustive and random pairs of offsets against integer arithmetic", "every small pair and boundary values, plus arithmetic walks"),
 "C18": ("generated pairs of items against the key type's own operators", "eight key types including partially ordered and coarsely ordered ones"),
 "C19": ("generated programs (random item types) judged by rustc against standard-library counterparts; generated multi-threaded read schedules, also under Miri's race detector", "auto traits of 13 handles over random item types; interleavings only as scheduled by the OS and by Miri"),
 "C20": ("generated histories under AddressSanitizer and under Miri", "cases of fourteen other properties' generators, re-run where invalid accesses are detected by the tool"),
 "C21": ("stateful model-based generation of buffer operations against a vector model with an ownership ledger; AddressSanitizer", "every drain and operation on every length plus random sequences, panicking destructors and leaked drains"),
 "C22": ("metamorphic generation: one history over thirty item types must give one shape and the same positions", "thirty item types of different size, alignment and drop glue"),
 "C23": ("generated program pairs judged by rustc: rejected with the late use, accepted without", "41 borrowing accessors x 47 conflicting uses x 7 ways of keeping the borrow x 6 item types, plus 22 fixed pairs"),
 "C24": ("generated histories under Miri with Tree Borrows", "cases of fourteen properties' generators small enough for the interpreter; one open finding excluded by construction"),
 "C25": ("stateful model-based generation: several trees in one storage edited, joined, divided and released through the Storage operations, against one list per tree", "every operation on pairs of trees of twelve sizes plus random forests of up to twelve trees, five storages; all trees walked after every operation"),
 "C26": ("configuration-space exploration: the generators and oracles of fifteen other properties on copies of the crate built with other values of M", "orders 4, 5, 7, 16 (quick) and 4-7, 9, 10, 12, 16, 24 (thorough) plus the order in the source; random cases at each"),
}
checks = [{
    "property": k,
    "quick_cmd": f"./check.sh {k}",
    "thorough_cmd": f"./check.sh {k}",
    "technique": t,
    "level": "fault_enumeration" if k == "C07" else "exploration",
    "level_note": n,
} for k, (t, n) in T.items()]
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public API. check.sh reads VERIF_TIER and VERIF_SEED.",
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
