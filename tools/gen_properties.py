#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

LIB, STO, BAL, NOD, INT, LEAF, ARR, UTI, ADR, ITM = ("src/lib.rs", "src/storage.rs", "src/balancing.rs", "src/node/mod.rs",
    "src/node/internal.rs", "src/node/leaf.rs", "src/utils/array.rs", "src/utils/mod.rs", "src/node/addr.rs", "src/item.rs")

p("C01", "The tree behaves as a sorted collection keyed by the comparator",
  "For every history of insert, remove, get, get_mut, first, last, first_mut, last_mut, len, is_empty, clear and forget under one consistent total order, every returned value and the resulting contents equal those of a reference sorted collection. Insert of an equivalent item replaces the stored item with the new one and returns the old one without changing len; remove returns exactly the stored equivalent item or None and changes nothing else; lookups accept any key type comparable with items. The tree stays fully usable after being emptied, cleared or forgotten.",
  ["histories", "inputs"], "every finite sequence of safe keyed operations, every total order on items (natural, reversed, partial-key), every key distribution and tree size",
  "The tests insert one fixed list of 100 keys, and remove them in one order; get, get_mut, first, last, clear, forget and replacement are never called, and no other insertion/removal interleaving, comparator or size is reached.",
  [LIB, STO, BAL, UTI, INT, LEAF],
  [("address_of / insert / remove", LIB), ("address_in, insert_exactly_at, remove_at", STO), ("binary_search_min", UTI), ("rebalance (split, rotate, merge)", BAL)],
  ["return values of RawBTree::{insert,remove,get,get_mut,first,last,len,is_empty}", "contents through iter()"])

p("C02", "Every reachable tree is a well-formed balanced B-tree",
  "After every operation of every history, all leaves are at the same depth, every node other than the root holds between M/2-1 and M items, an internal node with k items has exactly k+1 children and at most M children, every child's parent link names its actual parent and the root has no parent, every node is reachable exactly once, items are in order across the whole tree, and len() equals the number of stored items. The root is absent exactly when the tree is empty, and the built-in debug validation accepts the tree.",
  ["histories"], "every finite history of keyed and address-based insertions and removals, including all interleavings that split, rotate and merge at every level",
  "validate() is called along one fixed insertion history and one fixed removal history of 100 items (at most 3 levels); mixed histories, deeper trees, parent links after rotations between internal nodes, and len are not sampled.",
  [BAL, STO, INT, LEAF, LIB],
  [("rebalance, try_rotate_left/right, merge", BAL), ("insert_node sets children's parents", STO), ("split/merge/append/pop_*/push_*", INT), ("same for leaves", LEAF)],
  ["root(), node(id).{parent,children,child_id,item,item_count}", "validate()"],
  [dict(name="parent", meaning="back link of each node", where="src/node/internal.rs, src/node/leaf.rs"), dict(name="len", meaning="number of items", where=LIB)])

p("C03", "Iterators yield every item exactly once, in order, from both ends",
  "For every tree and every interleaving of next and next_back calls, iter, iter_mut and into_iter yield exactly the stored items, in ascending order from the front and descending order from the back, each item once, then None forever from both ends. size_hint and len are exact at every point, copies of an iterator advance independently, and writes made through iter_mut or the items it returned are what the tree holds afterwards.",
  ["histories", "inputs"], "every tree shape and every word over {next, next_back, len, copy, stop}, including stopping early and calling past exhaustion",
  "The tests iterate one 10-item and one 100-item ascending tree, forward, backward and strictly alternating; iter().rev(), iter_mut, uneven interleavings, size_hint, copies, early stop and calls after exhaustion are not reached.",
  [LIB, STO], [("Iter/IterMut/IntoIter next and next_back", LIB), ("next_item_address / previous_item_address", STO)],
  ["Iterator, DoubleEndedIterator, ExactSizeIterator results of the three iterators"])

p("C04", "Address navigation follows the in-order sequence of addresses",
  "Take all valid addresses of a tree (in every node, offsets -1 up to the node's item count) in their in-order sequence, where offset i of an internal node comes after its i-th child's addresses and before its (i+1)-th child's. For every valid address, next_item_address and previous_item_address give the nearest following/preceding occupied address, next_back_address and previous_front_address the nearest following back / preceding front address, normalize maps an address outside its node's items to the next item and an occupied address to itself, next_item_or_back_address maps a front address to the next item or else to the back address right behind the last item, and leaf_address gives the greatest leaf address at or before a back address; each gives None exactly when there is no such address, and none panics. get_at and get_mut_at return the item of an occupied address and None for a valid unoccupied one.",
  ["inputs", "histories"], "every reachable tree and every valid address in it (for next_item_or_back_address: every front address, where it gives the next item or, after the last item, that item's following back address)",
  "The tests that covered addresses are commented out upstream, so no test calls any navigation function directly; iteration only exercises occupied addresses.",
  [STO, ADR, LIB, NOD], [("normalize, leaf_address, next_*/previous_* address functions", STO), ("Address validity, front/back addresses", ADR)],
  ["RawBTree::{next_item_address,previous_item_address,previous_front_address,next_back_address,next_item_or_back_address,normalize,leaf_address,get_at,get_mut_at}"])

p("C05", "Address-based edits act as positional list edits with exact returned addresses",
  "insert_at at any back address (and insert_exactly_at at any leaf back address) inserts the item at precisely that place in the item sequence and returns the address at which the item now is; replace_at swaps exactly the addressed item. remove_at of an occupied address removes exactly that item, returns it and an address (None only if the tree became empty) at which insert_at puts an item back in the same place in the sequence; remove_at of a valid unoccupied address returns None and changes nothing. No comparator is involved, and insert_exactly_at panics, leaving the tree unchanged, when given an internal node's address without a right child.",
  ["histories", "inputs"], "every history of insert_at/insert_exactly_at/replace_at/remove_at (including reinsertion at the returned address) over all valid positions, for arbitrary unsorted and duplicate contents",
  "No test performs an address-based edit (the upstream ones are commented out); the address bookkeeping in splits, rotations and merges is not observed by any test.",
  [STO, BAL, LIB], [("addr tracking in rebalance, try_rotate_left/right, merge", BAL), ("insert_at, insert_exactly_at, remove_at, replace_at", STO)],
  ["addresses and items returned by RawBTree::{insert_at,insert_exactly_at,replace_at,remove_at}", "contents through iter()"])

p("C06", "Every item is owned by exactly one party and dropped exactly once; nothing leaks",
  "Over any history ending in dropping, clearing, consuming or partially consuming (from either end) the tree, each item put in is either handed back to the caller exactly once or dropped by the tree exactly once, and never after having been handed back; clones own separate items. Forgetting the tree's content runs no item destructor. In all cases all memory the tree allocated is released once the tree and its iterators are gone, whatever the item type.",
  ["histories"], "every history of safe and address-based operations, ending in drop, clear, forget or an iterator dropped at any point, for drop-tracked and heap-owning items",
  "Only full consumption of one 100-item tree by into_iter is drop-counted; drops of items in trees that were modified, cleared, forgotten, cloned or partly consumed, double drops masked by leaks, and node memory are not checked.",
  [LIB, STO, ARR, INT, LEAF, BAL], [("clear, forget, Drop for RawBTree and IntoIter", LIB), ("Dropper/BoxDrop, release_node", STO), ("Array MaybeUninit handling", ARR)],
  ["destructor counts per item", "live allocations of the process"])

p("C07", "Panics in user code never corrupt the tree or double-drop items",
  "If a comparator panics during any keyed operation, the tree is left exactly as it was (an item being inserted is dropped once). If an item's clone panics while the tree is cloned, the original is untouched. If an item's destructor panics during clear, drop, or while dropping a consuming iterator, no item is ever dropped twice or used after being dropped, and afterwards the tree, if still alive, is a usable valid tree (empty after a clear).",
  ["fault_sequences", "histories"], "every history and every point at which a user-supplied comparator, clone or destructor may panic (the k-th call), with the caller catching the panic and continuing",
  "No test injects a panic into user code.",
  [LIB, STO, ARR], [("clear, Drop, IntoIter::drop, Clone", LIB), ("insert/remove search before mutating", LIB), ("Array drop and clone", ARR)],
  ["destructor counts per item", "tree contents after catch_unwind"])

p("C08", "Any conforming storage works and is used only according to its contract",
  "For every conforming node storage (whatever its identifier scheme, including immediate identifier reuse and storages that need no dropper), the tree only accesses identifiers that are currently active, releases or drops every node exactly once and holds no unreachable node, and never uses a node after releasing it. Returned values, contents and tree shape after any history are the same whichever storage is used.",
  ["configurations", "histories"], "every history, over a family of instrumented storages (boxed, slab with fresh ids, slab with last-in-first-out id reuse, storage without dropper)",
  "All tests use the default boxed storage, where use of a released identifier is silent.",
  [STO, BAL, LIB], [("Storage and Dropper contracts", STO), ("release_node in merge and root collapse", BAL), ("clear/forget/clone storage handling", LIB)],
  ["calls the tree makes on an instrumented Storage", "differential results between storages"])

p("C09", "A clone is an equal, valid and fully independent tree",
  "Cloning any tree yields a valid tree with the same items in the same order and the same len, calling each item's clone exactly once (clone_from replaces the contents of its target likewise and releases what it held). Afterwards arbitrary histories on either tree, including dropping it, never affect the other, and both behave like independently built trees (iteration, navigation, insertion and removal all work on the clone).",
  ["histories"], "every tree reachable by a history, then every pair of histories applied to original and clone",
  "One 100-item tree is cloned once and only validated after the original is dropped; contents of the clone and later use of either tree are never checked.",
  [LIB, STO, LEAF], [("Clone for RawBTree / clone_node", LIB), ("insert_node parent fix-up", STO)],
  ["contents and structure of both trees after the clone"])

p("C10", "A misbehaving comparator cannot lose, duplicate or corrupt items",
  "When the comparator is inconsistent (not a total order, stateful, or different from call to call), safe operations never panic by themselves, never lose or duplicate an item other than through a reported replacement or removal, and leave a tree whose len, node occupancy, uniform leaf depth and parent links are all valid and which iterates over exactly the items it owns.",
  ["inputs", "histories"], "every history of insert, remove, get, get_mut with arbitrary (random, adversarial, stateful) comparison results",
  "All tests use Item::cmp / key_cmp, which are consistent total orders.",
  [UTI, LIB, STO, INT, LEAF], [("binary_search_min index bounds", UTI), ("address_in and insertion at the returned address", STO)],
  ["multiset of items in the tree versus items inserted and returned", "structure walk"])

p("C11", "Searches and updates cost logarithmic work",
  "Tree height never exceeds 1 + log base M/2 of (n+1)/2 for n items. Every get, insert and remove on n items makes at most a constant number (at most 2M) of comparisons per level, and touches at most a constant number of nodes per level, in any history.",
  ["histories", "inputs"], "every reachable tree and every key, present or absent, at sizes up to tens of thousands of items",
  "No test measures comparisons, node accesses or height.",
  [UTI, STO, BAL], [("binary_search_min", UTI), ("address_in descent", STO), ("rebalance keeps minimum occupancy", BAL)],
  ["comparator call counts", "node accesses counted by an instrumented Storage"])

p("C12", "Node visitors reach every node exactly once, children before parents",
  "For every tree, visit_from_leaves and visit_from_leaves_mut call the visitor exactly once for every node, after all of that node's descendants, siblings left to right, ending with the root, and not at all for an empty tree. The mutable visitor receives the node bound to the identifier it is given, and modifications made through it are kept.",
  ["inputs", "histories"], "every reachable tree",
  "No test calls either visitor; they are only used inside clear and forget, where a missed node is a silent leak.",
  [LIB, NOD], [("visit_from_leaves, visit_from_leaves_mut", LIB), ("visit_from_leaves_with, visit_from_leaves_mut_with", NOD)],
  ["sequence of identifiers passed to the visitor"])

p("C13", "Debug validation accepts a tree if and only if it is a correct B-tree",
  "validate(cmp) returns normally on every well-formed tree, and panics on every tree in which items are not strictly increasing under cmp anywhere (within a node or across a separator), a parent link is wrong, a non-root node has too few or too many items, or leaves are at different depths. The per-node and per-subtree validators it is made of (Node::validate, validate_node) accept every node of such a tree given its parent and separators, reject it given a wrong one, and report the depth.",
  ["inputs"], "every reachable tree, intact or with one or more structural or ordering corruptions applied through the public node API",
  "The tests only call validate on intact trees, so a validator that accepts everything passes them.",
  [LIB, NOD, INT, LEAF], [("validate, validate_node", LIB), ("per-node validate", "src/node/internal.rs, src/node/leaf.rs")],
  ["whether validate() panics"])

p("C14", "DOT export describes exactly the tree",
  "With the dot feature, dot_write emits a digraph that declares each node of the tree exactly once, with a label showing its parent (if any), its items in order and its own identifier, and exactly one edge per parent/child pair in child order; an empty tree gives an empty digraph. Parsing the output back reconstructs the same tree, and a writer error is returned to the caller.",
  ["inputs", "fault_sequences"], "every reachable tree with items whose text needs no escaping, and every writer that fails after k bytes",
  "The dot feature is compiled but never exercised by a test.",
  [LIB, INT, LEAF, NOD], [("dot_write, dot_write_node", LIB), ("dot_write_label", "src/node/internal.rs, src/node/leaf.rs")],
  ["bytes written by dot_write"])

p("C15", "Node operations act as edits of one ordered item/child sequence",
  "For every leaf or internal node and every sequence of the public node operations within capacity (by-key lookup and insertion, positional insert/remove/replace, push/pop at either end, split, merge, append, item and child accessors, separators, children), results equal those of a plain list model: lookups report the matching item or the child/offset where it belongs, returned offsets are the positions of the items they describe, split and append lose nothing and are inverse, pops fail exactly when the node would underflow, and balance reports overflow and underflow exactly at the documented thresholds. Lookups and by-key insertion also work on an empty leaf.",
  ["inputs", "histories"], "every node content up to capacity and every in-capacity operation sequence, for leaves and internal nodes with arbitrary child identifiers",
  "Tests reach nodes only through the tree; most node-level accessors (get, get_mut, insert_by_key, separators, children_with_separators, pop offsets) are never executed.",
  [NOD, INT, LEAF, UTI], [("Node enum dispatch", NOD), ("Internal", INT), ("Leaf", LEAF), ("binary_search_min", UTI)],
  ["return values of node::{Node,InternalNode,LeafNode} methods"])

p("C16", "Search finds an equivalent item or the exact insertion point",
  "address_of returns Ok with the address of an item comparing equal to the key whenever the tree holds one (also when several items compare equal), and otherwise Err with the leaf back address that separates the smaller items from the greater ones (Err(None) only on an empty tree). Inserting an item with that key at the returned address keeps the tree sorted; get, get_mut and descending node by node with the node-level lookups agree with address_of, for any key type and any comparator consistent with the item order.",
  ["inputs", "histories"], "every reachable sorted tree (with or without equivalent items), every present or absent key, keys of a different type, and coarser comparators",
  "No test calls address_of or get; the search is only observed through insert and remove on 100 distinct keys.",
  [UTI, STO, NOD, LIB], [("binary_search_min", UTI), ("offset_of", "src/node/internal.rs, src/node/leaf.rs"), ("address_in", STO)],
  ["Result of address_of, position in the in-order sequence"])

p("C17", "Offsets and addresses have consistent order, arithmetic and text",
  "Offsets are totally ordered as the integers starting at -1 (before the first item): comparisons between offsets and with plain numbers, equality, incr, decr, value, is_before and unwrap all agree with that integer, and only the before offset has no value. Offsets print as that integer and an address prints as @node:offset; addresses are equal exactly if node and offset are.",
  ["inputs"], "every pair of offsets and every plain number, small, large and at the extremes",
  "No test uses Offset or Address directly.",
  [NOD, ADR], [("Offset impls", NOD), ("Address Display/Debug/PartialEq", ADR)], ["results of Offset and Address operators"])

p("C18", "Items compare by key alone and keep key and value together",
  "Item equality, partial order, total order and key_cmp depend only on the key and agree with the key type's own comparison, including incomparable keys and borrowed key forms. Constructing, cloning, destructuring (as_pair, into_pair), printing, choosing (min, max, clamp) and cloning into an item keep its key and value unchanged and in that order.",
  ["inputs"], "every pair of items over several key types (integers, strings, partially ordered floats, keys with coarse equality)",
  "Tests use Item<usize, usize> with distinct keys only.",
  [ITM], [("Item impls", ITM)], ["results of Item methods and operators"])

p("C19", "Send and Sync exactly when the items allow it; safe concurrent reads",
  "A tree or consuming iterator with the default storage can be sent to another thread exactly if its item type can, and shared exactly if its item type can; borrowed iterators, addresses and node identifiers are never sendable or shareable for an item type where the corresponding standard slice iterator or reference is not. Concurrent readers of a shared tree all observe the same contents.",
  ["programs", "schedules"], "every item type built from thread-safe and non-thread-safe parts, and any number of concurrent readers of any tree",
  "No test checks auto traits or uses threads; a wrong unsafe impl compiles and passes all tests.",
  [STO, LIB], [("unsafe impl Send/Sync for BoxPtr", STO), ("PhantomData<T>", LIB)], ["trait resolution by rustc", "results of concurrent reads"])

p("C20", "Safe use never reads or writes invalid memory",
  "No history of safe operations, and of address-based operations respecting their documented preconditions, on trees of any item type (zero-sized, large, over-aligned, heap-owning) reads freed, uninitialised or out-of-bounds memory, frees memory twice, or leaks memory other than by an explicit forget. The same holds when operations panic as documented.",
  ["histories", "inputs"], "every history and item type",
  "The tests run without sanitizers or an interpreter; undefined behaviour that happens to produce the right answer passes.",
  [ARR, STO, LIB, BAL], [("MaybeUninit buffer handling", ARR), ("BoxStorage raw pointers", STO), ("ptr::read in IntoIter, transmutes in visitors", LIB)],
  ["AddressSanitizer and Miri verdicts"])

p("C21", "The node item buffer behaves as a bounded vector owning its elements",
  "The fixed-capacity sequence that nodes hold and expose behaves, for every sequence of push, pop, insert, remove, append, drain, clear, clone, collect, indexing and double-ended consumption within capacity, exactly like an ordinary vector, and each element is returned or dropped exactly once. Exceeding the capacity, an insertion index beyond the end or a drain range beyond the end panics and leaves the contents intact; no element is ever dropped twice, even if an element's destructor panics or a drain is leaked.",
  ["inputs", "histories"], "every operation sequence on buffers of the leaf capacity, every drain range within bounds, drains and consuming iterators abandoned at any point, from either end",
  "Tests only reach push, insert, remove, pop and full/tail drains through the tree.",
  [ARR, LEAF], [("Array, Drain, IntoIter", ARR)], ["contents and destructor counts of the buffer obtained through the node API"])

p("C22", "Behaviour is independent of the item type's size, alignment and drop glue",
  "The same history of positional and keyed operations produces the same tree shape, the same returned positions and corresponding items whatever the item type: zero-sized, one byte, large, over-aligned, heap-owning or drop-tracked. References to items are always properly aligned and distinct non-zero-sized items occupy disjoint memory.",
  ["inputs", "configurations"], "every history, replayed over a family of item types",
  "Tests use Item<usize, usize> and one drop-counted element type.",
  [ARR, LIB, STO], [("generic buffer layout", ARR), ("generic tree code", LIB)], ["tree shape and item addresses across item types"])

p("C23", "Borrows keep references from outliving or aliasing tree mutation",
  "A safe program that keeps a reference, mutable reference, borrowed iterator or node reference obtained from a tree while mutating, moving, consuming or dropping that tree, or that keeps two overlapping mutable references from different calls, is rejected by the compiler; the same program without the late use is accepted. Likewise shared access alone never yields mutable references, and no handle that owns or exclusively borrows items can be duplicated unless the items can.",
  ["programs"], "every combination of a borrowing accessor, a conflicting use of the tree and a late use of the borrow",
  "Tests are programs that compile; none checks that an unsound program is rejected.",
  [LIB], [("lifetimes of get/get_mut/first/last/iter/iter_mut/node signatures", LIB)], ["accept/reject verdict and error class of rustc on generated programs"])

p("C24", "Internal reference handling obeys Rust's aliasing rules",
  "No history of operations performs an access that the Tree Borrows aliasing model rejects: node memory is not freed while a live function argument still refers to it, and references handed to the caller stay usable for as long as their type promises.",
  ["histories"], "every history of safe operations, executed under an aliasing-checking interpreter",
  "The tests never run under an aliasing checker.",
  [LIB, STO, NOD], [("visit_from_leaves_mut, forget, IntoIter::drop", LIB), ("get/get_mut raw pointers", STO)], ["Miri (Tree Borrows) verdict"])

p("C25", "Trees sharing one storage are independent and built by its operations",
  "One storage may hold several trees, each named by its root. The storage's own operations (address_in, insert_at, insert_exactly_at, replace_at, remove_at, remove_rightmost_leaf_of and the address navigation), given one tree's root and an address in it, act on that tree alone: items, order, returned root, item and address are those of the corresponding list operation, the tree stays a well-formed B-tree whose nodes are exactly the ones allocated for it, and every other tree keeps its very nodes, identifiers and items. insert_node makes the inserted node the parent of its children, so that joining two trees of equal height under a new root, or dividing a tree by releasing its root, gives well-formed trees that can be edited further; visit_from_leaves on a root lists every node below it once, children before parents, so a tree can be released node by node with every item dropped once.",
  ["histories"], "every history of such operations on any number of trees in one storage, on every storage honouring the contract, every address and every tree shape",
  "The tests only use one tree per storage and never call the Storage operations directly.",
  [STO, BAL, NOD, INT], [("provided methods of the Storage trait", STO), ("rebalance and the root it returns", BAL), ("visit_from_leaves, set_parent, binary", NOD)],
  ["nodes through Storage::get, results of the Storage operations"])

p("C26", "Every permitted order gives a correct tree",
  "The order M is one constant, documented as \"must be at least 4\". At every order M of at least 4, even or odd, the crate compiles and what the other properties promise holds with the limits that follow from that order: a leaf holds at most M items and an internal node at most M children after any operation, every node but the root at least M/2 - 1 items (rounded down), all leaves are at one depth, and the results of insertion, removal, search, navigation, iteration, cloning, validation, panics and node or buffer operations are those of the ordered list. No part of the code may rely on the particular value the constant has today.",
  ["configurations", "histories"], "every order M >= 4 and, at each, every history of the other properties",
  "The tests are compiled with the one order in the source (8); no test runs another.",
  [LIB, BAL, LEAF, INT, ARR], [("pub const M", LIB), ("is_overflowing / is_underflowing / split / merge / append of both node kinds", LEAF), ("the buffer capacities M and M + 1", INT), ("rebalance", BAL)],
  ["the observables of the other properties, on copies of the crate with another order"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
