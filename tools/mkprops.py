#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay readable)."""
import json, os
R = "src/rbtree.rs"; M = "src/collections/map.rs"; H = "src/hashtree.rs"; A = "src/as_hash_tree.rs"
L = "src/label.rs"; P = "src/collections/paged.rs"; S = "src/collections/seq.rs"
G = "src/collections/group.rs"; B = "src/collections/group/builder.rs"; E = "src/rbtree/entry.rs"; I = "src/rbtree/iterator.rs"
props = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

SH = ("subtree hash", "hash of the hash tree formed by a node and its children; must be refreshed on every structural or value change", R)
p("C01", "Every map witness reconstructs to the map's certified root hash",
  "For every map content, however it was built, and every query, each witness the map can produce - for a present or absent key, with a nested value witness, for all keys, for a key range, for a key-value range, for a prefix, or of the whole map - reconstructs to exactly the map's current root hash.",
  ["inputs", "histories"], "all histories of inserts, updates and removals; all keys queried, all ranges with first <= last, all prefixes",
  "Tests build a handful of fixed maps (mostly one insertion order, two-letter keys) and query a few keys; whether pruning composes to the same hash depends on tree shape, on which side of each node the query falls and on which bounds exist.",
  [R, M, H], [("three_way_fork / Pruned collapse", R), ("witness_range_above/below/between", R), ("lookup_and_build_witness", R)],
  ["Map::witness, nested_witness, witness_keys, witness_key_range, witness_value_range, witness_keys_with_prefix, as_hash_tree, root_hash"], [SH])
p("C02", "A point witness proves presence with the value, or proves absence",
  "For every map and every key, looking the key up in the key's witness by the IC hash-tree lookup rule finds exactly the stored value when the key is present, and finds the key provably absent when it is not. No witness of the map, read by the same rule, ever says anything false about any key: a key it shows as present is present with that value, and a key it shows as absent is absent. A presence witness reveals no other entry, an absence witness only the keys next to the one asked for, their values pruned.",
  ["inputs", "histories"], "all map contents and histories, all queried keys and all other keys read from the same witness, keys whose order agrees with the byte order of their labels",
  "Tests compare labels of witnesses for a few two-letter keys; no test performs the lookup, and adjacency of the revealed neighbours depends on tree shape.",
  [R, M], [("lower_bound / upper_bound neighbours", R), ("lookup_and_build_witness", R)], ["Map::witness read with the IC lookup rule"], [SH])
p("C03", "Key-range witnesses are complete and reveal nothing more than needed",
  "The key-range witness reveals every key of the map within the closed range and, on each side where the range bound itself is not a key, the nearest key outside (if any), and nothing else; adjacent revealed keys are adjacent in the map, and every value is pruned. The all-keys witness reveals exactly all keys in order with every value pruned.",
  ["inputs", "histories"], "all map contents and histories, all ranges with first <= last (bounds present, between, or outside the keys)",
  "The existing test enumerates ranges over one fixed 10-key tree with one insertion order; other shapes and bound coincidences are not reached.",
  [R, M], [("range_witness with lower/upper bound", R)], ["Map::witness_key_range, Map::witness_keys, RbTree::key_range, RbTree::keys"])
p("C04", "Value-range witnesses reveal exactly the in-range entries",
  "The key-value range witness reveals key and value of every entry within the closed range; on each side where the range bound itself is not a key it reveals only the key of the nearest entry outside (if any), with its value pruned, and it reveals nothing else.",
  ["inputs", "histories"], "all map contents and histories, all ranges with first <= last",
  "The existing test covers one fixed tree; whether an out-of-range neighbour's value leaks depends on which of the bounds is exact and on shape.",
  [R, M], [("range_witness with data_tree", R)], ["Map::witness_value_range, RbTree::value_range"])
p("C05", "Prefix witnesses reveal every key with the prefix, and only neighbours besides",
  "The prefix witness reveals every key of the map that has the given prefix, plus only the nearest keys before and after that group (as proof that none is missing), with every value pruned and without gaps between adjacent revealed keys. This holds for byte-string and text prefixes and for key types whose prefix is a leading component of the key.",
  ["inputs", "histories"], "all map contents and histories, all prefixes (empty, equal to a key, longer than any key, with no match), byte strings, text, and composite keys",
  "Tests check the right neighbour on one small map and never use a composite key; completeness depends on where the matching keys sit in the tree.",
  [R, L, M], [("lower_bound on the prefix", R), ("right_prefix_neighbor", R), ("Prefix::is_prefix", L)], ["Map::witness_keys_with_prefix, RbTree::keys_with_prefix"])
p("C06", "The map behaves as an ordered dictionary after any history",
  "After any sequence of inserts, updates, removals and clears the map holds exactly the entries a plain dictionary would: every lookup (by key or by comparison function), emptiness and length agrees with it, insert returns the previous value, removal returns the removed entry (with the key that was stored) or nothing, overwriting keeps the key that was stored, and an operation on one key never affects another.",
  ["histories", "inputs"], "all operation histories and keys",
  "The model test compares against a BTreeMap for fixed key sets inserted and removed in a few orders, with distinct increasing or random-seeded keys; removal of inner nodes from arbitrary red-black shapes is only sampled.",
  [R, M], [("insert / delete / balance / rotations", R), ("len bookkeeping", R)], ["Map::insert, remove, remove_entry, get, len, is_empty, clear, from_iter; RbTree::get_with"])
p("C07", "The root hash always commits to the current contents",
  "At every quiescent point the map's root hash equals the root hash recomputed from its current keys and values and the tree structure it exposes, whichever mutating call was used last: insert, overwrite, remove, in-place modification by key or by prefix, entry API, or deep append. A failed or no-op mutation leaves the root hash unchanged.",
  ["histories", "inputs"], "all histories over all mutating API calls, all keys and values",
  "Tests compare the root hash after insert and delete only; in-place modification, deep append, entry methods and mutable references are not checked, and a stale subtree hash needs a particular rotation or path to show.",
  [R, M, E, P], [("subtree_hash recomputation on the path to the root", R), ("modify / modify_max_with_prefix", R)], ["Map::root_hash versus as_hash_tree().reconstruct()"], [SH])
p("C08", "The tree stays balanced, so depth and witness size stay logarithmic",
  "After any history of inserts and removals the depth of the tree over n entries is at most 2*log2(n+1), and a witness for one key contains a number of hash-tree nodes linear in that depth rather than in n.",
  ["histories"], "all histories of inserts and removals",
  "Balance is asserted inside debug test builds for a few histories; removal sequences that leave a red-red or black-height defect are rare and order dependent.",
  [R], [("balance, move_red_left, move_red_right, color flips", R)], ["shape of Map::as_hash_tree, size of Map::witness"])
p("C09", "No history of map operations leaks, double-frees or touches freed memory",
  "For every history, every key and value handed to the map is dropped exactly once (on overwrite, removal, clear or drop of the map) or handed back to the caller, all memory is released when the map is dropped, and no operation, iterator or witness ever reads or writes memory outside a live allocation.",
  ["histories", "inputs"], "all operation histories, keys and values that own memory",
  "One test counts node allocations after fixed histories; ownership of keys and values on overwrite, on swap during removal, or through the entry API is not observed.",
  [R, E, I], [("Box::into_raw / Box::from_raw ownership of nodes", R), ("delete swapping key and value with the successor", R), ("Drop", R)], ["allocator balance, drop counts, memory errors under any API use"])
p("C10", "Iteration yields every entry once, in key order, with exact size hints",
  "Iterating a map, or visiting it with the for-each traversal, yields every entry exactly once in strictly increasing key order, the iterator's size hint equals the number of entries still to come at every step, and after the end it keeps returning nothing.",
  ["histories", "inputs"], "all map contents and histories, all iterator positions",
  "One test iterates over ascending inserts of single bytes; shapes produced by removals and the size hint are not examined.",
  [I, R], [("explicit stack traversal", I), ("remaining element counter", I)], ["Map::iter, size_hint, RbTree::for_each"])
p("C11", "The entry API is equivalent to the corresponding lookup and update",
  "For every map and key, the entry API reports occupied exactly when the key is present and each of its operations (read, insert into vacant, remove, remove entry, modify-if-present, insert-if-absent variants, into key) has the same effect and result as the corresponding plain dictionary operation, including the reference it returns and the key that stays stored, and leaves the certified root hash committing to the resulting contents.",
  ["histories", "inputs"], "all map contents, all keys, all entry operations",
  "No existing test uses the entry API.",
  [E, R], [("Entry, OccupiedEntry, VacantEntry methods", E), ("get_node", R), ("insert returning a reference into the tree across rotations", R)], ["Map::entry and all entry methods, then get/len/root_hash"])
p("C12", "Max-with-prefix queries act on the greatest key having the prefix",
  "The max-entry-with-prefix query returns the entry with the greatest key that has the prefix, or nothing when no key has it, and the modifying variant applies its function exactly once to that same entry (never when there is none), returning its result and leaving every other entry untouched.",
  ["histories", "inputs"], "all map contents and histories, all prefixes for byte strings, text and composite keys",
  "Covered by one fixed 17-entry example; the search direction after a non-matching node depends on order and shape.",
  [R, L], [("max_entry_with_prefix", R), ("modify_max_with_prefix", R)], ["RbTree::max_entry_with_prefix, RbTree::modify_max_with_prefix"])
p("C13", "Paged storage splits each key's items into full pages plus a last page",
  "After any sequence of inserts, page p of a key holds exactly that key's items number p*S to p*S+S-1 in insertion order (the last page possibly shorter, never empty), the last page number is that of the last item or nothing for an unknown key, pages outside that range do not exist for any page number, and keys do not affect each other.",
  ["histories", "inputs"], "all insertion histories over several keys, page sizes S >= 1, all page numbers that fit the argument type",
  "Tests insert keys round-robin with one page size; other interleavings and out-of-range page numbers are not tried.",
  [P, R], [("page rollover in insert", P), ("ordering on (key, page)", P)], ["Paged::insert, get, get_last_page_number"])
p("C14", "Paged witnesses prove a page's content and the last page number",
  "For every paged collection the page witness reconstructs to the collection's root hash and proves either the requested page's commitment or that the page does not exist, and the last-page witness reconstructs to the root hash, shows the last existing page of the key and proves that the following page does not exist (or that the key has no page at all).",
  ["histories", "inputs"], "all insertion histories, keys, page numbers; keys whose order agrees with label byte order when the page number is appended",
  "No existing test calls either witness.",
  [P, R, L], [("label = key label followed by big-endian page", P), ("absence witness for page + 1", P)], ["Paged::witness, witness_last_page_number, root_hash"])
p("C15", "A sequence's hash depends only on its items, however it was built",
  "The hash of a sequence is the hash chain over its items in order starting from zero, no matter whether the items were appended, extended or collected by value or reference from any iterator (also one with a loose size hint), converted from a vector or slice, cloned, cleared and refilled, or deserialized, and capacity management never changes it. Reading (length, iteration, indexing, conversion back to a vector) returns exactly the items in order.",
  ["histories", "inputs"], "all item values and all mixes of construction and mutation calls",
  "Tests compare append with extend and clear on 0..100; collected, sliced, by-reference and deserialized construction with mixed histories is not compared.",
  [S], [("append and recompute_hash chain", S)], ["Seq API, root_hash, as_hash_tree"])
p("C16", "Different contents give different root hashes",
  "Two sequences with different items have different root hashes, and two maps with different key-value contents have different root hashes, assuming the hash function is collision free and keys and values themselves encode unambiguously.",
  ["inputs", "histories"], "all pairs of contents",
  "Tests check that consecutive appends change the hash; pairs of arbitrary contents (reordered, split, merged or nested) are not compared.",
  [S, R, H], [("chained hash", S), ("labeled and fork hashing with domain separation", H)], ["root_hash of Map and Seq"])
p("C17", "Hash-tree reconstruction follows the IC specification",
  "Reconstructing any hash tree yields the hash prescribed by the Internet Computer interface specification for its shape - with length-prefixed domain separators for empty, fork, labeled and leaf nodes and the stored digest for pruned nodes - and the exposed leaf, labeled and fork hash helpers agree with it. Replacing any subtree by a pruned node holding its reconstruction leaves the result unchanged.",
  ["inputs"], "all hash trees (shapes, labels, leaf contents, digests)",
  "One fixed example tree from the specification is tested.",
  [H], [("domain_sep", H), ("HashTree::reconstruct", H)], ["HashTree::reconstruct, fork_hash, leaf_hash, labeled_hash"])
p("C18", "Hash trees serialize exactly as the IC specification's CBOR",
  "Serializing any hash tree to CBOR produces exactly the specification's encoding - arrays tagged 0 to 4 with labels, leaf contents and digests as byte strings of the right length - so that a decoder following the specification rebuilds the same tree.",
  ["inputs"], "all hash trees (shapes, labels, leaf contents, digests), within size bounds",
  "One fixed example tree is compared.",
  [H], [("Serialize for HashTree", H)], ["serde_cbor::to_vec(&HashTree)"])
p("C19", "Every built-in value type commits to its exact value",
  "For every built-in value type the directly computed root hash equals the reconstruction of its hash tree, which is a single leaf holding the documented encoding (big-endian for numbers, raw bytes for strings, byte vectors, arrays and principals), and different values of one type never commit to the same hash; wrappers (boxes, reference-counted and raw pointers) commit to what they contain.",
  ["inputs"], "all values of every type implementing the trait",
  "Existing tests only use a few values of a few types indirectly through maps.",
  [A], [("impl_num, impl_fixed_size, per-type impls", A)], ["AsHashTree::root_hash, AsHashTree::as_hash_tree"])
p("C20", "Label encodings are injective and preserve the key order",
  "For every built-in key type, equal keys have equal labels and different keys have different labels, and the byte-wise order of labels agrees with the order of the keys, so that neighbours in a map are neighbours in the certified tree. A key has a prefix exactly when its prefix part equals it or its bytes start with it, consistently with the order.",
  ["inputs"], "all pairs of keys of every built-in key type, all prefixes",
  "No existing test compares label order or injectivity.",
  [L, P], [("Label impls", L), ("Prefix impls", L)], ["Label::as_label, Ord, Prefix::is_prefix"])
p("C21", "A group's root hash equals every view and witness of it",
  "For every group, the root hash, the reconstruction of its full hash tree, and the reconstruction of a witness built for any selection of its members (fully or partially revealed, in any order, repeatedly, or none) are all equal, also after any member has been modified.",
  ["inputs", "histories", "configurations"], "all member contents, tree layouts, selections and orders of selection",
  "Tests check five selections on one layout with fixed contents.",
  [G, H], [("GroupNode::witness / witness_all / root_hash", G), ("dependencies from visit_node", G)], ["Group::root_hash, as_hash_tree, witness().full/partial.build()"])
p("C22", "A group witness reveals exactly the selected members",
  "A group witness contains, for each selected member, the labels on the path to it and exactly the hash tree supplied for it, while everything not on a path to a selected member appears only as a digest.",
  ["inputs", "configurations"], "all layouts, member contents and selections",
  "Tests list labels and leaves for five selections on one layout.",
  [G], [("to_visit pruning by node id", G), ("visit_node id assignment", G)], ["witness().full/partial.build(): labels, leaves, structure"])
p("C23", "Building a group accepts every conflict-free layout and rejects conflicts",
  "Building a group from any non-empty set of distinct non-conflicting paths and distinct member types succeeds, gives a layout (hence root hash) that does not depend on the insertion order, labels each member by its full path in sorted order in a balanced tree per directory, and gives typed access to exactly the inserted values; reusing a path, using a member as a directory or a directory as a member, reusing a type, or asking for a type not in the group panics rather than losing data.",
  ["inputs", "configurations"], "all sets of paths and insertion orders",
  "One fixed layout in one order is built by the tests; conflicts are never tried.",
  [B, G], [("GroupBuilderNode::insert", B), ("pairwise folding in build", B)], ["GroupBuilder::insert/build, Group::get/get_mut/root_hash/as_hash_tree"])
p("C24", "Serialized collections decode to the same contents and root hash",
  "Encoding a sequence, map or paged collection (with CBOR or Candid where supported) and decoding it again yields the same entries in the same order, and the decoded collection's root hash commits to those contents exactly as if it had been built by hand; entries arriving unsorted or duplicated are handled as successive inserts.",
  ["inputs", "histories"], "all contents within size bounds",
  "Tests round-trip one sequence of ten numbers; maps and paged collections are never decoded.",
  [M, S, P], [("Serialize/Deserialize/CandidType impls", M), ("recompute_hash in deserialize", S)], ["serde_cbor and candid round trips"])
p("C25", "Nested collections: outer commitments track inner changes",
  "When a map's values are themselves certified collections, modifying an inner collection through the outer map's in-place modification or deep append leaves the outer root hash committing to the new inner contents, deep append and deep length behave as a dictionary of lists, and a nested witness reconstructs to the outer root and contains exactly the inner witness under the outer key.",
  ["histories", "inputs"], "all outer and inner contents and histories",
  "One fixed nested witness is tested; deep append and in-place inner modification are not.",
  [M, R, S], [("modify refreshing hashes on the path", R), ("append_deep", M), ("nested_witness", R)], ["Map::append_deep, len_deep, RbTree::modify, RbTree::nested_witness"])
p("C26", "Label and leaf listings of a hash tree are complete and in order",
  "Listing the labels of any hash tree returns every label not hidden in a pruned part, including nested ones, in left-to-right depth-first order, and listing the leaf values returns every visible leaf content in the same order.",
  ["inputs"], "all hash trees",
  "Only used on trees produced by a few fixed tests.",
  [H], [("get_labels / get_leaf_values traversal", H)], ["HashTree::get_labels, HashTree::get_leaf_values"])
p("C27", "The same operations always give the same commitments",
  "The root hash, exposed hash tree, witnesses, listings and encodings of a map, sequence, paged collection or group depend only on the operations carried out on it, in their order. Carrying out the same operations on another instance - later, at other addresses, in memory used before, with other collections living, changing, being read or dropped in between - gives the same ones, so that replicas of a canister agree; and reading a collection, any number of times, or moving it, changes nothing.",
  ["inputs", "histories"], "all operation histories on a collection, carried out twice, with reads, moves and unrelated collections in between",
  "A test runs each history once, in a fresh process with one allocation pattern, and compares with nothing; state shared between instances, keyed by address or kept over reads, and orders that depend on hash seeds show only when two histories meet.",
  [R, M, P, S, G, B], [("Node hash refresh", R), ("Seq hash chain", S), ("Group node ids and HashMap of members", G), ("Builder node ordering", B)],
  ["root_hash, as_hash_tree, witness, witness_keys, key_range, value_range, iteration, serialization of Map, Seq, Paged, Group"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in props: f.write(json.dumps(q) + "\n")
print(len(props))
