"""The properties: one entry per property, the source of properties.jsonl (see gen.py)."""

INPUTS = "inputs"
HIST = "histories"
CONF = "configurations"

PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    PROPS.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["include/mdds/" + f for f in files],
            "mechanism": [{"name": n, "where": "include/mdds/" + w} for n, w in mechanism],
            "state": [{"name": n, "meaning": m, "where": "include/mdds/" + w} for n, m, w in state],
            "observe_at": list(observe),
        },
    })


# ------------------------------------------------------------------ flat_segment_tree
FST = ["flat_segment_tree.hpp", "flat_segment_tree_def.inl", "flat_segment_tree_itr.hpp", "node.hpp"]
prop("F01", "Flat segment tree is the step function of its insertions",
     "After any sequence of front, back and hinted insertions, the tree maps every key of its range to the value of the last "
     "insertion that covered it (the initial value if none), whichever insertion side or hint was used; parts of an interval "
     "outside the range are ignored, and the returned iterator and flag describe the segment and whether anything changed. "
     "Iterating yields strictly ascending keys from the range's minimum to its maximum in which neighbouring segments have "
     "different values, forwards, backwards and as segments.",
     [HIST, INPUTS], "every sequence of insertions, hints and clears; every key, value and range of integer and floating-point key types",
     "Tests insert a handful of fixed intervals; the merge/split cases depend on the relation of each interval's two ends to every existing boundary and value.",
     FST, [("insert_segment_impl", "flat_segment_tree_def.inl"), ("insert_to_pos", "flat_segment_tree_def.inl"), ("const_segment_iterator", "flat_segment_tree_itr.hpp")],
     [("leaf chain", "doubly linked boundaries with the value that starts there", "flat_segment_tree.hpp")],
     ["begin/end/rbegin/rend", "begin_segment/end_segment", "leaf_size", "insert return values"])
prop("F02", "Shifting a flat segment tree moves exactly the right units",
     "shift_left removes the units of the given interval and moves what follows down, filling the freed end with the initial value; "
     "shift_right moves the units from a position up by the given size, dropping what leaves the range and filling the gap with the "
     "initial value or, at a boundary with skip_start_node, with the preceding value. Out-of-range requests change nothing, and the "
     "result is again in canonical form.",
     [HIST, INPUTS], "every interleaving of shifts with insertions, all positions and sizes including those reaching or exceeding the range and the key type's limits",
     "Tests shift fixed trees with few segments; they cannot cover all combinations of boundary coincidence, overflow of the key type and value coincidence after the move.",
     FST, [("shift_left", "flat_segment_tree_def.inl"), ("shift_right", "flat_segment_tree_def.inl"), ("shift_leaf_key_left/right", "flat_segment_tree.hpp")],
     observe=["shift_left", "shift_right", "begin/end"])
prop("F03", "Flat segment tree lookups agree with the stored step function",
     "For every key, linear search, search from any position, and tree search after a build return the segment that contains the key "
     "with its true start, end and value, and fail exactly for keys outside the range. The tree is reported valid only while no "
     "modification followed the last build, and a tree search on it never returns an outdated answer.",
     [HIST, INPUTS], "every key of the range and outside it, every tree shape, every starting position, before and after rebuilding",
     "The search tree's shape depends on the number of leaves; tests look up a few keys of a few shapes.",
     FST, [("search / search_tree", "flat_segment_tree_def.inl"), ("build_tree_non_leaf", "node.hpp"), ("search_by_key_impl", "flat_segment_tree_def.inl")],
     [("m_valid_tree", "whether the search tree matches the leaves", "flat_segment_tree.hpp")], ["search", "search_tree", "is_tree_valid", "build_tree"])
prop("F04", "Flat segment tree copies, moves, swaps and equality",
     "Copies, moves, assignments and swaps (including self-assignment) yield trees with exactly the source's content and range that "
     "are independent of the source from then on. Two trees compare equal exactly when they have the same range and step function, "
     "however they were built.",
     [HIST], "every history of building, copying, moving, swapping and mutating either side",
     "Tests copy one or two small trees and do not continue to mutate both sides under a memory checker.",
     FST, [("copy/move/assign/swap", "flat_segment_tree_def.inl"), ("operator==", "flat_segment_tree_def.inl")],
     observe=["copy", "move", "swap", "operator=="])

# ------------------------------------------------------------------ segment_tree
SEG = ["segment_tree.hpp", "segment_tree_def.inl", "node.hpp"]
prop("S01", "Segment tree search returns exactly the covering segments",
     "After any sequence of insertions, predicate removals, clears and rebuilds, a search at a point returns every stored segment with "
     "start <= point < end, each as often as it was inserted, with its own bounds and value, and nothing else; visitor, result-object "
     "and repeated searches agree. Insertion succeeds exactly for non-empty intervals and searches are refused while the tree is not built.",
     [HIST, INPUTS], "every multiset of segments, every query point, every interleaving of insertion, removal and rebuilding",
     "Tests check fixed sets of segments; which tree nodes carry a segment depends on the ranks of all end points.",
     SEG, [("build_tree", "segment_tree_def.inl"), ("descend_tree_and_mark", "segment_tree_def.inl"), ("search", "segment_tree_def.inl"), ("descend_tree_for_search", "node.hpp")],
     observe=["search", "search_results", "size/empty", "valid_tree", "erase_if"])
prop("S02", "Segment tree copies, moves, swaps and equality",
     "Copies, moves, assignments and swaps carry over every stored segment and the readiness to search, and leave both sides usable "
     "and independent. Two equally ready trees are equal exactly when they hold the same segments with the same multiplicities.",
     [HIST], "every history of copying, moving, swapping and mutating either side", "Tests exercise one copy each; search trees rebuilt after copying are not compared against the segments.",
     SEG, [("copy/move/swap", "segment_tree_def.inl"), ("operator==", "segment_tree_def.inl")], observe=["copy", "move", "swap", "operator=="])

# ------------------------------------------------------------------ point_quad_tree
PQT = ["point_quad_tree.hpp", "quad_node.hpp"]
prop("Q01", "Point quad tree is a map from points with exact region search",
     "After any sequence of insertions, overwrites and removals, each stored point is found with its latest value, absent points are "
     "reported as such, and the size, emptiness and tree traversal agree with the set of points. A region search "
     "returns exactly the points inside the rectangle, boundary included, each once, and its iterators step consistently both ways.",
     [HIST, INPUTS], "every sequence of insertions and removals and every query rectangle, incl. points sharing coordinates",
     "Removal re-inserts subtrees in shape-dependent ways; tests remove a few points of one tree.",
     PQT, [("insert/remove", "point_quad_tree.hpp"), ("search_region", "point_quad_tree.hpp"), ("adjust_quad / reinsert", "point_quad_tree.hpp"), ("search_result iterators", "point_quad_tree.hpp")],
     observe=["find", "search_region", "size", "get_node_access"])
prop("Q02", "Point quad tree copies, moves, swaps and equality",
     "Copies, assignments (to itself too), moves and swaps reproduce exactly the points and values and stay independent of their "
     "source. Two trees are equal exactly when they hold the same points with the same values, whatever the insertion order.",
     [HIST], "every history of copying, moving, swapping and mutating either side", "Tests copy one tree and do not mutate both sides afterwards.",
     PQT, [("operator=", "point_quad_tree.hpp"), ("operator==", "point_quad_tree.hpp")], observe=["copy", "swap", "operator=="])

# ------------------------------------------------------------------ rtree
RT = ["rtree.hpp", "rtree_def.inl"]
prop("R01", "R-tree searches return exactly the stored objects",
     "After any sequence of insertions and erasures, an overlap search returns exactly the stored objects whose box intersects the "
     "query box and a match search exactly those whose box equals it, each once per insertion, with its own extent and value. "
     "Full traversal and size agree with the inserted minus the erased objects.",
     [HIST, INPUTS, CONF], "every sequence of insertions and erasures, all boxes incl. degenerate ones, dimensions 1 to 3, node capacities and reinsertion settings",
     "Splits, forced reinsertion and condensation depend on capacities and geometry; tests exercise a few fixed data sets.",
     RT, [("insert / insert_impl", "rtree_def.inl"), ("split_node", "rtree_def.inl"), ("perform_forced_reinsertion", "rtree_def.inl"), ("erase_impl", "rtree_def.inl"), ("descend_with_func", "rtree_def.inl")],
     observe=["search", "walk", "size", "begin/end", "erase"])
prop("R02", "R-tree stays a balanced, tight R-tree",
     "After every insertion or erasure all leaves are at the same depth, every directory's box is exactly the union of its children's "
     "boxes, and no directory exceeds its capacity or (the root excepted) falls below its minimum occupancy. The tree's own "
     "integrity check passes.",
     [HIST, CONF], "every sequence of insertions and erasures for every trait configuration",
     "Structural damage can leave query results right for a while; tests check integrity on few sequences.",
     RT, [("split_node", "rtree_def.inl"), ("erase_impl", "rtree_def.inl"), ("pack / pack_upward", "rtree_def.inl"), ("check_integrity", "rtree_def.inl")],
     [("node_store::parent, extent, count", "structure of the tree", "rtree.hpp")], ["export_tree", "check_integrity", "bounding_box", "walk"])
prop("R03", "R-tree copies, moves and swaps preserve content; values live once",
     "Copies, moves, assignments and swaps produce trees with exactly the source's objects that can be mutated independently. "
     "Every stored value is constructed and destroyed exactly once, with no leak, also for values that can only be moved.",
     [HIST], "every history of copying, moving, swapping, erasing and mutating either side", "Tests do not mutate copies heavily or account for value instances.",
     RT, [("node_store clone", "rtree_def.inl"), ("swap", "rtree_def.inl")], observe=["copy", "move", "swap", "search"])
prop("R04", "Bulk-loaded R-trees answer like incrementally built ones",
     "A tree packed by the bulk loader holds exactly the loaded objects, answers every search as an incrementally built one and is "
     "balanced, tight and within capacity. It accepts later insertions and erasures like any other tree.",
     [HIST, INPUTS, CONF], "every number and arrangement of loaded objects and all capacities, followed by arbitrary modifications",
     "The slicing depends on the object count per level; tests load a few sizes.",
     RT, [("bulk_loader::pack / pack_level", "rtree_def.inl")], observe=["bulk_loader", "search", "export_tree"])

prop("R05", "R-tree traversal and exports describe every node",
     "Walking an R-tree reports every node once, parents before children, with its kind and extent. The formatted export lists the same "
     "nodes with their nesting and parents, and the OBJ and SVG exports draw exactly these extents to scale, one shape per node "
     "(points as squares or circles), with finite coordinates. Trees that are not two-dimensional are refused with a size error.",
     [HIST, INPUTS, CONF], "every history of modifications, extents of every magnitude incl. points and empty trees, all key types and dimensions",
     "Tests export one tree and check nothing but that the text is not empty.",
     RT, [("walk", "rtree_def.inl"), ("export_tree_formatted", "rtree_def.inl"), ("export_tree_extent_as_obj", "rtree_def.inl"), ("export_tree_extent_as_svg", "rtree_def.inl")],
     observe=["walk", "export_tree"])

# ------------------------------------------------------------------ trie_map
TRIE = ["trie_map.hpp", "trie_map_def.inl", "trie_map_itr.hpp"]
prop("T01", "Trie map behaves as a map from strings to values",
     "After any sequence of insertions, overwrites and erasures, a trie map holds exactly the latest value of every key not erased "
     "since: lookups, erase results, size, emptiness, node-by-node descent and equality all agree with that map, for keys that are "
     "empty, prefixes of one another, or contain any code unit. A prefix search lists exactly the entries whose key starts with the "
     "prefix, in ascending key order.",
     [HIST, INPUTS], "every history of insertions, erasures, copies, moves and swaps, every set of keys of every character type",
     "Tests use word lists; the structure of shared prefixes, the empty key, null and non-ASCII units are hardly touched.",
     TRIE, [("insert_into_tree", "trie_map_def.inl"), ("find_prefix_node_with_stack", "trie_map_def.inl"), ("erase", "trie_map_def.inl"), ("search_results", "trie_map_itr.hpp")],
     observe=["find", "erase", "prefix_search", "begin/end", "root_node", "size"])
prop("T02", "Trie iterators step through all entries in key order, both ways",
     "From any position reached by iteration, lookup or prefix search, stepping forward or backward visits the neighbouring entry in "
     "ascending key order, so that any walk agrees with the ordered list of entries; equal positions compare equal. Values written "
     "through a mutable iterator are the values of those keys.",
     [HIST, INPUTS], "every walk of increments and decrements from every starting position over every set of keys",
     "Tests decrement over one word list from one end to the other.",
     TRIE, [("iterator_base::operator++/--", "trie_map_itr.hpp"), ("descend_to_previus_leaf_node", "trie_map_itr.hpp"), ("const_iterator conversion", "trie_map_itr.hpp")],
     observe=["iterator", "const_iterator", "search_results"])
prop("P01", "A packed trie answers exactly like the map it was made from",
     "A packed trie made from sorted entries, from a trie map or by packing one holds exactly the same entries: lookups, prefix "
     "searches, both directions of iteration, node descent and equality agree with the source. Copies, moves, swaps and copied "
     "search results are complete and independent, and a moved-from container is a usable empty one. More entries than the packing "
     "can number are refused with a size error.",
     [INPUTS, HIST, CONF], "every set of keys and values, every way of construction, every width of the packing unit it fits in",
     "Tests pack a few word lists; the packed offsets, the order of keys and the root entry depend on the key set.",
     TRIE, [("traverse_range", "trie_map_def.inl"), ("compact_node / push_child_offsets", "trie_map_def.inl"), ("find_child_pos / find_prefix_node", "trie_map_def.inl"), ("packed_iterator_base", "trie_map_itr.hpp")],
     [("m_packed", "the packed nodes", "trie_map.hpp"), ("m_value_store", "the values", "trie_map.hpp")],
     ["find", "prefix_search", "begin/end", "root_node", "operator==", "size"])
prop("P02", "Saved packed tries load back exactly; incomplete states are refused",
     "Loading a saved packed trie restores exactly its entries and consumes exactly the bytes that saving it wrote, so states can "
     "be stored back to back. A state that is cut short, lacks its check marks or was written for another kind of value or packing "
     "is refused with an exception, in bounded time, leaving the container as it was. Saving refuses values of another size than announced.",
     [INPUTS, "fault_sequences"], "every set of entries and value type, every truncation point of the stream and damaged header",
     "Tests round-trip a few maps and never present a damaged stream.",
     TRIE, [("save_state", "trie_map_def.inl"), ("load_state", "trie_map_def.inl"), ("value serializers", "trie_map_def.inl")],
     observe=["save_state", "load_state"])

# ------------------------------------------------------------------ sorted_string_map, delayed_delete_vector
SSM = ["sorted_string_map.hpp", "sorted_string_map_def.inl", "cref_wrapper.hpp"]
prop("M01", "Sorted string map finds exactly its entries, in both directions",
     "For every sorted array of entries and every string, a lookup yields the value stored for exactly that key, or the null value "
     "if the key is not in the array. A reverse lookup yields some key whose value equals the one asked for, or an empty key if "
     "no entry has it, with the linear and with the hashed finder.",
     [INPUTS, CONF], "every sorted set of keys (empty, with null or non-ASCII bytes, prefixes of one another), every probe and every value type and finder",
     "Tests look up the keys of a few fixed tables.",
     SSM, [("find", "sorted_string_map_def.inl"), ("linear_key_finder / hash_key_finder", "sorted_string_map_def.inl"), ("cref_wrapper::hash", "cref_wrapper.hpp")],
     observe=["find", "find_key", "size"])
prop("D01", "The delayed-delete vector is a vector whatever was removed in front",
     "Through any sequence of insertions, removals (at the front too), resizes, reserves, assignments, copies, moves and swaps, the "
     "vector's size, elements, iterators in both directions and data pointer are those of an ordinary vector with the same history. "
     "Elements are constructed and destroyed exactly once.",
     [HIST], "every history of operations with any number of pending front removals",
     "Tests only use it as a store of the multi type vector and never copy, move or swap it with pending removals.",
     ["multi_type_vector/delayed_delete_vector.hpp"], [("erase / clear_removed", "multi_type_vector/delayed_delete_vector.hpp"), ("swap", "multi_type_vector/delayed_delete_vector.hpp")],
     [("m_front_offset", "number of elements removed from the front but not deleted", "multi_type_vector/delayed_delete_vector.hpp")],
     ["size", "begin/end/rbegin/rend", "at/operator[]", "data", "swap"])

# ------------------------------------------------------------------ multi_type_vector
SOA = ["multi_type_vector/soa/main.hpp", "multi_type_vector/soa/main_def.inl", "multi_type_vector/soa/block_util.hpp", "multi_type_vector/soa/iterator.hpp",
       "multi_type_vector/types.hpp", "multi_type_vector/block_funcs.hpp"]
AOS = ["multi_type_vector/aos/main.hpp", "multi_type_vector/aos/main_def.inl", "multi_type_vector/aos/iterator.hpp", "multi_type_vector/types.hpp",
       "multi_type_vector/block_funcs.hpp"]
BOTH = SOA + AOS[:3]
_content = ("After any sequence of construction, set, push_back, push_back_empty, insert, insert_empty, set_empty, erase, resize, release, "
            "transfer and swap, with values or ranges of any element types, every position holds exactly the value and type of a plain "
            "sequence with the same history, and size, emptiness and equality agree. Calls with positions or ranges outside the "
            "container throw std::out_of_range (or std::invalid_argument where documented) and change nothing.")
prop("V01", "A multi type vector is a sequence of typed values (SoA layout)",
     "For the structure-of-arrays multi_type_vector: " + _content[0].lower() + _content[1:],
     [HIST, INPUTS, CONF], "every history of operations, every arrangement of typed and empty blocks, every element type, block storage and loop unrolling factor",
     "Each mutator has a case split over where the range begins and ends in which neighbouring blocks; tests pick one arrangement per branch they know of.",
     SOA, [("set_cells_impl / set_cells_to_multi_blocks", "multi_type_vector/soa/main_def.inl"), ("insert_cells_impl", "multi_type_vector/soa/main_def.inl"), ("transfer_impl / swap_impl", "multi_type_vector/soa/main_def.inl"), ("adjust_block_positions (unrolled)", "multi_type_vector/soa/block_util.hpp")],
     [("m_block_store", "positions, sizes and element blocks", "multi_type_vector/soa/main.hpp"), ("m_cur_size", "number of elements", "multi_type_vector/soa/main.hpp")],
     ["get", "get_type", "is_empty", "size", "begin/end", "operator=="])
prop("V02", "A multi type vector is a sequence of typed values (AoS layout)",
     "For the array-of-structures multi_type_vector: " + _content[0].lower() + _content[1:],
     [HIST, INPUTS, CONF], "every history of operations, every arrangement of typed and empty blocks, every element type, block storage and loop unrolling factor",
     "Each mutator has a case split over where the range begins and ends in which neighbouring blocks; tests pick one arrangement per branch they know of.",
     AOS, [("set_cells_impl / set_cells_to_multi_blocks", "multi_type_vector/aos/main_def.inl"), ("insert_cells_impl", "multi_type_vector/aos/main_def.inl"), ("transfer_impl / swap_impl", "multi_type_vector/aos/main_def.inl"), ("adjust_block_positions (unrolled)", "multi_type_vector/aos/main.hpp")],
     [("m_blocks", "position, size and element block of each block", "multi_type_vector/aos/main.hpp"), ("m_cur_size", "number of elements", "multi_type_vector/aos/main.hpp")],
     ["get", "get_type", "is_empty", "size", "begin/end", "operator=="])
prop("V03", "Returned iterators and position hints of a multi type vector are right",
     "The iterator a modifying call returns refers to the block the documentation names (the block in which the new, moved or emptied "
     "elements begin) in the container as it is after the call. Passing any valid block iterator as a position hint, near or far, before "
     "or after the target, has exactly the same effect and result as the call without a hint.",
     [HIST, INPUTS], "every modifying call in every block arrangement, with every hint from begin() to end()",
     "Tests chain hints in ascending order only and check returned iterators for the arrangements they build.",
     BOTH, [("get_block_position(hint)", "multi_type_vector/soa/main_def.inl"), ("get_iterator", "multi_type_vector/soa/main.hpp"), ("set/insert/set_empty/transfer return values", "multi_type_vector/aos/main_def.inl")],
     observe=["return values of set/push_back/insert/set_empty/insert_empty/release/transfer", "hint parameters"])
prop("V04", "Positions and iterators of a multi type vector address every element exactly",
     "For every logical position, position() with and without a hint, const or not, yields the block and offset of that element; "
     "next_position, advance_position and logical_position move and translate consistently in both directions up to the end position. "
     "Block iteration forwards and backwards lists all blocks in order with their positions, sizes, types and elements, and positions "
     "outside the container are refused with std::out_of_range.",
     [INPUTS, HIST], "every position, step and hint in every block arrangement reached by any history",
     "Tests use a few positions in one or two arrangements.",
     BOTH, [("position / get_block_position", "multi_type_vector/soa/main_def.inl"), ("advance_position / next_position", "multi_type_vector/soa/main_def.inl"), ("iterator_base", "multi_type_vector/soa/iterator.hpp"), ("position", "multi_type_vector/aos/main_def.inl")],
     observe=["position", "next_position", "advance_position", "logical_position", "begin/end/rbegin/rend", "block iterators"])
prop("V05", "A multi type vector stores every run of one type as one block",
     "After any sequence of operations the blocks are contiguous, non-empty and add up to the container's size, and no two neighbouring "
     "blocks have the same type or are both empty: block_size() is the number of maximal runs of equal type. Every block's element "
     "store has exactly the block's size and type.",
     [HIST], "every history of operations and every coincidence of types across the seams they create",
     "A missed merge changes no value, so value checks in tests do not notice; it needs specific types on both sides of a seam.",
     BOTH, [("merge_with_adjacent_blocks / merge_with_next_block", "multi_type_vector/soa/main_def.inl"), ("set_cell_to_* merge branches", "multi_type_vector/aos/main_def.inl")],
     observe=["block_size", "begin/end", "element_block size"])
prop("V06", "Block event handlers see every block come and go exactly once",
     "The calls to an event handler's element_block_acquired and element_block_released, summed over the whole history, always equal the "
     "element blocks the container holds: every block stored is reported once, every block dropped is released once, and after "
     "clearing or destroying the container nothing is left. Both containers of a transfer or swap are notified about what they got and gave away.",
     [HIST], "every history of operations on several containers with their own handlers",
     "Tests count events along a few scripted operations; an unbalanced pair only shows for some branch of some mutator.",
     BOTH, [("m_hdl_event calls", "multi_type_vector/soa/main_def.inl"), ("m_hdl_event calls", "multi_type_vector/aos/main_def.inl")],
     observe=["event_hdl element_block_acquired/released"])
prop("V07", "Managed elements have one owner and are destroyed exactly once",
     "Elements stored in managed blocks are destroyed exactly when they are overwritten, erased, emptied or their container dies, never "
     "twice and never late; release() and release_range() hand ownership to the caller without destroying. Transfer, swap, moves and "
     "block splits change the owner without copying or destroying, and copies hold their own objects; values in ordinary blocks are "
     "likewise constructed and destroyed in pairs.",
     [HIST, "fault_sequences"], "every history of operations on containers with managed and counted element types",
     "A leak or double delete needs the branch that splits or overwrites a managed block at a specific end; the suite is not run under a leak or lifetime checker.",
     BOTH, [("overwrite_values / resize_block / erase", "multi_type_vector/types.hpp"), ("noncopyable_managed_element_block", "multi_type_vector/types.hpp"), ("set_cell / swap_cells", "multi_type_vector/soa/main_def.inl")],
     [("m_array", "owned pointers of a managed block", "multi_type_vector/types.hpp")], ["element constructors and destructors", "release", "release_range"])
prop("V08", "Copies and clones of a multi type vector are complete, or not made at all",
     "Copy construction, assignment and clone() (with any block cloner and any execution policy) produce a container equal to the "
     "source that shares no block with it, calling the cloner once per element block. If copying an element fails or is unsupported, "
     "the exception reaches the caller, the source and any container assigned to are unchanged, and nothing leaks.",
     [HIST, "fault_sequences", CONF], "every content, cloner, execution policy and point of failure",
     "Tests clone one small container and never make a copy fail.",
     BOTH, [("clone / clone_blocks", "multi_type_vector/soa/main_def.inl"), ("copy constructor", "multi_type_vector/aos/main_def.inl"), ("copyable_element_block", "multi_type_vector/types.hpp"), ("element_block_funcs::clone_block", "multi_type_vector/block_funcs.hpp")],
     observe=["copy constructor", "operator=", "clone"])
prop("V09", "Copy-on-write copies never affect each other",
     "With copy-on-write enabled, modifying, releasing from, moving or destroying one of any number of copies never changes a value or "
     "an element block of another, however they were copied from each other. Blocks stay shared until a modification needs "
     "them, a modification that cannot detach throws and changes nothing, and each shared object is destroyed exactly once.",
     [HIST, "fault_sequences"], "every history of copies of copies, modifications, moves, transfers and destructions",
     "Sharing errors need particular interleavings of copies, partial modifications and destructions; the tests cover a few.",
     SOA, [("detach_impl / borrow in the copy constructor", "multi_type_vector/soa/main_def.inl"), ("shared_element_blocks, m_cow_store", "multi_type_vector/soa/main.hpp")],
     observe=["copy constructor", "every mutator of a copy"])

prop("V10", "Block positions are right for every loop-unrolling setting and with OpenMP",
     "Whatever loop-unrolling factor the traits select (none, 4 to 32 fold, SSE2, AVX2), and with or without OpenMP, every insertion, "
     "erasure and overwrite leaves each block's position equal to the sum of the sizes of the blocks before it, for any number of "
     "blocks behind the modified one. Contents and results do not depend on the setting.",
     [CONF, HIST], "every factor, number of blocks behind the modified position, and number of threads",
     "Tests build the default factor; the remainder loops depend on the number of blocks modulo the factor and the SIMD width.",
     ["multi_type_vector/soa/block_util.hpp", "multi_type_vector/aos/block_util.hpp", "multi_type_vector/soa/main_def.inl", "multi_type_vector/aos/main_def.inl",
      "multi_type_vector/types.hpp"],
     [("adjust_block_positions", "multi_type_vector/soa/block_util.hpp"), ("adjust_block_positions", "multi_type_vector/aos/block_util.hpp")],
     [("positions", "start of each block", "multi_type_vector/soa/main.hpp")], ["insert", "erase", "iterator position and size"])

# ------------------------------------------------------------------ collection, multi_type_matrix
prop("C01", "Side-by-side iteration visits the elements of all vectors in order",
     "Iterating a collection of equally long multi type vectors visits every element of the chosen range of vectors and positions exactly "
     "once, position by position and vector by vector, with its vector's index, position, type and value, up to end(). Vectors of "
     "different lengths and ranges outside the collection are refused and change nothing.",
     [INPUTS, HIST], "every set of vectors and block arrangements, every collection and element range, with modifications, swaps and copies in between",
     "Tests iterate a few small vectors; the per-vector block positions advance differently for every arrangement.",
     ["multi_type_vector/collection.hpp", "multi_type_vector/collection_def.inl"],
     [("side_iterator::operator++", "multi_type_vector/collection_def.inl"), ("check_collection_range / check_element_range", "multi_type_vector/collection_def.inl"), ("build_iterator_state", "multi_type_vector/collection_def.inl")],
     [("block_pos", "current block of each vector", "multi_type_vector/collection.hpp")], ["begin/end", "set_collection_range", "set_element_range"])
MTM = ["multi_type_matrix.hpp", "multi_type_matrix_def.inl"]
prop("X01", "A multi type matrix is a table of typed values",
     "After any sequence of construction, set, set_empty, set_column, set_row_empty, copy, resize, transpose, swap and assignment by "
     "coordinates or position objects, every cell holds exactly the value and type of a plain table with the same history; numeric, "
     "integer, boolean and string access, numeric(), size and equality agree. Operations on cells outside the matrix or with wrong sizes are refused "
     "and change nothing.",
     [HIST, INPUTS, CONF], "every history of operations on matrices of all shapes, with every element type and custom string and integer types",
     "Tests cover few shapes; copying and resizing translate between two column lengths and depend on where blocks cross column ends.",
     MTM, [("copy", "multi_type_matrix_def.inl"), ("resize", "multi_type_matrix_def.inl"), ("transpose", "multi_type_matrix_def.inl"), ("set_column", "multi_type_matrix_def.inl")],
     [("m_store", "the cells, column by column", "multi_type_matrix.hpp"), ("m_size", "rows and columns", "multi_type_matrix.hpp")],
     ["get", "get_type", "get_numeric/get_integer/get_boolean/get_string", "size", "operator=="])
prop("X02", "Matrix walks and positions cover exactly the requested cells",
     "A walk over a matrix or a rectangular part of it, alone or in parallel with a second matrix, reports blocks that cover every "
     "requested cell exactly once in column-major order with the right type and values, both sides of a parallel walk in step. Position "
     "objects address and step through all cells, and ranges outside either matrix are refused.",
     [INPUTS, HIST], "every shape, content and rectangle, and every pair of block arrangements",
     "Tests walk a handful of matrices; the sections depend on where the blocks of both matrices and the columns of the rectangle end.",
     MTM, [("walk", "multi_type_matrix_def.inl"), ("position / matrix_position", "multi_type_matrix_def.inl")],
     observe=["walk", "position", "next_position", "matrix_position", "end_position"])

# ------------------------------------------------------------------ concurrency
prop("K01", "Concurrent readers and owners of separate copies do not race",
     "Any number of threads may look up, iterate and compare one container that nobody modifies, and each thread may at the same time "
     "read, modify, copy and destroy its own container, without data races and with the results it would have had alone. This "
     "includes copy-on-write copies of one source that share blocks, if they were made before the threads started.",
     ["schedules", HIST], "every schedule of 2 to 4 threads over every container of the library",
     "No test runs two threads; races need two accesses that no single-threaded run can show.",
     ["multi_type_vector/soa/main.hpp", "multi_type_vector/soa/main_def.inl", "multi_type_vector/aos/main_def.inl", "multi_type_vector/collection_def.inl",
      "multi_type_matrix_def.inl", "flat_segment_tree_def.inl", "segment_tree_def.inl", "point_quad_tree.hpp", "rtree_def.inl", "trie_map_def.inl",
      "sorted_string_map_def.inl"],
     [("share / detach_impl / destructor", "multi_type_vector/soa/main_def.inl"), ("const lookups (get_block_position, search, find)", "multi_type_vector/soa/main_def.inl")],
     [("m_cow_store", "shared holder of borrowed blocks", "multi_type_vector/soa/main.hpp")],
     ["every const method", "every method of separate copies"])

# ------------------------------------------------------------------ cross-cutting
prop("U01", "No operation depends on memory that was never written",
     "In every container, after any history of construction, modification, copying, moving, search, iteration, saving and loading, no "
     "branch, address or output depends on a byte that was never written, so the same history always gives the same result. This "
     "covers empty, default-constructed and boundary states as well.",
     [HIST, INPUTS, CONF], "every history over every container, element type and memory layout",
     "Tests pass by luck when fresh memory happens to be zero, and the test build has no monitor for it.",
     ["flat_segment_tree.hpp", "segment_tree.hpp", "node.hpp", "point_quad_tree.hpp", "quad_node.hpp", "rtree.hpp", "rtree_def.inl", "trie_map.hpp", "trie_map_def.inl",
      "trie_map_itr.hpp", "sorted_string_map.hpp", "multi_type_vector/soa/main.hpp", "multi_type_vector/aos/main.hpp",
      "multi_type_vector/iterator_node.hpp", "multi_type_vector/collection.hpp", "multi_type_matrix.hpp"],
     [("node and leaf constructors", "node.hpp"), ("extent_type / point_type constructors", "rtree_def.inl"), ("iterator_value_node", "multi_type_vector/iterator_node.hpp"), ("iterator constructors", "trie_map_itr.hpp")],
     [("members of nodes, blocks and iterators", "initialised before they are first read", "node.hpp")],
     ["every public method"])
prop("E01", "Lookups, hints, iteration, moves and block operations keep their complexity",
     "However many objects a container holds: tree, trie, map, block and R-tree lookups (hits and misses) and tree inserts take a number of "
     "steps logarithmic in it (hash lookups by value: constant); appending, stepping an iterator, flat_segment_tree searches and inserts "
     "with a good hint, moves, swaps, erasing at the front of a delayed_delete_vector, transfers and swaps of whole blocks and copies of "
     "copy-on-write blocks take a constant number, on average over random positions.",
     [INPUTS, CONF], "every size and every position: growth is a statement about all sizes",
     "Tests check results, never steps: an index, hint or tree that is ignored gives the right answer on every test, only slower.",
     ["flat_segment_tree_def.inl", "node.hpp", "segment_tree_def.inl", "point_quad_tree.hpp", "rtree_def.inl", "trie_map_def.inl", "sorted_string_map_def.inl",
      "multi_type_vector/delayed_delete_vector.hpp", "multi_type_vector/soa/main_def.inl", "multi_type_vector/aos/main_def.inl",
      "multi_type_vector/collection_def.inl", "multi_type_matrix_def.inl"],
     [("search_tree_for_leaf_node", "flat_segment_tree_def.inl"), ("tree_builder", "node.hpp"), ("get_block_position", "multi_type_vector/soa/main_def.inl"),
      ("get_block_position", "multi_type_vector/aos/main_def.inl"), ("erase", "multi_type_vector/delayed_delete_vector.hpp")],
     [("nonleaf nodes", "halve the range at each level", "node.hpp"), ("m_front_offset", "skips erased elements", "multi_type_vector/delayed_delete_vector.hpp")],
     ["search, search_tree, find, position, insert, push_back, ++, swap, move, transfer"])
prop("G01", "An operation that runs out of memory leaks nothing and harms nothing",
     "Whichever allocation fails while a container is copied, cloned, moved, swapped, cleared, assigned, compared or searched, its tree built, a trie packed, saved or "
     "loaded, an R-tree bulk loaded, or a copy-on-write container written to for the first time, the exception reaches the caller and every "
     "block allocated on the way is released. The containers read and those that share with them are unchanged; the source "
     "and target of a move, swap, assignment, load or first write that failed have their former contents; and after a build that failed all segments are still stored and the tree is not valid, "
     "so that it can be built again, copied or destroyed.",
     [INPUTS, "fault points"], "every content, and every allocation of each operation as the one that fails",
     "Tests never run out of memory: the clean-up on the way out of a failed operation is executed by none of them.",
     ["flat_segment_tree_def.inl", "segment_tree_def.inl", "point_quad_tree.hpp", "rtree_def.inl", "trie_map_def.inl", "multi_type_matrix_def.inl",
      "multi_type_vector/types.hpp", "multi_type_vector/soa/main_def.inl", "multi_type_vector/aos/main_def.inl"],
     [("copy constructor", "flat_segment_tree_def.inl"), ("create_leaf_node_instances", "segment_tree_def.inl"), ("build_tree", "segment_tree_def.inl"),
      ("operator=", "point_quad_tree.hpp"), ("copy_blocks", "multi_type_vector/soa/main_def.inl"), ("managed_element_block", "multi_type_vector/types.hpp"), ("load_state", "trie_map_def.inl")],
     [("leaf chain", "nodes hold on to each other in both directions and must be taken apart to be freed", "node.hpp")],
     ["copy constructor, operator=, clone(), build_tree(), pack(), save_state(), load_state(), search()"])
prop("B01", "Method tracing reports every public call exactly once and changes nothing",
     "With tracing compiled in, each call of a public method of the structure-of-arrays multi_type_vector, constructors and destructor "
     "included, is reported exactly once to the traits' trace function, before it takes effect, with its name, kind, instance and arguments; "
     "calls it makes internally on the same container are not reported. Contents, results and exceptions are those of an untraced container.",
     [HIST, CONF], "every history of calls, with and without hints, valid and refused, with and without copy-on-write",
     "Tests do not compile tracing in beyond an example; a forgotten or doubled report or a wrong kind shows only if every method is called and accounted for.",
     ["multi_type_vector/soa/main.hpp", "multi_type_vector/soa/main_def.inl", "multi_type_vector/util.hpp", "multi_type_vector/types.hpp", "multi_type_vector/soa/iterator.hpp"],
     [("MDDS_MTV_TRACE / call_trace", "multi_type_vector/util.hpp"), ("traced methods", "multi_type_vector/soa/main_def.inl")],
     [("m_trace_call_depth", "suppresses nested reports", "multi_type_vector/soa/main.hpp")], ["Traits::trace"])
