#!/usr/bin/env python3
"""Writes known_findings.jsonl: repaired defects (from the "fix:" commits) and recorded findings."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
# first words of the commit subject after "fix: " -> property, what failed
FIXED = [
    ("report emplace_back to the trace", "B01", "emplace_back() was not reported to the trace method"),
    ("separate the arguments of insert() in the trace", "B01", "insert() of a range reported its arguments without a separator"),
    ("flat_segment_tree: release the nodes copied", "G01", "a copy that failed mid-way leaked the nodes copied so far"),
    ("flat_segment_tree: don't leave a tree marked", "G01", "a build_tree() that failed left the former tree, already freed, marked valid (use after free on search)"),
    ("segment_tree: leak or lose nothing", "G01", "a copy or build_tree() that failed mid-way leaked nodes, lost segments or left a chain whose destruction crashed"),
    ("point_quad_tree: leak nothing and keep", "G01", "a copy that failed mid-way leaked the nodes copied so far, and a failed assignment emptied its target"),
    ("rtree: a move that runs", "G01", "a move that ran out of memory lost the content and left its source without a root node"),
    ("packed_trie_map: a move that runs", "G01", "a move that ran out of memory lost the content and left its source without a root record"),
    ("segment_tree: a move that runs", "G01", "a move that ran out of memory left its source with a valid tree of freed nodes (use after free on search)"),
    ("multi_type_vector: lose no blocks when sharing", "G01", "a first copy-on-write copy that ran out of memory left its source sharing nothing: its blocks were never freed"),
    ("multi_type_vector: don't leak an element copied", "G01", "copying or cloning a managed block stored in a deque leaked an element when the deque failed to grow"),
    ("flat_segment_tree: make the free swap", "F04", "the free function swap(flat_segment_tree&, flat_segment_tree&) did not compile"),
    ("flat_segment_tree: ignore a segment that ends", "F01", "inserting a segment that ends exactly at the minimum key changed the first segment"),
    ("flat_segment_tree: search(pos, key) must", "F03", "search(pos, key) with an invalid position did not fall back to a search from the start"),
    ("flat_segment_tree: combine equal segments", "F02", "shift_left left two neighbouring segments with equal values at the end of the range"),
    ("flat_segment_tree: shift_right must not overflow", "F02", "shift_right with a size larger than the key range overflowed the key type"),
    ("flat_segment_tree: segment_range() must not", "K01", "segment_range() of a const tree changed non-atomic reference counts (data race between readers)"),
    ("segment_tree: operator== must count", "S02", "trees with the same set but different multiplicities of segments compared equal"),
    ("point_quad_tree: remove() must not lose", "Q01", "remove() lost or misplaced other points"),
    ("point_quad_tree: decrementing the end", "Q01", "--end() of a search result did not update the value"),
    ("point_quad_tree: assignment to self", "Q02", "self-assignment erased the content"),
    ("rtree: initialize all coordinates", "R01", "only the first coordinates of a point were initialised"),
    ("rtree: update parent pointers after dissolving", "R01", "dissolving a non-leaf directory left stale parent pointers"),
    ("rtree: update parent pointers when the root", "R02", "splitting the root left stale parent pointers"),
    ("rtree: split a non-leaf directory", "R02", "a non-leaf directory overflowed during reinsertion"),
    ("rtree: shrink the extents", "R02", "the extents of ancestors were not shrunk after dissolving a directory"),
    ("rtree: reinsert orphaned directories", "R02", "orphaned directories were reinserted at a wrong level (unbalanced tree)"),
    ("rtree: a non-leaf root with two", "R02", "check_integrity() with its default properties refused every tree whose root directory had been split (root below the minimum)"),
    ("rtree: bulk loader must make progress", "R04", "the bulk loader recursed without progress for small capacities"),
    ("rtree: drawing a tree without an extent", "R05", "export_tree() as SVG divided by zero for an empty tree and for a single point (nan coordinates)"),
    ("trie_map: iteration must include", "T01", "begin() skipped the entry of the empty key, in trie_map and packed_trie_map"),
    ("trie_map: find() and erase() must not", "T01", "find() and erase() of an absent key acted on the entry of one of its prefixes"),
    ("trie_map: decrementing an iterator", "T02", "-- skipped entries or never returned when an inner node or the root has a value"),
    ("packed_trie_map: the root of an empty", "P01", "default constructed and moved-from containers claimed a value at the root (out of bounds on copy)"),
    ("packed_trie_map: entries may have keys with null", "P01", "entries with null key units were merged or asserted"),
    ("packed_trie_map: find entries sorted by unsigned", "P01", "entries sorted as strings with non-ASCII characters were not found"),
    ("packed_trie_map: copied search results", "P01", "copied, moved or assigned search results had no value store (null dereference)"),
    ("trie_map: prefix search on an empty", "T01", "prefix_search(\"\") on an empty map dereferenced the end of the children"),
    ("packed_trie_map: refuse a truncated stream", "P02", "load_state looped forever on a truncated stream and modified the container before validating"),
    ("delayed_delete_vector: swap and move", "D01", "swap() and moves left the offset of removed front elements behind (wrong elements, size underflow)"),
    ("multi_type_vector: a position hint on an empty", "V03", "a position hint on an empty container was dereferenced"),
    ("multi_type_vector: resize() must delete", "V07", "resize() to a smaller size leaked the managed elements in the block it cut"),
    ("multi_type_vector: swap() must not delete", "V07", "swap() destroyed managed elements it moved between blocks (use after free)"),
    ("multi_type_vector: set() must delete", "V07", "set() of a range leaked the managed elements at the start of the last block it overwrote"),
    ("multi_type_vector: set() must merge", "V05", "set() of a range left two neighbouring blocks of one type"),
    ("multi_type_vector: insert() must report", "V06", "insert() of a range reported the following block instead of the new one to the event handler"),
    ("multi_type_vector: a failed copy of the aos", "V08", "a copy that threw leaked the blocks copied so far"),
    ("multi_type_vector: a failed copy of a managed", "V08", "cloning a managed block that threw leaked the elements copied so far"),
    ("multi_type_vector: transfer() with a position hint", "V02", "transfer() with a position hint to the same container was not refused in the AoS variant (use after free)"),
    ("multi_type_matrix: transpose()", "X01", "transpose() threw for integer elements"),
    ("multi_type_matrix: copy() and resize()", "X01", "copy() and resize() threw for integer elements, leaving a partial copy"),
    ("multi_type_matrix: walk() must refuse", "X02", "walk() accepted an end position just past the last row or column (out of bounds)"),
    ("multi_type_matrix: get_integer()", "X01", "get_integer() rounded 64-bit integer elements through double"),
    ("multi_type_vector: collection must refuse", "C01", "set_collection_range() and set_element_range() accepted sizes that overflow"),
]
KNOWN = [
    {"property": "P01", "key": "pack-offset-overflow:uint8:keys-1..254",
     "what": "packing the keys \"1\"..\"254\" with an 8-bit pack_value_type stores offsets truncated to 8 bits instead of failing: the "
             "packed map is unusable (an existing test requires that packing does not throw, so it needs a wider encoding)"},
]


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "a10e4b2..HEAD"],
                         capture_output=True, text=True, check=True).stdout.splitlines()
    out = []
    for line in log:
        h, s = line.split(" ", 1)
        hit = [f for f in FIXED if s.startswith("fix: " + f[0])]
        assert len(hit) == 1, s
        _, p, w = hit[0]
        out.append({"status": "fixed", "property": p, "commit": h, "key": "", "what": w, "record": f"fixed: property={p} {h} {w}"})
    for k in KNOWN:
        out.append({"status": "known", **k})
    with open(os.path.join(HERE, "known_findings.jsonl"), "w") as f:
        for o in out:
            f.write(json.dumps(o) + "\n")
    print(len(out), "entries")


main()
