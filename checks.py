"""Which monitors decide which property."""

# parts each harness is compiled in (element types are spread over them)
PARTS = {"fst": 8, "segtree": 7, "pqt": 5, "rtree": 8, "trie": 8, "mtv": 8, "mtv_clone": 8, "coll": 3, "mtm": 4, "conc": 3, "mtv_trace": 2, "mtv_unroll": 3}

GENERIC = ("A case is a random history of operations derived from the seed and the case number, on one of several element types, run "
           "against a reference model. distinct_nontrivial counts distinct container states (content hash, excluding empty and "
           "default states) which the oracle compared with the model.")
RULES = {}


def stage(src, only, quick, thorough, **kw):
    d = {"src": src, "only": only, "cases": (quick, thorough)}
    d.update(kw)
    return d


CHECKS = {}


def check(pid, *stages, technique="reference-model monitor on executions under ASan+UBSan", note="", **kw):
    kw.setdefault("rule", GENERIC)
    CHECKS[pid] = dict(stages=list(stages), technique=technique, note=note, **kw)


def model(pid, src, only, quick, thorough, **kw):
    """An asan stage in both tiers; the thorough tier repeats a part without assertions and with clang."""
    check(pid, stage(src, only, quick, thorough),
          stage(src, only, 0, max(8, thorough // 4), flavour="asan-ndebug"),
          stage(src, only, 0, max(8, thorough // 4), flavour="asan-clang"), **kw)


model("F01", "fst", "fst_map", 4000, 150000)
model("F02", "fst", "fst_shift", 4000, 150000)
model("F03", "fst", "fst_lookup", 2400, 80000)
model("F04", "fst", "fst_copy", 2400, 80000)
model("S01", "segtree", "segtree_search", 4000, 120000)
model("S02", "segtree", "segtree_copy", 4000, 120000)
model("Q01", "pqt", "pqt_map", 4000, 150000)
model("Q02", "pqt", "pqt_copy", 3000, 100000)
model("R01", "rtree", "rt_search", 2400, 60000)
model("R02", "rtree", "rt_struct", 1200, 60000)
model("R03", "rtree", "rt_copy", 2400, 60000)
model("R04", "rtree", "rt_bulk", 2400, 60000)
model("R05", "rtree", "rt_export", 1600, 40000)
model("T01", "trie", "trie_map", 6000, 200000)
model("T02", "trie", "trie_iter", 4000, 150000)
model("P01", "trie", "trie_packed,trie_limit,trie_overflow", 2000, 60000)
model("P02", "trie", "trie_state", 3000, 80000)
model("M01", "small", "ssm", 8000, 200000)
model("D01", "small", "ddv", 8000, 200000)

# multi_type_vector: both layouts, eight configurations of element types, block storages and loop unrolling each
AOS = ("-DVH_AOS",)
COW = ("-DVH_COW",)


def mtv(pid, only, quick, thorough, soa=True, aos=True, part_list=None, extra=(), **kw):
    st = []
    opt = {} if part_list is None else {"part_list": part_list}
    for on, d in ((soa, ()), (aos, AOS)):
        if on:
            st += [stage("mtv", only, quick, thorough, defines=d, **opt),
                   stage("mtv", only, 0, max(8, thorough // 4), flavour="asan-ndebug", defines=d, **opt),
                   stage("mtv", only, 0, max(8, thorough // 4), flavour="asan-clang", defines=d, **opt)]
    check(pid, *st, *extra, **kw)


mtv("V01", "mtv_content", 20000, 120000, aos=False)
mtv("V02", "mtv_content", 20000, 120000, soa=False)
mtv("V03", "mtv_iters", 12000, 60000)
mtv("V04", "mtv_nav", 1600, 30000)
# the library's own integrity check after each operation as a second observer
DEBUG = ("-DMDDS_MULTI_TYPE_VECTOR_DEBUG",)
mtv("V05", "mtv_blocks", 12000, 60000, extra=[stage("mtv", "mtv_blocks,mtv_content", 0, 10000, defines=d) for d in (DEBUG, AOS + DEBUG)])
mtv("V06", "mtv_events", 12000, 60000)
mtv("V07", "mtv_life", 12000, 60000, part_list=[1, 3, 4, 5])
check("V08", stage("mtv_clone", "mtv_clone", 40000, 40000, flavour="asan14"),
      stage("mtv_clone", "mtv_clone", 4000, 20000, defines=AOS, part_list=[0, 1, 2, 3]))
check("V09", stage("mtv", "mtv_cow", 12000, 60000, defines=COW), stage("mtv_clone", "mtv_clone", 4000, 20000, part_list=[4, 5]))

OMP = ("-fopenmp", "-DMDDS_USE_OPENMP=1")
check("V10", stage("mtv_unroll", "mtv_unroll", 6000, 200000),
      stage("mtv_unroll", "mtv_unroll", 1600, 60000, defines=("-mavx2",), part_list=[0], cpu_flag="avx2"),
      stage("mtv_unroll", "mtv_unroll", 1600, 60000, defines=OMP, jobs=3),
      stage("mtv_unroll", "mtv_unroll", 0, 30000, defines=("-mavx2",) + OMP, part_list=[0], cpu_flag="avx2", jobs=2),
      stage("mtv_unroll", "mtv_unroll", 0, 60000, flavour="asan-ndebug"),
      stage("mtv_unroll", "mtv_unroll", 0, 60000, flavour="asan-clang"),
      note="The AVX2 settings are only watched where the processor has AVX2; the evidence lists the settings that ran.")

model("C01", "coll", "coll", 8000, 200000)
model("X01", "mtm", "mtm_content", 10000, 200000)
model("X02", "mtm", "mtm_walk", 8000, 150000)

check("K01", stage("conc", "conc", 6000, 400000, flavour="tsan", jobs=9), stage("conc", "conc", 1500, 60000, jobs=9),
      stage("conc", "conc", 0, 60000, flavour="tsan-clang", jobs=9),
      technique="ThreadSanitizer on concurrent workloads, with a reference model per thread",
      rule="A case is a team of 2-4 threads that start together on one const container and on copies made up front. distinct_nontrivial "
           "counts distinct interleavings of the threads' steps (recorded by relaxed tickets, at least two switches).")

# every harness once more, without sanitizers, under memcheck: nothing may depend on memory that was never written
check("U01", *[stage(src, only, q, 20 * q, flavour="valgrind", **({"part_list": pl} if pl else {}), **kw) for src, only, q, pl, kw in (
          ("fst", "fst_map,fst_shift,fst_lookup,fst_copy", 800, [0, 1, 3, 4], {}),
          ("segtree", "segtree_search,segtree_copy", 800, [0, 2, 4, 6], {}),
          ("pqt", "pqt_map,pqt_copy", 800, [0, 1, 3], {}),
          ("rtree", "rt_search,rt_struct,rt_copy,rt_bulk", 400, [0, 2, 3, 5, 7], {}),
          ("trie", "trie_map,trie_iter,trie_packed,trie_state", 480, [0, 2, 4, 5, 7], {}),
          ("small", "ssm,ddv", 800, None, {}),
          ("mtv", "mtv_content,mtv_iters,mtv_nav", 400, [0, 1, 3, 5], {}),
          ("mtv", "mtv_content,mtv_nav", 400, [2, 4, 6], {"defines": AOS}),
          ("mtv", "mtv_cow", 400, [1, 3], {"defines": COW}),
          ("coll", "coll", 400, [0, 1], {}),
          ("mtm", "mtm_content,mtm_walk", 400, [0, 2], {}),
          ("mtv_unroll", "mtv_unroll", 160, [0], {}))],
      kinds=(79,), technique="Valgrind memcheck on the workloads of all other monitors",
      note="Held on every execution observed: no branch, address or system call used a byte that was never written. Bytes that are only "
           "copied around are not reported; memory errors that depend on the optimiser are seen at -O1 only.")
check("E01", stage("cost", "cost*", 500, 20000, flavour="cost"),
      technique="Cost monitor: basic blocks executed by one operation, counted by coverage instrumentation, on a small container and on one 64 times as large",
      rule="A case builds one kind of container with n and with 64 n objects (n random) and compares the average cost of each of its operations on "
           "both. distinct_nontrivial counts distinct pairs of operation and size compared.",
      note="Held on every execution observed: no operation promised to be constant or logarithmic cost more than that when the container "
           "became 64 times as large. Costs of the C++ library and of the allocator are counted only as far as they are inlined.")
check("G01", stage("fault", "fault*", 4000, 60000), stage("fault", "fault*", 0, 20000, flavour="asan-clang"),
      technique="Fault injection with a conservation monitor: each allocation of an operation in turn fails; blocks allocated and freed are counted",
      rule="A case makes the allocations of copies, assignments, tree builds, packing, loading, saving and searches of one kind of container "
           "fail one after the other. distinct_nontrivial counts distinct contents copied.",
      note="Held on every execution observed. Only failing allocations are injected (also those made by an element's copy); modifications other "
           "than moves, assignment, clear(), building a tree, loading and the first write to a copy-on-write container are not covered: they promise nothing. "
           "What is allocated once at its first use (the tables of element block functions) is allocated beforehand.")
check("B01", stage("mtv_trace", "mtv_trace", 16000, 400000),
      stage("mtv_trace", "mtv_trace", 0, 100000, flavour="asan-ndebug"),
      stage("mtv_trace", "mtv_trace", 0, 100000, flavour="asan-clang"),
      technique="Trace monitor: recorded trace events against the calls made, and an untraced twin")
