// Failing allocations: whatever runs out of memory must leak nothing and leave every container it did not mean to
// change as it was; a container it did mean to change must still be usable.
#include "common.hpp"
#include <mdds/flat_segment_tree.hpp>
#include <mdds/multi_type_matrix.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/standard_element_blocks.hpp>
#include <mdds/multi_type_vector/collection.hpp>
#include <mdds/point_quad_tree.hpp>
#include <mdds/rtree.hpp>
#include <mdds/segment_tree.hpp>
#include <mdds/trie_map.hpp>
#include <new>

#include <deque>

namespace {
long fault_left = -1;   // allocations until the next one fails; negative: never
long live_blocks = 0;   // blocks allocated and not yet freed
long faults = 0;
void* take(std::size_t n)
{
    if (fault_left >= 0 && fault_left-- == 0)
    {
        ++faults;
        throw std::bad_alloc();
    }
    void* p = std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    ++live_blocks;
    return p;
}
void give(void* p) noexcept
{
    if (p)
        --live_blocks;
    std::free(p);
}
} // namespace
void* operator new(std::size_t n)
{
    return take(n);
}
void* operator new[](std::size_t n)
{
    return take(n);
}
void operator delete(void* p) noexcept
{
    give(p);
}
void operator delete[](void* p) noexcept
{
    give(p);
}
void operator delete(void* p, std::size_t) noexcept
{
    give(p);
}
void operator delete[](void* p, std::size_t) noexcept
{
    give(p);
}


namespace fe {
// Element types of multi_type_vector: text owned by the block, copyable or to be cloned.
template<int>
struct Own
{
    std::string s;
};
template<typename T>
struct CloneOwn
{
    T* operator()(const T* p) const
    {
        return p ? new T{p->s} : nullptr;
    }
};
namespace mtv = mdds::mtv;
using C1 = Own<1>;
using C2 = Own<2>;
using N1 = Own<3>;
using N2 = Own<4>;
using N3 = Own<5>;
struct Txt
{
    std::string s;
    bool operator==(const Txt&) const = default;
};
using C1_block = mtv::managed_element_block<80, C1, mtv::delayed_delete_vector>;
using C2_block = mtv::managed_element_block<81, C2, std::deque>;
using N1_block = mtv::noncopyable_managed_element_block<82, N1, std::vector>;
using N2_block = mtv::noncopyable_managed_element_block<83, N2, std::deque>;
using Txt_block = mtv::default_element_block<84, Txt, std::deque>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(C1, 80, nullptr, C1_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(C2, 81, nullptr, C2_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(N1, 82, nullptr, N1_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(N2, 83, nullptr, N2_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(Txt, 84, Txt(), Txt_block)
} // namespace fe

namespace mdds { namespace mtv {
template<>
struct clone_value<fe::N1*> : fe::CloneOwn<fe::N1>
{};
template<>
struct clone_value<fe::N2*> : fe::CloneOwn<fe::N2>
{};
}} // namespace mdds::mtv

using namespace vh;

namespace {

// Long enough to be allocated.
std::string text(u64 i)
{
    return "a text that does not fit into the string object itself " + std::to_string(i);
}

struct Armed
{
    explicit Armed(long k)
    {
        fault_left = k;
    }
    ~Armed()
    {
        fault_left = -1;
    }
};

// Runs f with the k-th allocation failing, for growing k, until it succeeds. f builds what it needs and drops it again.
// 'same' is asked after each failure.
template<typename F, typename Same>
void fails_cleanly(Rng& r, const char* what, F&& f, Same&& same)
{
    f(); // what is allocated once and for all at its first use is not part of the operation
    long k = 0, n = 0;
    for (;; k += 1 + long(k > 40 ? r.below(k / 8) : 0), ++n)
    {
        long before = live_blocks;
        bool failed = false;
        try
        {
            Armed a(k);
            f();
        }
        catch (const std::bad_alloc&)
        {
            failed = true;
        }
        VCHECK(live_blocks == before, what, ": ", live_blocks - before, " blocks were lost when allocation ", k, " failed");
        if (!failed)
            break;
        count(std::string("failures.") + what);
        same(k);
        if (n > 400)
            break;
    }
    op(what, " needs ", k, " allocations");
    count("fault-sequences");
}

template<typename C, typename Dump>
void copies(Rng& r, const char* name, const C& c, const C& o, Dump&& dump)
{
    const std::string want = dump(c), other = dump(o);
    auto same = [&](long k) {
        VCHECK(dump(c) == want, name, ": the source of a copy changed when allocation ", k, " failed");
        VCHECK(dump(o) == other, name, ": another container changed when allocation ", k, " failed");
    };
    {
        // What is allocated once and for all at its first use is not part of any copy.
        C first(c), second(o);
        first = second;
    }
    fails_cleanly(r, cat(name, ": copy").c_str(), [&] { C d(c); }, same);
    // assignment: what is assigned to keeps its value or is at least usable
    for (long k = 0, n = 0; n < 60; k += 1 + long(r.below(k / 4 + 1)), ++n)
    {
        C d(o);
        const std::string old = dump(d);
        bool failed = false;
        try
        {
            Armed a(k);
            d = c;
        }
        catch (const std::bad_alloc&)
        {
            failed = true;
        }
        same(k);
        std::string got = dump(d);
        if (!failed)
        {
            VCHECK(got == dump(C(c)), name, ": copy assignment");
            break;
        }
        count(cat("failures.", name, ": assignment"));
        VCHECK(got == old, name, ": a copy assignment that failed at allocation ", k, " changed its target to ", got, " from ", old);
    }
    // moving and swapping: either it happens, or nothing changes
    for (int how = 0; how < 4; ++how)
        for (long k = 0; k < 50; ++k)
        {
            const long before = live_blocks;
            bool failed = false;
            {
                C d(c), e(o);
                const std::string wd = dump(d), we = dump(e);
                try
                {
                    Armed a(k);
                    switch (how)
                    {
                        case 0:
                        {
                            C f(std::move(d));
                            fault_left = -1;
                            VCHECK(dump(f) == wd, name, ": move construction");
                            break;
                        }
                        case 1:
                            e = std::move(d);
                            fault_left = -1;
                            VCHECK(dump(e) == wd, name, ": move assignment");
                            break;
                        case 2:
                            d.swap(e);
                            fault_left = -1;
                            VCHECK(dump(d) == we && dump(e) == wd, name, ": swap");
                            break;
                        default:
                            if constexpr (requires { d.clear(); })
                                d.clear();
                    }
                }
                catch (const std::bad_alloc&)
                {
                    failed = true;
                }
                if (failed)
                {
                    VCHECK(dump(d) == wd && dump(e) == we, name, ": a move, swap or clear (", how, ") failed at allocation ", k, " and changed something");
                }
            }
            VCHECK(live_blocks == before, name, ": ", live_blocks - before, " blocks were lost when a move, swap or clear (", how, ") failed at allocation ", k);
            if (!failed)
                break;
            count(cat("failures.", name, how == 0 ? ": move construction" : how == 1 ? ": move assignment" : how == 2 ? ": swap" : ": clear"));
        }
    seen(hstr(want));
}

// Building the tree of a container: one that fails leaves the segments, with no tree.
template<typename C, typename Dump, typename Contents>
void builds(Rng& r, const char* name, const C& c, Dump&& dump, Contents&& contents)
{
    const std::string want = contents(c);
    for (long k = 0, n = 0; n < 100; k += 1 + long(k > 20 ? r.below(k / 8) : 0), ++n)
    {
        long before = live_blocks;
        bool failed = false;
        {
            C d(c);
            if (r.chance(50))
                d.build_tree();
            try
            {
                Armed a(k);
                d.build_tree();
            }
            catch (const std::bad_alloc&)
            {
                failed = true;
            }
            {
                const std::string got = contents(d);
                VCHECK(got == want, name, ": build_tree failing at allocation ", k, " turned ", want, " into ", got);
            }
            if (failed)
            {
                VCHECK(!d.valid_tree(), name, ": build_tree failed at allocation ", k, " and the tree counts as valid");
            }
            if (r.chance(50))
            {
                d.build_tree();
                C e(c);
                e.build_tree();
                VCHECK(dump(d) == dump(e), name, ": build_tree after one that failed");
            }
            else if (r.chance(50))
                d = c;
        }
        VCHECK(live_blocks == before, name, ": ", live_blocks - before, " blocks were lost when build_tree failed at allocation ", k);
        if (!failed)
            break;
        count(cat("failures.", name, ": build_tree"));
    }
}

// ---------------------------------------------------------------- flat_segment_tree
void fst(Rng& r)
{
    using tree = mdds::flat_segment_tree<long, std::string>;
    auto dump = [](const tree& t) {
        std::ostringstream os;
        for (auto it = t.begin(); it != t.end(); ++it)
            os << it->first << ":" << it->second << " ";
        os << t.min_key() << ".." << t.max_key() << " " << t.default_value() << " " << t.valid_tree();
        for (long k = t.min_key(); k < t.max_key(); k += 7)
        {
            std::string s;
            os << " " << t.search(k, s).second << s;
        }
        return os.str();
    };
    auto make = [&](long size) {
        tree t(0, size, text(0));
        for (u64 i = 0, n = r.skewed(30); i < n; ++i)
        {
            long a = r.range(0, size), b = r.range(0, size);
            t.insert_back(std::min(a, b), std::max(a, b), text(r.below(6)));
        }
        if (r.chance(60))
            t.build_tree();
        return t;
    };
    tree a = make(100), b = make(r.chance(50) ? 100 : 60);
    copies(r, "flat_segment_tree", a, b, dump);
    std::string want = dump(a);
    long k = r.range(0, 99);
    fails_cleanly(r, "flat_segment_tree: search", [&] { std::string s; a.search(k, s); a.search_tree(k, s); a.search(a.begin(), k); },
                  [&](long) { VCHECK(dump(a) == want, "unchanged"); });
    builds(r, "flat_segment_tree", a, [&](const tree& t) {
        std::string all = dump(t);
        for (long i = t.min_key(); i < t.max_key(); i += 3)
        {
            std::string v;
            all += t.search_tree(i, v).second ? v : std::string("none");
        }
        return all;
    }, [](const tree& t) {
        std::ostringstream os;
        for (auto it = t.begin(); it != t.end(); ++it)
            os << it->first << ":" << it->second << " ";
        return os.str();
    });
}

// ---------------------------------------------------------------- segment_tree
void st_(Rng& r)
{
    using tree = mdds::segment_tree<long, std::string>;
    auto dump = [](const tree& t) {
        std::ostringstream os;
        os << t.size() << " " << t.valid_tree();
        if (t.valid_tree())
            for (long k = -1; k < 60; k += 3)
            {
                auto res = t.search(k);
                std::multiset<std::string> m;
                for (auto it = res.begin(); it != res.end(); ++it)
                    m.insert(cat(it->start, "-", it->end, it->value));
                os << "|";
                for (auto& s : m)
                    os << s << " ";
            }
        return os.str();
    };
    auto make = [&] {
        tree t;
        for (u64 i = 0, n = r.skewed(30); i < n; ++i)
        {
            long a = r.range(0, 59);
            t.insert(a, a + r.range(1, 20), text(r.below(6)));
        }
        if (r.chance(70))
            t.build_tree();
        return t;
    };
    tree a = make(), b = make();
    copies(r, "segment_tree", a, b, dump);
    std::string want = dump(a);
    long k = r.range(0, 60);
    if (a.valid_tree())
        fails_cleanly(r, "segment_tree: search", [&] { auto res = a.search(k); for (auto it = res.begin(); it != res.end(); ++it) ; },
                      [&](long) { VCHECK(dump(a) == want, "unchanged"); });
    if (r.chance(50))
        a.erase_if([](long s, long, const std::string&) { return s % 3 == 0; });
    builds(r, "segment_tree", a, dump, [](const tree& t) {
        std::ostringstream os;
        os << t.size() << t.empty();
        tree all(t); // the segments themselves show in its results only
        all.build_tree();
        std::multiset<std::string> m;
        for (long k = 0; k < 80; ++k)
        {
            auto res = all.search(k);
            for (auto it = res.begin(); it != res.end(); ++it)
                m.insert(cat(k, ":", it->start, "-", it->end, it->value));
        }
        for (auto& s : m)
            os << s << " ";
        return os.str();
    });
}

// ---------------------------------------------------------------- point_quad_tree
void pqt(Rng& r)
{
    using tree = mdds::point_quad_tree<int, std::string>;
    auto dump = [](const tree& t) {
        std::multiset<std::string> m;
        auto res = t.search_region(-100, -100, 100, 100);
        for (auto it = res.begin(); it != res.end(); ++it)
            m.insert(cat(it->first.x, ",", it->first.y, it->second));
        std::ostringstream os;
        os << t.size() << t.empty();
        for (auto& s : m)
            os << s << " ";
        return os.str();
    };
    auto make = [&] {
        tree t;
        for (u64 i = 0, n = r.skewed(30); i < n; ++i)
            t.insert(int(r.below(20)), int(r.below(20)), text(r.below(6)));
        return t;
    };
    tree a = make(), b = make();
    copies(r, "point_quad_tree", a, b, dump);
    std::string want = dump(a);
    fails_cleanly(r, "point_quad_tree: search_region", [&] { auto res = a.search_region(0, 0, 15, 15); for (auto it = res.begin(); it != res.end(); ++it) ; },
                  [&](long) { VCHECK(dump(a) == want, "unchanged"); });
}

// ---------------------------------------------------------------- rtree
void rt(Rng& r)
{
    using tree = mdds::rtree<int, std::string>;
    auto dump = [](const tree& t) {
        std::multiset<std::string> m;
        auto res = t.search({{-100, -100}, {1000, 1000}}, tree::search_type::overlap);
        for (auto it = res.begin(); it != res.end(); ++it)
            m.insert(cat(it.extent().to_string(), *it));
        std::ostringstream os;
        os << t.size() << t.empty() << t.extent().to_string();
        for (auto& s : m)
            os << s << " ";
        return os.str();
    };
    auto make = [&](u64 n) {
        tree t;
        for (u64 i = 0; i < n; ++i)
        {
            int x = int(r.below(300)), y = int(r.below(300));
            t.insert({{x, y}, {x + int(r.below(20)), y + int(r.below(20))}}, text(r.below(6)));
        }
        return t;
    };
    tree a = make(r.chance(30) ? 100 + r.below(300) : r.skewed(40)), b = make(r.skewed(20));
    copies(r, "rtree", a, b, dump);
    std::string want = dump(a);
    fails_cleanly(r, "rtree: search", [&] { auto res = a.search({{0, 0}, {150, 150}}, tree::search_type::overlap); for (auto it = res.begin(); it != res.end(); ++it) ; },
                  [&](long) { VCHECK(dump(a) == want, "unchanged"); });
    fails_cleanly(r, "rtree: bulk load", [&] {
        tree::bulk_loader l;
        for (int i = 0; i < 60; ++i)
            l.insert({{i * 7 % 50, i * 3 % 40}, {i * 7 % 50 + 3, i * 3 % 40 + 3}}, std::string("x"));
        tree t = l.pack();
    }, [&](long) {});
}

// ---------------------------------------------------------------- tries
void trie(Rng& r)
{
    using map = mdds::trie_map<std::string, std::string>;
    using packed = mdds::packed_trie_map<std::string, std::string>;
    auto dump = [](const auto& t) {
        std::ostringstream os;
        os << t.size() << t.empty();
        for (auto it = t.begin(); it != t.end(); ++it)
            os << it->first << "=" << it->second << " ";
        auto res = t.prefix_search("ab");
        for (auto it = res.begin(); it != res.end(); ++it)
            os << it->first << ";";
        return os.str();
    };
    auto key = [&] {
        std::string k;
        for (u64 n = r.skewed(40); n; --n)
            k += char('a' + r.below(3));
        return k;
    };
    auto make = [&] {
        map t;
        for (u64 i = 0, n = r.skewed(30); i < n; ++i)
            t.insert(key(), text(r.below(6)));
        return t;
    };
    map a = make(), b = make();
    copies(r, "trie_map", a, b, dump);
    packed pa(a), pb(b);
    copies(r, "packed_trie_map", pa, pb, dump);
    std::string want = dump(a), k = key();
    auto same = [&](long) { VCHECK(dump(a) == want && dump(pa) == want, "unchanged"); };
    fails_cleanly(r, "trie_map: pack", [&] { packed p(a); }, same);
    fails_cleanly(r, "trie_map: pack()", [&] { map c(a); auto p = c.pack(); }, same);
    fails_cleanly(r, "trie_map: lookups", [&] {
        a.find(k);
        for (auto it = a.begin(); it != a.end(); ++it) ;
        auto res = a.prefix_search(k);
        for (auto it = res.begin(); it != res.end(); ++it) ;
        pa.find(k);
        auto res2 = pa.prefix_search(k);
        for (auto it = res2.begin(); it != res2.end(); ++it) ;
    }, same);
    fails_cleanly(r, "packed_trie_map: save", [&] { std::ostringstream os; pa.save_state(os); }, same);
    std::ostringstream os;
    pa.save_state(os);
    const std::string state = os.str(), before = dump(pb);
    for (long k = 0, n = 0; n < 200; k += 1 + long(k > 40 ? r.below(k / 8) : 0), ++n)
    {
        std::istringstream is(state);
        bool failed = false;
        const long blocks = live_blocks;
        {
            packed p(pb);
            try
            {
                Armed f(k);
                p.load_state(is);
            }
            catch (const std::bad_alloc&)
            {
                failed = true;
            }
            if (is.bad()) // the stream swallowed the exception
                break;
            VCHECK(dump(p) == (failed ? before : want), "packed_trie_map: load_state, allocation ", k, failed ? " failing" : "");
        }
        VCHECK(live_blocks == blocks, "packed_trie_map: ", live_blocks - blocks, " blocks were lost when load_state failed at allocation ", k);
        if (!failed)
            break;
        count("failures.packed_trie_map: load");
    }
}

// ---------------------------------------------------------------- multi_type_vector
template<typename V>
std::string dump_mtv(const V& v)
{
    std::ostringstream os;
    os << v.size() << "/" << v.block_size();
    std::size_t p = 0;
    for (auto it = v.begin(); it != v.end(); ++it)
    {
        VCHECK(it->position == p, "blocks are not contiguous");
        p += it->size;
        os << " [" << it->type << ":";
        for (std::size_t i = 0; i < it->size; ++i)
            switch (it->type)
            {
                case mdds::mtv::element_type_double:
                    os << mdds::mtv::double_element_block::at(*it->data, i) << ",";
                    break;
                case mdds::mtv::element_type_int32:
                    os << mdds::mtv::int32_element_block::at(*it->data, i) << ",";
                    break;
                case mdds::mtv::element_type_string:
                    os << mdds::mtv::string_element_block::at(*it->data, i) << ",";
                    break;
                default:
                    os << "-";
            }
        os << "]";
        if (it->data)
            VCHECK(V::block_funcs::size(*it->data) == it->size, "stored elements and block size differ");
    }
    VCHECK(p == v.size(), "sizes");
    return os.str();
}

template<typename V>
void fill(Rng& r, V& v, int runs)
{
    for (int i = 0; i < runs; ++i)
    {
        u64 t = r.below(4), n = r.below(5) + 1;
        for (; n; --n)
            switch (t)
            {
                case 0:
                    v.push_back(double(r.below(9)));
                    break;
                case 1:
                    v.push_back(std::int32_t(r.below(9)));
                    break;
                case 2:
                    v.push_back(text(r.below(9)));
                    break;
                default:
                    v.push_back_empty();
            }
    }
}

template<typename V>
void mtv(Rng& r, const char* name)
{
    V a, b;
    fill(r, a, int(r.below(12)) + 1);
    fill(r, b, int(r.below(12)) + 1);
    auto dump = dump_mtv<V>;
    copies(r, name, a, b, dump);
    std::string want = dump(a);
    std::size_t x = r.below(a.size()), y = x + r.below(a.size() - x);
    fails_cleanly(r, cat(name, ": lookups").c_str(), [&] { a.position(x); a.get_type(y); for (auto it = a.begin(); it != a.end(); ++it) ; },
                  [&](long) { VCHECK(dump(a) == want, "unchanged"); });
}

void mtm(Rng& r)
{
    using matrix = mdds::multi_type_matrix<mdds::mtm::std_string_traits>;
    auto dump = [](const matrix& m) {
        std::ostringstream os;
        os << m.size().row << "x" << m.size().column;
        for (std::size_t i = 0; i < m.size().row; ++i)
            for (std::size_t j = 0; j < m.size().column; ++j)
                switch (m.get_type(i, j))
                {
                    case mdds::mtm::element_string:
                        os << " '" << m.get_string(i, j);
                        break;
                    case mdds::mtm::element_empty:
                        os << " -";
                        break;
                    default:
                        os << " " << int(m.get_type(i, j)) << ":" << m.get_numeric(i, j);
                }
        return os.str();
    };
    auto make = [&] {
        matrix m(r.below(8), r.below(8));
        if (!m.size().row || !m.size().column)
            return m;
        for (u64 n = r.skewed(40); n; --n)
        {
            std::size_t i = r.below(m.size().row), j = r.below(m.size().column);
            switch (r.below(4))
            {
                case 0:
                    m.set(i, j, text(r.below(9)));
                    break;
                case 1:
                    m.set(i, j, 2.5);
                    break;
                case 2:
                    m.set(i, j, true);
                    break;
                default:
                    m.set(i, j, int(r.below(9)));
            }
        }
        return m;
    };
    matrix a = make(), b = make();
    copies(r, "multi_type_matrix", a, b, dump);
    const std::string want = dump(a);
    auto same = [&](long) { VCHECK(dump(a) == want, "unchanged"); };
    fails_cleanly(r, "multi_type_matrix: walk", [&] {
        std::size_t n = 0;
        a.walk([&n](const matrix::element_block_node_type& node) { n += node.size; });
    }, same);
    fails_cleanly(r, "multi_type_matrix: comparison", [&] { VCHECK(a == a, "equal to itself"); }, same);
}

template<bool Cow>
struct CopyTraits : mdds::mtv::default_traits
{
    static constexpr bool enable_cow = Cow;
    using block_funcs = mdds::mtv::element_block_funcs<fe::C1_block, fe::C2_block, fe::Txt_block, mdds::mtv::double_element_block>;
};
template<bool Cow>
struct CloneTraits : mdds::mtv::default_traits
{
    static constexpr bool enable_cow = Cow;
    using block_funcs = mdds::mtv::element_block_funcs<fe::N1_block, fe::C2_block, fe::N2_block, mdds::mtv::double_element_block>;
};

template<typename V>
std::string dump_own(const V& v)
{
    std::ostringstream os;
    os << v.size() << "/" << v.block_size();
    for (auto it = v.begin(); it != v.end(); ++it)
    {
        os << " [" << it->position << "+" << it->size << ":" << it->type << ":";
        auto each = [&]<typename B>(const B*) {
            if (it->type == B::block_type)
                for (auto p = B::begin(*it->data); p != B::end(*it->data); ++p)
                    if constexpr (std::is_same_v<B, mdds::mtv::double_element_block>)
                        os << *p << ",";
                    else if constexpr (std::is_same_v<B, fe::Txt_block>)
                        os << p->s << ",";
                    else
                        os << (*p ? (*p)->s : "none") << ",";
        };
        each((fe::C1_block*)nullptr);
        each((fe::C2_block*)nullptr);
        each((fe::N1_block*)nullptr);
        each((fe::N2_block*)nullptr);
        each((fe::Txt_block*)nullptr);
        each((mdds::mtv::double_element_block*)nullptr);
        os << "]";
    }
    return os.str();
}

template<typename V, bool Copy>
void fill_own(Rng& r, V& v)
{
    for (u64 i = r.below(9) + 1; i; --i)
    {
        u64 t = r.below(5), n = r.chance(10) ? r.below(200) + 1 : r.below(5) + 1;
        for (; n; --n)
            switch (t)
            {
                case 0:
                    v.push_back_empty();
                    break;
                case 1:
                    if constexpr (Copy)
                        v.push_back(new fe::C1{text(r.below(9))});
                    else
                        v.push_back(new fe::N1{text(r.below(9))});
                    break;
                case 2:
                    v.push_back(new fe::C2{text(r.below(9))});
                    break;
                case 3:
                    if constexpr (Copy)
                        v.push_back(fe::Txt{text(r.below(9))});
                    else
                        v.push_back(new fe::N2{text(r.below(9))});
                    break;
                default:
                    v.push_back(double(r.below(9)));
            }
    }
}

// Blocks copied by copying (copy constructor) or by cloning (clone()), copied at once or upon the first write.
template<typename V, bool Copy>
void own(Rng& r, const char* name)
{
    V a, b;
    fill_own<V, Copy>(r, a);
    fill_own<V, Copy>(r, b);
    auto dump = dump_own<V>;
    const std::string want = dump(a);
    auto unchanged = [&](long k) { VCHECK(dump(a) == want, name, ": the source changed when allocation ", k, " failed"); };
    if constexpr (Copy)
        copies(r, name, a, b, dump);
    {
        V first = a.clone();
        VCHECK(dump(first) == want, name, ": clone()");
    }
    fails_cleanly(r, cat(name, ": clone").c_str(), [&] { V d = a.clone(); }, unchanged);
    seen(hstr(want));
}

// The first write to a copy on write: the blocks are copied then.
template<typename V>
void cow(Rng& r, const char* name)
{
    V a;
    fill_own<V, true>(r, a);
    a.push_back(7.5);
    auto dump = dump_own<V>;
    const std::string want = dump(a);
    const std::size_t last = a.size() - 1;
    {
        V d(a);
        d.set(last, 7.5);
        VCHECK(dump(d) == want, name, ": first write");
    }
    for (long k = 0, n = 0; n < 200; k += 1 + long(k > 40 ? r.below(k / 8) : 0), ++n)
    {
        long before = live_blocks;
        bool failed = false;
        const bool source = r.chance(50); // write to the source or to the copy
        {
            V s(a); // shares with a
            V d(s);
            V& w = source ? s : d;
            try
            {
                Armed f(k);
                w.set(last, 7.5);
            }
            catch (const std::bad_alloc&)
            {
                failed = true;
            }
            VCHECK(dump(a) == want && dump(s) == want && dump(d) == want, name, ": a first write that failed at allocation ", k, " changed something");
            if (r.chance(50))
            {
                w.set(last, 8.5); // now it works
                VCHECK(dump(w) != want && dump(source ? d : s) == want && dump(a) == want, name, ": a write after one that failed at allocation ", k);
            }
        }
        VCHECK(live_blocks == before, name, ": ", live_blocks - before, " blocks were lost when allocation ", k, " failed during the first write");
        if (!failed)
            break;
        count(cat("failures.", name, ": first write"));
    }
    VCHECK(dump(a) == want, name, ": the source changed");
    // a container that never shared its blocks before
    const Rng again = r;
    for (long k = 0;; ++k)
    {
        const long before = live_blocks;
        bool failed = false;
        {
            Rng same = again;
            V s;
            fill_own<V, true>(same, s);
            const std::string content = dump(s);
            try
            {
                Armed f(k);
                V d(s);
            }
            catch (const std::bad_alloc&)
            {
                failed = true;
            }
            VCHECK(dump(s) == content, name, ": a first copy that failed at allocation ", k, " changed its source");
            if (k % 2)
                s.push_back(8.5);
            V d(s);
            VCHECK(dump(d) == dump(s), name, ": a copy after one that failed at allocation ", k);
        }
        VCHECK(live_blocks == before, name, ": ", live_blocks - before, " blocks were lost when allocation ", k, " failed during the first copy");
        if (!failed)
            break;
        count(cat("failures.", name, ": first copy"));
    }
}
} // namespace

int main(int argc, char** argv)
{
    using Soa = mdds::mtv::soa::multi_type_vector<mdds::mtv::standard_element_blocks_traits>;
    using Aos = mdds::mtv::aos::multi_type_vector<mdds::mtv::standard_element_blocks_traits>;
    return drive(argc, argv, {
        {"fault_fst", 1, fst}, {"fault_st", 1, st_}, {"fault_pqt", 1, pqt}, {"fault_rt", 1, rt}, {"fault_trie", 1, trie},
        {"fault_soa", 1, [](Rng& r) { mtv<Soa>(r, "multi_type_vector (soa)"); }},
        {"fault_own", 1, [](Rng& r) {
            using namespace mdds::mtv;
            switch (r.below(7))
            {
                case 0:
                    return own<soa::multi_type_vector<CopyTraits<false>>, true>(r, "copyable (soa)");
                case 1:
                    return own<soa::multi_type_vector<CopyTraits<true>>, true>(r, "copyable (soa, cow)");
                case 2:
                    return own<aos::multi_type_vector<CopyTraits<false>>, true>(r, "copyable (aos)");
                case 3:
                    return own<soa::multi_type_vector<CloneTraits<false>>, false>(r, "cloneable (soa)");
                case 4:
                    return own<soa::multi_type_vector<CloneTraits<true>>, false>(r, "cloneable (soa, cow)");
                case 5:
                    return own<aos::multi_type_vector<CloneTraits<false>>, false>(r, "cloneable (aos)");
                default:
                    return cow<soa::multi_type_vector<CopyTraits<true>>>(r, "copy on write");
            }
        }},
        {"fault_mtm", 1, mtm}, {"fault_aos", 1, [](Rng& r) { mtv<Aos>(r, "multi_type_vector (aos)"); }},
    });
}
