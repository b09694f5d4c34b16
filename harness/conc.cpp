// Several threads at once: readers of const containers, and writers of separate copies. Runs under ThreadSanitizer, which
// reports every conflicting pair of accesses that is not ordered; the results of each thread are compared with a model as well.
#include "common.hpp"
#include <atomic>
#include <mutex>
#include <thread>

#include <mdds/multi_type_vector/types.hpp>
#include <mdds/multi_type_vector/macro.hpp>
#include <mdds/multi_type_vector/block_funcs.hpp>
#include <mdds/multi_type_vector/standard_element_blocks.hpp>

#if VH_PART == 2
#include <mdds/flat_segment_tree.hpp>
#include <mdds/segment_tree.hpp>
#include <mdds/point_quad_tree.hpp>
#include <mdds/rtree.hpp>
#include <mdds/trie_map.hpp>
#include <mdds/sorted_string_map.hpp>
#else
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#include <mdds/multi_type_vector/collection.hpp>
#include <mdds/multi_type_matrix.hpp>
#endif

using namespace vh;
namespace mtv = mdds::mtv;

namespace {

std::mutex& fail_mutex()
{
    static std::mutex m;
    return m;
}
[[noreturn]] void fail(const std::string& s)
{
    fail_mutex().lock(); // never released: the process ends
    violation(s);
}
// VCHECK counts in a plain variable
#define TCHECK(cond, ...)                                                                                              \
    do                                                                                                                 \
    {                                                                                                                  \
        ++me.evals;                                                                                                    \
        if (!(cond)) [[unlikely]]                                                                                      \
            fail(vh::cat("[", #cond, "] in thread ", me.id, ": ", __VA_ARGS__, " (", __FILE__, ":", __LINE__, ")"));   \
    } while (0)

std::atomic<unsigned> ticket{0};
std::atomic<unsigned char> order[4096];

struct Me
{
    int id = 0;
    Rng r;
    u64 evals = 0;
    u64 steps = 0;
    // Relaxed on purpose: the record of the interleaving must not order the threads.
    void tick()
    {
        ++steps;
        unsigned t = ticket.fetch_add(1, std::memory_order_relaxed);
        if (t < 4096)
            order[t].store(static_cast<unsigned char>(id + 1), std::memory_order_relaxed);
        unsigned x = static_cast<unsigned>(r.below(100));
        if (x < 15)
            std::this_thread::yield();
        else if (x < 18)
            std::this_thread::sleep_for(std::chrono::microseconds(r.below(60)));
    }
};

template<typename F>
void team(Rng& r, int n, F f)
{
    ticket.store(0, std::memory_order_relaxed);
    std::atomic<int> ready{0};
    std::vector<Me> me(n);
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i)
    {
        me[i].id = i;
        me[i].r = Rng(r.next());
    }
    for (int i = 0; i < n; ++i)
        th.emplace_back([&, i] {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < n)
                std::this_thread::yield();
            f(me[i]);
        });
    for (auto& t : th)
        t.join();
    u64 h = n;
    unsigned m = std::min(4096u, ticket.load(std::memory_order_relaxed));
    unsigned switches = 0;
    for (unsigned i = 0; i < m; ++i)
    {
        unsigned char o = order[i].load(std::memory_order_relaxed);
        h = hcomb(h, o);
        switches += i && o != order[i - 1].load(std::memory_order_relaxed);
    }
    for (auto& x : me)
    {
        st().evals += x.evals;
        count("thread steps", x.steps);
    }
    count("thread switches", switches);
    count("teams");
    if (switches > 1)
        seen(h);
}

std::string sval(int v)
{
    return (v & 1 ? "a string that is long enough for the heap " : "s") + std::to_string(v);
}

} // namespace

#if VH_PART != 2
namespace vh {
struct CObj
{
    static std::atomic<long>& live()
    {
        static std::atomic<long> n{0};
        return n;
    }
    int v;
    explicit CObj(int x) : v(x)
    {
        live().fetch_add(1, std::memory_order_relaxed);
    }
    CObj(const CObj& o) : v(o.v)
    {
        live().fetch_add(1, std::memory_order_relaxed);
    }
    ~CObj()
    {
        v = -12345;
        live().fetch_sub(1, std::memory_order_relaxed);
    }
};
using CObj_block = mtv::managed_element_block<90, CObj>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(CObj, 90, nullptr, CObj_block)
} // namespace vh

namespace {

struct Cell
{
    int k = 0; // 0 empty, 1 integer, 2 string, 3 double, 4 managed
    int v = 0;
    bool operator==(const Cell&) const = default;
};
using Model = std::vector<Cell>;

struct Counter
{
    long blocks = 0;
    void element_block_acquired(const mtv::base_element_block*)
    {
        ++blocks;
    }
    void element_block_released(const mtv::base_element_block*)
    {
        --blocks;
    }
};

struct TrBase : mtv::default_traits
{
    using event_func = Counter;
    using block_funcs = mtv::element_block_funcs<
        mtv::int32_element_block, mtv::string_element_block, mtv::double_element_block, CObj_block>;
};
struct TrCow : TrBase
{
    static constexpr bool enable_cow = true;
};
using Soa = mtv::soa::multi_type_vector<TrBase>;
using Cow = mtv::soa::multi_type_vector<TrCow>;
using Aos = mtv::aos::multi_type_vector<TrBase>;

int type_of(int k)
{
    switch (k)
    {
        case 0:
            return mtv::element_type_empty;
        case 1:
            return mtv::element_type_int32;
        case 2:
            return mtv::element_type_string;
        case 3:
            return mtv::element_type_double;
        default:
            return 90;
    }
}

template<typename V>
void put(V& v, std::size_t p, Cell c)
{
    switch (c.k)
    {
        case 0:
            v.set_empty(p, p);
            break;
        case 1:
            v.set(p, std::int32_t(c.v));
            break;
        case 2:
            v.set(p, sval(c.v));
            break;
        case 3:
            v.set(p, c.v + 0.5);
            break;
        default:
            v.set(p, new CObj(c.v));
    }
}

template<typename V>
bool at(const V& v, std::size_t p, Cell c)
{
    if (v.get_type(p) != type_of(c.k) || v.is_empty(p) != (c.k == 0))
        return false;
    switch (c.k)
    {
        case 0:
            return true;
        case 1:
            return v.template get<std::int32_t>(p) == c.v;
        case 2:
            return v.template get<std::string>(p) == sval(c.v);
        case 3:
            return v.template get<double>(p) == c.v + 0.5;
        default:
            return v.template get<CObj*>(p)->v == c.v;
    }
}

template<typename V>
void read_all(Me& me, const V& v, const Model& m, const char* what)
{
    TCHECK(v.size() == m.size() && v.empty() == m.empty(), what, ": size ", v.size(), " not ", m.size());
    std::size_t p = 0, blocks = 0;
    for (auto it = v.begin(); it != v.end(); ++it, ++blocks)
    {
        TCHECK(it->position == p, what, ": block position");
        for (std::size_t i = 0; i < it->size; ++i, ++p)
        {
            TCHECK(p < m.size() && it->type == type_of(m[p].k), what, ": type at ", p);
            switch (m[p].k)
            {
                case 1:
                    TCHECK(mtv::int32_element_block::at(*it->data, i) == m[p].v, what, ": value at ", p);
                    break;
                case 2:
                    TCHECK(mtv::string_element_block::at(*it->data, i) == sval(m[p].v), what, ": value at ", p);
                    break;
                case 3:
                    TCHECK(mtv::double_element_block::at(*it->data, i) == m[p].v + 0.5, what, ": value at ", p);
                    break;
                case 4:
                    TCHECK(CObj_block::at(*it->data, i)->v == m[p].v, what, ": value at ", p);
                    break;
                default:;
            }
        }
    }
    TCHECK(p == m.size() && blocks == v.block_size(), what, ": the blocks cover ", p, " of ", m.size());
}

template<typename V>
void read_some(Me& me, const V& v, const Model& m, const char* what)
{
    if (m.empty())
        return;
    auto hint = v.cbegin();
    for (int k = 0; k < 4; ++k)
    {
        std::size_t p = me.r.below(m.size());
        TCHECK(at(v, p, m[p]), what, ": element at ", p);
        auto pos = v.position(hint, p);
        TCHECK(V::logical_position(pos) == p, what, ": position of ", p);
        hint = pos.first;
    }
    for (auto it = v.rbegin(); it != v.rend(); ++it)
        TCHECK(it->size > 0, what, ": reverse iteration");
}

template<typename V>
Model fill(Rng& r, V& v, std::size_t n)
{
    Model m;
    while (m.size() < n)
    {
        int k = int(r.below(5));
        for (std::size_t len = 1 + r.below(6); len && m.size() < n; --len)
            m.push_back({k, int(r.below(1000))});
    }
    v = V(n);
    for (std::size_t p = 0; p < n; ++p)
        if (m[p].k)
            put(v, p, m[p]);
    return m;
}

template<typename V>
struct Own
{
    V v;
    Model m;
};

// a modification of the thread's own container
template<typename V>
void modify(Me& me, V& v, Model& m)
{
    Rng& r = me.r;
    std::size_t n = m.size();
    if (!n)
    {
        v.push_back(std::int32_t(7));
        m.push_back({1, 7});
        return;
    }
    std::size_t p = r.below(n), e = r.range(p, std::min(n - 1, p + 6));
    switch (r.below(9))
    {
        case 0:
        case 1:
            m[p] = {int(r.below(5)), int(r.below(1000))};
            put(v, p, m[p]);
            break;
        case 2:
            v.set_empty(p, e);
            for (; p <= e; ++p)
                m[p] = {};
            break;
        case 3:
            v.erase(p, e);
            m.erase(m.begin() + p, m.begin() + e + 1);
            break;
        case 4:
            v.insert_empty(p, e - p + 1);
            m.insert(m.begin() + p, e - p + 1, Cell());
            break;
        case 5:
        {
            std::vector<std::string> a;
            std::vector<Cell> c;
            for (; p <= e; ++p)
            {
                c.push_back({2, int(r.below(1000))});
                a.push_back(sval(c.back().v));
            }
            p = r.below(n);
            if (r.chance(50) && p + a.size() <= n)
            {
                v.set(p, a.begin(), a.end());
                std::copy(c.begin(), c.end(), m.begin() + p);
            }
            else
            {
                v.insert(p, a.begin(), a.end());
                m.insert(m.begin() + p, c.begin(), c.end());
            }
            break;
        }
        case 6:
            v.push_back(new CObj(int(n)));
            m.push_back({4, int(n)});
            break;
        case 7:
            v.resize(p);
            m.resize(p);
            break;
        default:
            m[p] = {4, int(r.below(1000))};
            put(v, p, m[p]);
    }
}

template<typename V>
void thread_of_copies(Me& me, Own<V> own, const V& shared, const Model& sm, const V* other, const Model* om)
{
    std::vector<Own<V>> mine;
    mine.push_back(std::move(own));
    int n = int(me.r.range(5, 25));
    for (int i = 0; i < n; ++i)
    {
        me.tick();
        auto& x = mine[me.r.below(mine.size())];
        switch (me.r.below(9))
        {
            case 0:
            case 1:
            case 2:
                modify(me, x.v, x.m);
                break;
            case 3:
                if (mine.size() < 4)
                {
                    Own<V> c{V(x.v), x.m}; // a copy of the thread's own container
                    mine.push_back(std::move(c));
                }
                else
                    mine.pop_back();
                break;
            case 4:
                read_all(me, shared, sm, "the shared container");
                break;
            case 5:
                read_some(me, shared, sm, "the shared container");
                if (other)
                    read_some(me, *other, *om, "another shared container");
                break;
            case 6:
                if (mine.size() > 1)
                {
                    // within the thread
                    auto& y = mine[me.r.below(mine.size())];
                    if (&x != &y)
                    {
                        std::size_t k = std::min(x.m.size(), y.m.size());
                        if (k)
                        {
                            std::size_t p = me.r.below(k), e = me.r.range(p, k - 1);
                            if (me.r.chance(50))
                            {
                                x.v.swap(p, e, y.v, p);
                                std::swap_ranges(x.m.begin() + p, x.m.begin() + e + 1, y.m.begin() + p);
                            }
                            else
                            {
                                x.v.transfer(p, e, y.v, p);
                                for (; p <= e; ++p)
                                {
                                    y.m[p] = x.m[p];
                                    x.m[p] = {};
                                }
                            }
                        }
                    }
                }
                break;
            case 7:
                x.v = V(x.v);
                break;
            default:
                read_all(me, x.v, x.m, "own container");
        }
    }
    for (auto& x : mine)
        read_all(me, x.v, x.m, "own container at the end");
    while (!mine.empty())
    {
        me.tick();
        mine.pop_back();
    }
}

template<typename V>
void copies(Rng& r)
{
    long before = CObj::live().load();
    {
        V src;
        Model m = fill(r, src, r.pick<std::size_t>({3, 8, 20, 50}));
        int n = int(r.range(2, 4));
        std::vector<Own<V>> c;
        for (int i = 0; i < n; ++i)
        {
            // copies of the source, or of another copy
            const V& from = c.empty() || r.chance(60) ? src : c[r.below(c.size())].v;
            if (r.chance(70))
                c.push_back({V(from), m});
            else if constexpr (requires { from.clone(); })
                c.push_back({from.clone(), m});
            else
                c.push_back({V(from), m});
        }
        // the source may go early, stay as it is, or be changed by one of the threads
        int fate = int(r.below(3));
        op("elements: ", m.size(), " copies: ", n, " fate of the source: ", fate);
        V ro;
        Model rm = fill(r, ro, 10);
        V keep(ro); // a container that only gets read, while it shares with ro
        if (fate == 0)
        {
            c.push_back({std::move(src), m});
            src = V();
            ++n;
        }
        const V& shared = fate == 1 ? src : ro;
        const Model& sm = fate == 1 ? m : rm;
        team(r, n, [&](Me& me) {
            thread_of_copies<V>(me, {std::move(c[me.id].v), std::move(c[me.id].m)}, shared, sm, &keep, &rm);
            c[me.id].v.clear();
        });
        Me me;
        read_all(me, shared, sm, "the shared container afterwards");
        read_all(me, keep, rm, "the other shared container afterwards");
        st().evals += me.evals;
    }
    VCHECK(CObj::live().load() == before, "managed elements left after all containers were destroyed: ", CObj::live().load() - before);
}

// const access by everyone
template<typename V>
void readers(Rng& r)
{
    std::vector<V> v(3);
    std::size_t n = r.pick<std::size_t>({4, 20, 60});
    std::vector<Model> m;
    for (auto& x : v)
        m.push_back(fill(r, x, n));
    V eq = v[0];
    const V& ceq = eq;
    mtv::collection<V> coll(v.begin(), v.end());
    const auto& ccoll = coll;
    op("readers of ", n, " elements");
    team(r, int(r.range(2, 4)), [&](Me& me) {
        for (int k = int(me.r.range(3, 12)); k; --k)
        {
            me.tick();
            std::size_t i = me.r.below(v.size());
            const V& x = v[i];
            switch (me.r.below(4))
            {
                case 0:
                    read_all(me, x, m[i], "container");
                    break;
                case 1:
                    read_some(me, x, m[i], "container");
                    break;
                case 2:
                {
                    bool managed = false;
                    for (auto& c : m[0])
                        managed |= c.k == 4;
                    bool same = ceq == static_cast<const V&>(v[0]);
                    if (!managed)
                        TCHECK(same, "equality of equal containers");
                    break;
                }
                default:
                {
                    std::size_t q = 0;
                    for (auto it = ccoll.begin(); it != ccoll.end(); ++it, ++q)
                        TCHECK(it->index == q % 3 && it->position == q / 3 && it->type == type_of(m[q % 3][q / 3].k), "collection element ", q);
                    TCHECK(q == 3 * n, "collection size");
                }
            }
        }
    });
}

void matrix(Rng& r)
{
    using M = mdds::multi_type_matrix<mdds::mtm::std_string_traits>;
    std::size_t rows = r.range(1, 8), cols = r.range(1, 8);
    M x(rows, cols);
    Model m(rows * cols);
    for (std::size_t p = 0; p < m.size(); ++p)
    {
        m[p] = {int(r.below(4)), int(r.below(100))};
        switch (m[p].k)
        {
            case 1:
                x.set(p % rows, p / rows, int(m[p].v));
                break;
            case 2:
                x.set(p % rows, p / rows, sval(m[p].v));
                break;
            case 3:
                x.set(p % rows, p / rows, m[p].v + 0.5);
                break;
            default:;
        }
    }
    const M& cx = x;
    op("matrix ", rows, " x ", cols);
    auto check = [&](Me& me, const M& y) {
        for (std::size_t p = 0; p < m.size(); ++p)
        {
            double d = m[p].k == 1 ? m[p].v : m[p].k == 3 ? m[p].v + 0.5 : 0;
            TCHECK(y.get_numeric(p % rows, p / rows) == d, "matrix element");
            if (m[p].k == 2)
                TCHECK(y.get_string(p % rows, p / rows) == sval(m[p].v), "matrix string");
        }
    };
    team(r, int(r.range(2, 4)), [&](Me& me) {
        for (int k = int(me.r.range(2, 8)); k; --k)
        {
            me.tick();
            check(me, cx);
            std::size_t n = 0;
            cx.walk([&](const M::element_block_node_type& b) { n += b.size; });
            TCHECK(n == m.size(), "walk");
            M own(cx);
            own.transpose();
            own.transpose();
            check(me, own);
            TCHECK(own == cx, "a copy that was transposed twice");
            own.resize(rows + 1, cols, 2.5);
            check(me, cx);
        }
    });
}

} // namespace
#else
namespace {

// A copy for every thread, made up front or by the thread itself, next to readers of the original.
void fst(Rng& r)
{
    using T = mdds::flat_segment_tree<int, std::string>;
    T t(0, 100, sval(0));
    std::vector<int> m(100, 0);
    for (int k = int(r.below(20)); k; --k)
    {
        int a = int(r.below(100)), b = int(r.range(a + 1, 100)), v = int(r.below(10));
        t.insert_back(a, b, sval(v));
        std::fill(m.begin() + a, m.begin() + b, v);
    }
    t.build_tree();
    const T& ct = t;
    op("flat_segment_tree of ", t.leaf_size(), " leaves");
    auto look = [](Me& me, const T& x, const std::vector<int>& m, bool tree) {
        for (int k = 0; k < 6; ++k)
        {
            int key = int(me.r.below(100)), b = -1, e = -1;
            std::string v;
            bool ok = (tree ? x.search_tree(key, v, &b, &e) : x.search(key, v, &b, &e)).second;
            TCHECK(ok && v == sval(m[key]) && b <= key && key < e, "search of ", key);
        }
        int pos = 0;
        for (auto it = x.begin_segment(); it != x.end_segment(); ++it)
        {
            TCHECK(it->start == pos && it->value == sval(m[pos]), "segment at ", pos);
            pos = it->end;
        }
        TCHECK(pos == 100, "segments end at ", pos);
        pos = 0;
        for (const auto& seg : x.segment_range())
        {
            TCHECK(seg.start == pos && seg.value == sval(m[pos]), "segment range at ", pos);
            pos = seg.end;
        }
        TCHECK(pos == 100, "the segment range ends at ", pos);
        int last = 101;
        for (auto it = x.rbegin(); it != x.rend(); ++it)
        {
            TCHECK(it->first < last, "reverse iteration at ", it->first);
            last = it->first;
        }
        int key = int(me.r.below(100));
        auto it = x.search(x.begin(), key);
        TCHECK(it != x.end() && it->second == sval(m[key]), "search from a position");
        auto seg = it.to_segment();
        TCHECK(seg->start <= key && key < seg->end, "to_segment()");
    };
    team(r, int(r.range(2, 4)), [&](Me& me) {
        for (int k = int(me.r.range(2, 6)); k; --k)
        {
            me.tick();
            look(me, ct, m, me.r.chance(50));
            T own(ct);
            std::vector<int> om = m;
            TCHECK(own == ct, "a copy is equal");
            int a = int(me.r.below(99)), b = int(me.r.range(a + 1, 100)), v = int(me.r.below(10));
            own.insert_front(a, b, sval(v));
            std::fill(om.begin() + a, om.begin() + b, v);
            look(me, own, om, false);
            own.build_tree();
            look(me, own, om, true);
        }
    });
}

void segtree(Rng& r)
{
    using T = mdds::segment_tree<int, std::string>;
    struct S
    {
        int a, b, v;
    };
    std::vector<S> m;
    T t;
    for (int k = int(r.below(25)); k; --k)
    {
        int a = int(r.below(100)), b = a + 1 + int(r.below(30));
        m.push_back({a, b, int(m.size())});
        t.insert(a, b, sval(m.back().v));
    }
    t.build_tree();
    const T& ct = t;
    op("segment_tree of ", m.size(), " segments");
    auto look = [](Me& me, const T& x, const std::vector<S>& m) {
        for (int k = 0; k < 5; ++k)
        {
            int key = int(me.r.below(130));
            std::multiset<std::string> want, got;
            for (auto& s : m)
                if (s.a <= key && key < s.b)
                    want.insert(sval(s.v));
            for (const auto& s : x.search(key))
                got.insert(s.value);
            TCHECK(want == got, "search of ", key);
        }
        TCHECK(x.size() == m.size() && x.empty() == m.empty(), "size");
        std::set<int> keys, want;
        for (auto& s : m)
            want.insert(s.a), want.insert(s.b);
        for (int k : x.boundary_keys())
            keys.insert(k);
        TCHECK(keys == want, "boundary keys");
    };
    team(r, int(r.range(2, 4)), [&](Me& me) {
        for (int k = int(me.r.range(2, 6)); k; --k)
        {
            me.tick();
            look(me, ct, m);
            T own(ct);
            auto om = m;
            om.push_back({5, 60, 777});
            own.insert(5, 60, sval(777));
            own.build_tree();
            look(me, own, om);
        }
    });
}

void pqt(Rng& r)
{
    using T = mdds::point_quad_tree<int, int>;
    std::map<std::pair<int, int>, int> m;
    T t;
    for (int k = int(r.below(30)); k; --k)
    {
        int x = int(r.below(30)), y = int(r.below(30));
        m[{x, y}] = k;
        t.insert(x, y, k);
    }
    const T& ct = t;
    op("point_quad_tree of ", m.size(), " points");
    auto look = [](Me& me, const T& x, const std::map<std::pair<int, int>, int>& m) {
        int x1 = int(me.r.below(30)), x2 = int(me.r.range(x1, 30)), y1 = int(me.r.below(30)), y2 = int(me.r.range(y1, 30));
        std::map<std::pair<int, int>, int> want, got;
        for (auto& [p, v] : m)
            if (p.first >= x1 && p.first <= x2 && p.second >= y1 && p.second <= y2)
                want[p] = v;
        auto res = x.search_region(x1, y1, x2, y2);
        for (auto it = res.begin(); it != res.end(); ++it)
            got[{it->first.x, it->first.y}] = it->second;
        TCHECK(got == want, "search_region");
        std::size_t nodes = 0;
        std::function<void(typename T::node_access)> walk = [&](typename T::node_access n) {
            if (!n)
                return;
            ++nodes;
            walk(n.northeast());
            walk(n.northwest());
            walk(n.southeast());
            walk(n.southwest());
        };
        walk(x.get_node_access());
        TCHECK(nodes == m.size(), "node access finds ", nodes, " of ", m.size());
        for (auto& [p, v] : m)
            TCHECK(x.find(p.first, p.second) == v, "find");
        TCHECK(x.size() == m.size(), "size");
    };
    team(r, int(r.range(2, 4)), [&](Me& me) {
        for (int k = int(me.r.range(2, 6)); k; --k)
        {
            me.tick();
            look(me, ct, m);
            T own(ct);
            auto om = m;
            TCHECK(own == ct, "a copy is equal");
            own.insert(3, 4, -5);
            om[{3, 4}] = -5;
            if (!m.empty())
            {
                own.remove(m.begin()->first.first, m.begin()->first.second);
                om.erase(m.begin()->first);
            }
            look(me, own, om);
        }
    });
}

void rtree(Rng& r)
{
    using T = mdds::rtree<int, int>;
    struct B
    {
        int x1, y1, x2, y2, v;
    };
    std::vector<B> m;
    T t;
    for (int k = int(r.below(200)); k; --k)
    {
        int x = int(r.below(100)), y = int(r.below(100));
        m.push_back({x, y, x + int(r.below(10)), y + int(r.below(10)), k});
        auto& b = m.back();
        t.insert({{b.x1, b.y1}, {b.x2, b.y2}}, int(b.v));
    }
    const T& ct = t;
    op("rtree of ", m.size(), " objects");
    auto look = [](Me& me, const T& x, const std::vector<B>& m) {
        int x1 = int(me.r.below(100)), y1 = int(me.r.below(100)), x2 = x1 + int(me.r.below(40)), y2 = y1 + int(me.r.below(40));
        std::multiset<int> want, got;
        for (auto& b : m)
            if (b.x1 <= x2 && b.x2 >= x1 && b.y1 <= y2 && b.y2 >= y1)
                want.insert(b.v);
        auto res = x.search({{x1, y1}, {x2, y2}}, T::search_type::overlap);
        for (auto it = res.cbegin(); it != res.cend(); ++it)
            got.insert(*it);
        TCHECK(got == want, "search");
        TCHECK(x.size() == m.size() && x.empty() == m.empty(), "size");
        if (!m.empty())
        {
            auto& b = m[me.r.below(m.size())];
            auto hit = x.search({{b.x1, b.y1}, {b.x2, b.y2}}, T::search_type::match);
            bool found = false;
            for (auto it = hit.cbegin(); it != hit.cend(); ++it)
                found |= *it == b.v && it.extent().start.d[0] == b.x1;
            TCHECK(found, "match search");
            TCHECK(x.extent().start.d[0] <= b.x1, "extent");
            if (me.r.chance(10))
                TCHECK(!x.export_tree(T::export_tree_type::formatted_node_properties).empty(), "export");
        }
    };
    team(r, int(r.range(2, 4)), [&](Me& me) {
        for (int k = int(me.r.range(2, 5)); k; --k)
        {
            me.tick();
            look(me, ct, m);
            T own(ct);
            auto om = m;
            for (int i = 0; i < 5; ++i)
            {
                om.push_back({50, 50, 60, 60, 1000 + i});
                own.insert({{50, 50}, {60, 60}}, 1000 + i);
            }
            look(me, own, om);
        }
    });
}

void trie(Rng& r)
{
    using T = mdds::trie_map<std::string, std::string>;
    using P = mdds::packed_trie_map<std::string, std::string>;
    std::map<std::string, std::string> m;
    T t;
    for (int k = int(r.below(40)); k; --k)
    {
        std::string key;
        for (int i = int(r.range(1, 5)); i; --i)
            key += char('a' + r.below(3));
        m[key] = sval(k);
        t.insert(key, sval(k));
    }
    P p = T(t).pack(); // pack() moves the values
    const T& ct = t;
    const P& cp = p;
    op("trie of ", m.size(), " keys");
    auto look = [](Me& me, const auto& x, const std::map<std::string, std::string>& m) {
        auto it = x.begin();
        for (auto& [k, v] : m)
        {
            TCHECK(it != x.end() && it->first == k && it->second == v, "iteration at ", k);
            ++it;
            auto f = x.find(k);
            TCHECK(f != x.end() && f->second == v, "find ", k);
        }
        TCHECK(it == x.end(), "iteration end");
        for (auto p = m.rbegin(); p != m.rend(); ++p)
        {
            --it;
            TCHECK(it->first == p->first && it->second == p->second, "reverse iteration at ", p->first);
        }
        if (!m.empty())
        {
            auto n = x.root_node();
            for (char c : m.begin()->first)
            {
                TCHECK(n.valid() && n.has_child(), "node on the path");
                n = n.child(c);
            }
            TCHECK(n.valid() && n.has_value() && n.value() == m.begin()->second, "node value");
        }
        std::string pre(1, char('a' + me.r.below(3)));
        std::size_t n = 0, w = 0;
        auto res = x.prefix_search(pre);
        for (auto&& e : res)
            n += e.first.compare(0, 1, pre) == 0;
        for (auto& e : m)
            w += e.first.compare(0, 1, pre) == 0;
        TCHECK(n == w, "prefix search");
        TCHECK(x.size() == m.size(), "size");
    };
    team(r, int(r.range(2, 4)), [&](Me& me) {
        for (int k = int(me.r.range(2, 5)); k; --k)
        {
            me.tick();
            look(me, ct, m);
            look(me, cp, m);
            T own(ct);
            auto om = m;
            own.insert("abc", "x");
            om["abc"] = "x";
            look(me, own, om);
            P po(cp), pn(ct);
            look(me, po, m);
            TCHECK(po == cp && pn == cp, "packed copies are equal");
            std::ostringstream os;
            cp.save_state(os);
            P pl;
            std::istringstream is(os.str());
            pl.load_state(is);
            look(me, pl, m);
        }
    });
}

void ssm(Rng& r)
{
    using T = mdds::sorted_string_map<int>;
    std::set<std::string> keys;
    for (int k = int(r.range(1, 40)); k; --k)
        keys.insert("k" + std::to_string(r.below(1000)));
    std::vector<std::string> ks(keys.begin(), keys.end());
    std::vector<T::entry_type> e;
    for (std::size_t i = 0; i < ks.size(); ++i)
        e.push_back({ks[i], int(i)});
    T t(std::span<const T::entry_type>(e), -1);
    const T& ct = t;
    op("sorted_string_map of ", ks.size());
    team(r, int(r.range(2, 4)), [&](Me& me) {
        for (int k = int(me.r.range(2, 6)); k; --k)
        {
            me.tick();
            for (std::size_t i = 0; i < ks.size(); ++i)
            {
                TCHECK(ct.find(ks[i]) == int(i), "find ", ks[i]);
                TCHECK(ct.find_key(int(i)) == ks[i], "find_key ", i);
            }
            TCHECK(ct.find("zzz") == -1, "find of an absent key");
        }
    });
}

} // namespace
#endif

int main(int argc, char** argv)
{
    return drive(argc, argv, {{"conc", 10, [](Rng& r) {
#if VH_PART == 0
        copies<Cow>(r);
#elif VH_PART == 1
        switch (r.below(7))
        {
            case 0:
                return readers<Soa>(r);
            case 1:
                return readers<Aos>(r);
            case 2:
                return readers<Cow>(r);
            case 3:
                return matrix(r);
            case 4:
                return copies<Soa>(r);
            case 5:
                return copies<Aos>(r);
            default:
                return copies<Cow>(r);
        }
#else
        switch (r.below(6))
        {
            case 0:
                return fst(r);
            case 1:
                return segtree(r);
            case 2:
                return pqt(r);
            case 3:
                return rtree(r);
            case 4:
                return trie(r);
            default:
                return ssm(r);
        }
#endif
    }}});
}
