// What an operation costs, counted in executed basic blocks of the instrumented code (-fsanitize-coverage=trace-pc),
// on a container of n and on one of 64 n objects built by the same recipe.
#include "common.hpp"
#include <mdds/flat_segment_tree.hpp>
#include <mdds/multi_type_matrix.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/standard_element_blocks.hpp>
#include <mdds/multi_type_vector/collection.hpp>
#include <mdds/multi_type_vector/delayed_delete_vector.hpp>
#include <mdds/point_quad_tree.hpp>
#include <mdds/rtree.hpp>
#include <mdds/segment_tree.hpp>
#include <mdds/sorted_string_map.hpp>
#include <mdds/trie_map.hpp>
#include <deque>
#include <numeric>

namespace {
// volatile: the calls that change it are inserted after the optimiser has looked at the code
volatile vh::u64 blocks_executed = 0;
}
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc()
{
    blocks_executed = blocks_executed + 1;
}

using namespace vh;

namespace {

constexpr std::size_t FACTOR = 64;

// How the cost may grow when a container becomes 64 times as large.
enum Growth
{
    CONSTANT, // not at all
    LOG,      // with the logarithm (at most sixfold, and then some; a linear cost grows 64-fold)
};

struct Costs
{
    struct One
    {
        Growth g;
        double total = 0, n = 0;
        double mean() const
        {
            return n ? total / n : 0;
        }
    };
    std::map<std::string, One> ops;

    template<typename F>
    void measure(const char* name, Growth g, std::size_t n, F&& f)
    {
        u64 before = blocks_executed;
        f();
        u64 spent = blocks_executed - before;
        One& o = ops.try_emplace(name, One{g}).first->second;
        o.total += double(spent);
        o.n += double(n);
    }
    template<typename F>
    void once(const char* name, Growth g, F&& f)
    {
        measure(name, g, 1, f);
    }
};

void compare(const std::string& what, const Costs& small, const Costs& big, std::size_t n)
{
    for (auto& [name, b] : big.ops)
    {
        auto it = small.ops.find(name);
        VCHECK(it != small.ops.end(), "harness: ", name, " measured on one size only");
        double s = it->second.mean(), l = b.mean();
        double limit = b.g == CONSTANT ? s * 1.5 + 20 : s * 4 + 60;
        op(what, ": ", name, ": ", s, " blocks at ", n, ", ", l, " at ", n * FACTOR);
        VCHECK(l <= limit, what, ": ", name, " executes ", s, " basic blocks on average with ", n, " objects but ", l, " with ", n * FACTOR, ", more than ",
               b.g == CONSTANT ? "a constant" : "a logarithmic", " cost allows");
        count("cost-comparisons");
        count("operations-measured", u64(b.n + it->second.n));
        seen(hcomb(hstr(what + name), u64(n)));
    }
}

constexpr int PROBES = 48;

// Keeps the optimiser from dropping a result nobody looks at.
template<typename T>
inline void use(const T& v)
{
    asm volatile("" : : "r"(&v) : "memory");
}

void fst(u64 seed, std::size_t n, Costs& c)
{
    Rng r(seed);
    using tree = mdds::flat_segment_tree<long, int>;
    const long step = 10;
    tree t(0, long(n) * step, 0);
    c.measure("insert_back per appended segment", CONSTANT, n, [&] {
        for (std::size_t i = 0; i < n; ++i)
            t.insert_back(long(i) * step, long(i) * step + step, int(i) + 1);
    });
    c.measure("build_tree per segment", CONSTANT, n, [&] { t.build_tree(); });
    std::vector<tree::const_iterator> its;
    for (auto it = t.begin(); it != t.end(); ++it)
        its.push_back(it);
    for (int i = 0; i < PROBES; ++i)
    {
        long k = long(r.below(n * step));
        int v = 0;
        long s = 0, e = 0;
        c.once("search_tree(key, value)", LOG, [&] { VCHECK(t.search_tree(k, v, &s, &e).second, "found"); });
        VCHECK(v == int(k / step) + 1, "value");
        c.once("search_tree(key)", LOG, [&] { VCHECK(t.search_tree(k)->second == v, "found"); });
        c.once("search(hint, key, value)", CONSTANT, [&] { VCHECK(t.search(its[k / step], k, v, &s, &e).second, "found"); });
        c.once("search(hint, key)", CONSTANT, [&] { VCHECK(t.search(its[k / step], k)->second == v, "found"); });
        c.once("++iterator", CONSTANT, [&] { auto it = its[k / step]; ++it; use(it); --it; use(it); });
    }
    for (int i = 0; i < PROBES; ++i)
    {
        long k = long(r.below(n * step));
        auto it = its[k / step];
        c.once("insert(hint, ...)", CONSTANT, [&] { t.insert(it, k, k + 1, -5 - i); }); // distinct values: no segment is ever merged away, the hints stay valid
    }
    for (int i = 0; i < PROBES; ++i)
    {
        long k = long(r.below(3 * step));
        c.once("insert_front near the front", CONSTANT, [&] { t.insert_front(k, k + 2, -1000 - i); });
        c.once("insert_back near the back", CONSTANT, [&] { t.insert_back(long(n) * step - k - 2, long(n) * step - k, -2000 - i); });
    }
    c.once("swap", CONSTANT, [&] {
        tree u(0, 1, 0);
        u.swap(t);
        t.swap(u);
    });
    c.once("move", CONSTANT, [&] {
        tree u(std::move(t));
        t = std::move(u);
    });
}

void segtree(u64 seed, std::size_t n, Costs& c)
{
    Rng r(seed);
    using tree = mdds::segment_tree<long, int>;
    tree t;
    const int overlap = int(r.range(1, 4));
    for (std::size_t i = 0; i < n; ++i)
    {
        long s = long(r.below(n * 10));
        t.insert(s, s + 1 + long(r.below(10 * overlap)), int(i));
    }
    t.build_tree();
    for (int i = 0; i < PROBES; ++i)
    {
        long k = long(r.below(n * 10));
        std::size_t hits = 0;
        c.once("search", LOG, [&] {
            auto res = t.search(k);
            for (auto it = res.begin(); it != res.end(); ++it)
                ++hits;
        });
    }
    c.once("move", CONSTANT, [&] {
        tree u(std::move(t));
        t = std::move(u);
    });
}

void pqt(u64 seed, std::size_t n, Costs& c)
{
    Rng r(seed);
    using tree = mdds::point_quad_tree<int, int>;
    tree t;
    std::vector<std::pair<int, int>> pts;
    for (std::size_t i = 0; i < n; ++i)
    {
        pts.emplace_back(int(r.below(1000000)), int(r.below(1000000)));
        t.insert(pts.back().first, pts.back().second, int(i));
    }
    int side = int(1000000 / std::sqrt(double(n)));
    for (int i = 0; i < PROBES; ++i)
    {
        auto p = pts[r.below(n)];
        c.once("find", LOG, [&] { use(t.find(p.first, p.second)); });
        int x = int(r.below(1000000)), y = int(r.below(1000000));
        c.once("insert", LOG, [&] { t.insert(x, y, 1); });
        std::size_t hits = 0;
        c.once("search_region of a small region", LOG, [&] {
            auto res = t.search_region(x - side, y - side, x + side, y + side);
            for (auto it = res.begin(); it != res.end(); ++it)
                ++hits;
        });
    }
    c.once("swap", CONSTANT, [&] {
        tree u;
        u.swap(t);
        t.swap(u);
    });
}

struct RtTraits
{
    static constexpr std::size_t dimensions = 2;
    static constexpr std::size_t min_node_size = 3;
    static constexpr std::size_t max_node_size = 8;
    static constexpr std::size_t max_tree_depth = 100;
    static constexpr bool enable_forced_reinsertion = true;
    static constexpr std::size_t reinsertion_size = 2;
};

void rtree(u64 seed, std::size_t n, Costs& c)
{
    Rng r(seed);
    using tree = mdds::rtree<int, int, RtTraits>;
    tree::bulk_loader l;
    tree t, u;
    int w = int(std::sqrt(double(n))) + 1;
    std::vector<std::pair<int, int>> pts;
    for (std::size_t i = 0; i < n; ++i)
    {
        int x = int(i % w) * 10, y = int(i / w) * 10;
        pts.emplace_back(x, y);
        l.insert({{x, y}, {x + 5, y + 5}}, int(i));
    }
    t = l.pack();
    c.once("move", CONSTANT, [&] {
        u = std::move(t);
        t.swap(u);
    });
    for (int i = 0; i < PROBES; ++i)
    {
        std::size_t k = r.below(n);
        auto [x, y] = pts[k];
        int got = -1;
        c.once("match search", LOG, [&] {
            auto res = t.search({{x, y}, {x + 5, y + 5}}, tree::search_type::match);
            for (auto it = res.begin(); it != res.end(); ++it)
                got = *it;
        });
        VCHECK(got == int(k), "found");
        c.once("overlap search", LOG, [&] {
            auto res = t.search({{x + 1, y + 1}, {x + 2, y + 2}}, tree::search_type::overlap);
            for (auto it = res.begin(); it != res.end(); ++it)
                got = *it;
        });
        VCHECK(got == int(k), "found");
        const tree& ct = t;
        for (auto type : {tree::search_type::match, tree::search_type::overlap})
        {
            c.once(type == tree::search_type::match ? "const match search" : "const overlap search", LOG, [&] {
                auto res = ct.search({{x, y}, {x + 5, y + 5}}, type);
                for (auto it = res.begin(); it != res.end(); ++it)
                    got = *it;
            });
            c.once(type == tree::search_type::match ? "const point match search" : "const point overlap search", LOG, [&] {
                auto res = ct.search({x + 1, y + 1}, type);
                for (auto it = res.begin(); it != res.end(); ++it)
                    got = *it;
            });
            c.once(type == tree::search_type::match ? "point match search" : "point overlap search", LOG, [&] {
                auto res = t.search({x + 1, y + 1}, type);
                for (auto it = res.begin(); it != res.end(); ++it)
                    got = *it;
            });
        }
    }
    c.measure("insert", LOG, 600, [&] {
        for (int i = 0; i < 600; ++i)
        {
            auto [x, y] = pts[r.below(n)];
            t.insert({{x + 2, y + 2}, {x + 3, y + 3}}, -1);
        }
    });
}

void trie(u64 seed, std::size_t n, Costs& c)
{
    Rng r(seed);
    using map = mdds::trie_map<std::string, int>;
    map t;
    std::vector<std::string> keys;
    for (std::size_t i = 0; i < n; ++i)
    {
        // eight letters of twenty
        std::string k;
        for (int j = 0; j < 8; ++j)
            k += char('a' + r.below(20));
        keys.push_back(k);
    }
    c.measure("insert", LOG, n, [&] {
        for (std::size_t i = 0; i < n; ++i)
            t.insert(keys[i], int(i));
    });
    auto probe = [&](auto& m, const char* find, const char* miss, const char* prefix, const char* next) {
        for (int i = 0; i < PROBES; ++i)
        {
            const std::string& k = keys[r.below(n)];
            c.once(find, LOG, [&] { VCHECK(m.find(k) != m.end(), "found"); });
            std::string x = k.substr(0, 5) + "####";
            c.once(miss, LOG, [&] { VCHECK(m.find(x) == m.end(), "not found"); });
            c.once(prefix, LOG, [&] {
                auto res = m.prefix_search(k);
                VCHECK(res.begin() != res.end(), "found");
            });
        }
        std::size_t seen_n = 0, sz = m.size();
        c.measure(next, LOG, sz, [&] {
            for (auto it = m.begin(); it != m.end(); ++it)
                ++seen_n;
        });
        VCHECK(seen_n == sz, "iteration visits all entries");
    };
    probe(t, "find", "find of an absent key", "prefix_search", "iteration per entry");
    mdds::packed_trie_map<std::string, int> p(t);
    probe(p, "packed find", "packed find of an absent key", "packed prefix_search", "packed iteration per entry");
    c.once("erase", LOG, [&] { t.erase(keys[r.below(n)]); });
    c.once("packed move and swap", CONSTANT, [&] {
        decltype(p) q(std::move(p));
        p.swap(q);
    });
}

void ssm(u64 seed, std::size_t n, Costs& c)
{
    Rng r(seed);
    using lin = mdds::sorted_string_map<int>;
    using hash = mdds::sorted_string_map<int, mdds::ssmap::hash_key_finder>;
    std::vector<std::string> keys;
    for (std::size_t i = 0; i < n; ++i)
        keys.push_back(std::to_string(100000000 + r.below(500) + i * 500));
    std::deque<lin::entry_type> e;
    std::vector<lin::entry_type> flat;
    for (std::size_t i = 0; i < n; ++i)
        flat.push_back(lin::entry_type{keys[i], int(i)});
    lin a(std::span<const lin::entry_type>(flat.data(), flat.size()), -1);
    hash b(std::span<const lin::entry_type>(flat.data(), flat.size()), -1);
    for (int i = 0; i < PROBES; ++i)
    {
        std::size_t k = r.below(n);
        c.once("find", LOG, [&] { VCHECK(a.find(keys[k]) == int(k), "found"); });
        std::string x = keys[k] + "x";
        c.once("find of an absent key", LOG, [&] { VCHECK(a.find(x) == -1, "not found"); });
        c.once("hashed find_key", CONSTANT, [&] { VCHECK(b.find_key(int(k)) == keys[k], "found"); });
    }
}

void ddv(u64 seed, std::size_t n, Costs& c)
{
    Rng r(seed);
    mdds::mtv::delayed_delete_vector<std::string> v;
    c.measure("push_back", CONSTANT, n, [&] {
        for (std::size_t i = 0; i < n; ++i)
            v.push_back("x");
    });
    c.measure("erase at the front", CONSTANT, n / 2, [&] {
        for (std::size_t i = 0; i < n / 2; ++i)
            v.erase(v.begin());
    });
    for (int i = 0; i < PROBES; ++i)
    {
        std::size_t k = r.below(v.size());
        c.once("operator[]", CONSTANT, [&] { VCHECK(v[k] == "x", "element"); });
    }
    c.once("swap", CONSTANT, [&] {
        decltype(v) w;
        w.swap(v);
        v.swap(w);
    });
}

struct CowTraits : mdds::mtv::standard_element_blocks_traits
{
    static constexpr bool enable_cow = true;
};

template<typename V>
void fill(V& v, Rng& r, std::size_t n, int run)
{
    // n blocks of up to 'run' elements, neighbours of different types
    for (std::size_t i = 0; i < n; ++i)
    {
        int len = int(r.range(1, run));
        for (int j = 0; j < len; ++j)
            switch (i % 4)
            {
                case 0:
                    v.push_back(1.5);
                    break;
                case 1:
                    v.push_back(std::int32_t(3));
                    break;
                case 2:
                    v.push_back_empty();
                    break;
                default:
                    v.push_back(std::string("abc"));
            }
    }
}

template<typename V>
void mtv(u64 seed, std::size_t n, Costs& c)
{
    Rng r(seed);
    const int run = int(r.range(1, 4));
    V v;
    c.measure("push_back", CONSTANT, n * (run + 1) / 2, [&] { fill(v, r, n, run); });
    const V& cv = v;
    for (int i = 0; i < PROBES; ++i)
    {
        std::size_t k = r.below(v.size());
        c.once("position", LOG, [&] { use(cv.position(k)); });
        c.once("get_type", LOG, [&] { use(cv.get_type(k)); });
        c.once("is_empty", LOG, [&] { use(cv.is_empty(k)); });
        auto pos = cv.position(k);
        std::size_t end = pos.first->position + pos.first->size;
        std::size_t k2 = std::min(v.size() - 1, end); // first element of the next block
        c.once("position(hint, ...)", LOG, [&] { use(cv.position(pos.first, k2)); });
        c.once("position(hint, ...), backwards", LOG, [&] { auto q = cv.position(k2); use(cv.position(q.first, k)); });
        // a hint that is far off helps nothing, but must not cost either
        auto far = cv.position(v.size() - 1 - r.below(10)).first;
        std::size_t k3 = r.below(10);
        c.once("position(far hint, ...), backwards", LOG, [&] { use(cv.position(far, k3)); });
        c.once("next_position", CONSTANT, [&] { use(V::next_position(pos)); });
        c.once("++block iterator", CONSTANT, [&] { auto it = pos.first; ++it; use(it); });
        c.once("get<T>(position)", CONSTANT, [&] {
            if (pos.first->type == mdds::mtv::element_type_double)
                use(V::template get<mdds::mtv::double_element_block>(pos));
        });
        // overwriting an element with another of its type changes no block
        auto over = [&](auto value) {
            typename V::iterator hint;
            c.once("set", LOG, [&] { hint = v.set(k, value); });
            c.once("set(hint, ...)", LOG, [&] { hint = v.set(hint, k, value); });
            VCHECK(hint->position <= k && k < hint->position + hint->size, "returned position");
        };
        if (pos.first->type == mdds::mtv::element_type_double)
            over(2.5);
        else if (pos.first->type == mdds::mtv::element_type_int32)
            over(std::int32_t(4));
        else if (pos.first->type == mdds::mtv::element_type_string)
            over(std::string("xyz"));
    }
    c.once("move and swap", CONSTANT, [&] {
        V w(std::move(v));
        v.swap(w);
    });
    std::size_t blocks = 0;
    c.measure("iteration per block", CONSTANT, v.block_size(), [&] {
        for (auto it = v.cbegin(); it != v.cend(); ++it)
            blocks += it->size > 0;
    });
    VCHECK(blocks == v.block_size(), "blocks");
}

// Few blocks with many elements: work on blocks must not touch the elements one by one.
template<typename V>
void mtv_long(u64 seed, std::size_t n, Costs& c)
{
    Rng r(seed);
    V v;
    v.push_back(1.5);
    v.push_back_empty();
    std::vector<std::string> vals(n, "text");
    v.resize(v.size() + n);
    v.set(2, vals.begin(), vals.end());
    v.push_back(std::int32_t(2));
    for (int i = 0; i < PROBES; ++i)
    {
        std::size_t k = r.below(v.size());
        c.once("position in long blocks", CONSTANT, [&] { use(v.position(k)); });
        c.once("append a short block", CONSTANT, [&] {
            if (i % 2)
                v.push_back(2.5);
            else
                v.push_back_empty();
        });
    }
    c.once("transfer of a whole block", CONSTANT, [&] {
        V w(v.size());
        v.transfer(2, 2 + n - 1, w, 0);
        w.transfer(0, n - 1, v, 2);
    });
    c.once("swap of whole blocks", CONSTANT, [&] {
        V w(v.size());
        v.swap(2, 2 + n - 1, w, 5);
        v.swap(2, 2 + n - 1, w, 5);
    });
}

void cow(u64 seed, std::size_t n, Costs& c)
{
    using V = mdds::mtv::soa::multi_type_vector<CowTraits>;
    Rng r(seed);
    V v;
    std::vector<std::string> vals(n, "text");
    v.resize(n + 2);
    v.set(0, vals.begin(), vals.end());
    v.push_back(1.5);
    c.once("copy of a copy-on-write container of one long block", CONSTANT, [&] {
        V w(v);
        VCHECK(w.size() == v.size(), "size");
    });
}

// Elements whose every move is seen: taken one by one from the front of a block with a delayed_delete_vector to the end
// of the block before it, which is what that storage is for.
template<int Tag>
struct Moved
{
    int v = 0;
    Moved() = default;
    Moved(int i) : v(i)
    {}
    Moved(const Moved& o) : v(o.v)
    {}
    Moved& operator=(const Moved& o)
    {
        v = o.v;
        return *this;
    }
    bool operator==(const Moved& o) const
    {
        return v == o.v;
    }
};
using FA = Moved<0>;
using FB = Moved<1>;
using FA_block = mdds::mtv::default_element_block<50, FA, mdds::mtv::delayed_delete_vector>;
using FB_block = mdds::mtv::default_element_block<51, FB, mdds::mtv::delayed_delete_vector>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(FA, 50, FA(), FA_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(FB, 51, FB(), FB_block)
struct FrontTraits : mdds::mtv::default_traits
{
    using block_funcs = mdds::mtv::element_block_funcs<FA_block, FB_block>;
};

template<typename V>
void front(u64 seed, std::size_t n, Costs& c)
{
    Rng r(seed);
    std::vector<FA> vals(n, FA(1));
    V v(vals.size(), vals.begin(), vals.end());
    typename V::iterator hint = v.begin();
    c.measure("set at the front of a block", CONSTANT, n, [&] {
        for (std::size_t i = 0; i < n; ++i)
            hint = v.set(hint, i, FB(3));
    });
    VCHECK(v.block_size() == 1 && v.template get<FB>(n - 1).v == 3, "contents");
}

void matrix(u64 seed, std::size_t n, Costs& c)
{
    Rng r(seed);
    using M = mdds::multi_type_matrix<mdds::mtm::std_string_traits>;
    std::size_t rows = 16, cols = n / 4;
    M m(rows, cols);
    for (std::size_t i = 0; i < rows * cols; i += 2 + r.below(5))
        m.set(i % rows, i / rows, double(i));
    for (int i = 0; i < PROBES; ++i)
    {
        std::size_t a = r.below(rows), b = r.below(cols);
        c.once("get_type", LOG, [&] { use(m.get_type(a, b)); });
        c.once("get_numeric", LOG, [&] { use(m.get_numeric(a, b)); });
        c.once("position", LOG, [&] { use(m.position(a, b)); });
        auto p = m.position(a, b);
        c.once("position(hint)", LOG, [&] { use(m.position(p, a, b)); });
        c.once("next_position", CONSTANT, [&] { use(M::next_position(p)); });
    }
    c.once("swap", CONSTANT, [&] {
        M w;
        w.swap(m);
        m.swap(w);
    });
}

void collection(u64 seed, std::size_t n, Costs& c)
{
    Rng r(seed);
    using V = mdds::mtv::soa::multi_type_vector<mdds::mtv::standard_element_blocks_traits>;
    std::vector<V> vs(3);
    for (auto& v : vs)
    {
        fill(v, r, n, 3);
        v.resize(n);
    }
    mdds::mtv::collection<V> col(vs.begin(), vs.end());
    std::size_t k = 0;
    c.measure("iteration per element", CONSTANT, 3 * n, [&] {
        for (auto it = col.begin(); it != col.end(); ++it)
            ++k;
    });
    VCHECK(k == 3 * n, "elements");
}

using Probe = void (*)(u64, std::size_t, Costs&);

template<Probe P>
void run(const char* what, Rng& r, std::size_t lo, std::size_t hi)
{
    std::size_t n = std::size_t(r.range(i64(lo), i64(hi)));
    u64 seed = r.next();
    Costs small, big;
    // the small one is measured several times so that its averages are as steady as those of the big one
    for (int i = 0; i < 4; ++i)
        P(seed + i, n, small);
    P(seed, n * FACTOR, big);
    compare(what, small, big, n);
}

} // namespace

int main(int argc, char** argv)
{
    using Soa = mdds::mtv::soa::multi_type_vector<mdds::mtv::standard_element_blocks_traits>;
    using Aos = mdds::mtv::aos::multi_type_vector<mdds::mtv::standard_element_blocks_traits>;
    using Cow = mdds::mtv::soa::multi_type_vector<CowTraits>;
    return drive(
        argc, argv,
        {
            {"cost", 2, [](Rng& r) { run<fst>("flat_segment_tree", r, 60, 400); }},
            {"cost_st", 2, [](Rng& r) { run<segtree>("segment_tree", r, 60, 300); }},
            {"cost_pqt", 2, [](Rng& r) { run<pqt>("point_quad_tree", r, 60, 300); }},
            {"cost_rt", 2, [](Rng& r) { run<rtree>("rtree", r, 60, 200); }},
            {"cost_trie", 2, [](Rng& r) { run<trie>("trie_map", r, 60, 300); }},
            {"cost_ssm", 2, [](Rng& r) { run<ssm>("sorted_string_map", r, 60, 400); }},
            {"cost_ddv", 1, [](Rng& r) { run<ddv>("delayed_delete_vector", r, 60, 400); }},
            {"cost_soa", 2, [](Rng& r) { run<mtv<Soa>>("multi_type_vector (soa)", r, 60, 300); }},
            {"cost_aos", 2, [](Rng& r) { run<mtv<Aos>>("multi_type_vector (aos)", r, 60, 300); }},
            {"cost_cow", 2, [](Rng& r) { run<mtv<Cow>>("multi_type_vector (copy-on-write)", r, 60, 300); }},
            {"cost_long", 1, [](Rng& r) { run<mtv_long<Soa>>("multi_type_vector (soa), long blocks", r, 60, 300); }},
            {"cost_along", 1, [](Rng& r) { run<mtv_long<Aos>>("multi_type_vector (aos), long blocks", r, 60, 300); }},
            {"cost_share", 1, [](Rng& r) { run<cow>("multi_type_vector (copy-on-write), shared", r, 60, 300); }},
            {"cost_front", 2, [](Rng& r) { run<front<mdds::mtv::soa::multi_type_vector<FrontTraits>>>("multi_type_vector (soa), front", r, 60, 300); }},
            {"cost_afront", 2, [](Rng& r) { run<front<mdds::mtv::aos::multi_type_vector<FrontTraits>>>("multi_type_vector (aos), front", r, 60, 300); }},
            {"cost_mtm", 2, [](Rng& r) { run<matrix>("multi_type_matrix", r, 60, 300); }},
            {"cost_coll", 1, [](Rng& r) { run<collection>("collection", r, 60, 300); }},
        });
}
