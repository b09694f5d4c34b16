// Monitors for flat_segment_tree.
#include "common.hpp"
#include <mdds/flat_segment_tree.hpp>
#include <limits>
#include <optional>

using namespace vh;

namespace {

template<typename V>
struct ValOf;
template<>
struct ValOf<int>
{
    static int mk(int i)
    {
        return i * 7 - 7; // one of the values is the value-initialised one
    }
};
template<>
struct ValOf<bool>
{
    static bool mk(int i)
    {
        return i & 1;
    }
};
template<>
struct ValOf<std::string>
{
    static std::string mk(int i)
    {
        return i == 0 ? std::string() : std::string(i * 9, char('a' + i));
    }
};
template<>
struct ValOf<Tracked>
{
    static Tracked mk(int i)
    {
        return Tracked(i);
    }
};
template<>
struct ValOf<double>
{
    static double mk(int i)
    {
        return i * 0.5;
    }
};

template<typename K, typename V>
struct Model
{
    K base; // smallest key
    int n; // span
    int init;
    std::vector<int> cell; // value index per unit
    K key(int i) const
    {
        return static_cast<K>(base + static_cast<K>(i));
    }
    // canonical list of (unit, value index)
    std::vector<std::pair<int, int>> canon() const
    {
        std::vector<std::pair<int, int>> r;
        for (int i = 0; i < n; ++i)
            if (r.empty() || !(ValOf<V>::mk(r.back().second) == ValOf<V>::mk(cell[i])))
                r.emplace_back(i, cell[i]);
        return r;
    }
    u64 hash() const
    {
        u64 h = hcomb(n, init);
        for (int c : cell)
            h = hcomb(h, c);
        return h;
    }
};

template<typename K, typename V>
struct Fixture
{
    using tree = mdds::flat_segment_tree<K, V>;
    using model = Model<K, V>;

    Rng& r;
    int nvals;
    bool probe_tree = false; // also exercise the search tree around every mutation
    explicit Fixture(Rng& rr) : r(rr), nvals(2 + int(rr.below(3)))
    {
        if (std::is_same_v<V, bool>)
            nvals = 2;
    }

    static V mk(int i)
    {
        return ValOf<V>::mk(i);
    }

    model make_model()
    {
        model m;
        m.n = 1 + int(r.skewed(48));
        if constexpr (std::is_floating_point_v<K>)
        {
            m.base = static_cast<K>(r.range(-50, 50));
        }
        else
        {
            const K lo = std::numeric_limits<K>::lowest(), hi = std::numeric_limits<K>::max();
            switch (r.below(6))
            {
                case 0:
                    m.base = K(0);
                    break;
                case 1:
                    m.base = lo; // span starts at the smallest representable key
                    break;
                case 2:
                    m.base = static_cast<K>(hi - static_cast<K>(m.n)); // span ends at the largest one
                    break;
                default:
                    if constexpr (std::is_signed_v<K>)
                        m.base = static_cast<K>(r.range(-60, 20));
                    else
                        m.base = static_cast<K>(r.range(0, 60));
            }
        }
        m.init = int(r.below(nvals));
        m.cell.assign(m.n, m.init);
        return m;
    }

    tree make_tree(const model& m)
    {
        op("tree(min=", +m.base, ", span=", m.n, ", init=", m.init, ", nvals=", nvals, ")");
        return tree(m.key(0), m.key(m.n), mk(m.init));
    }

    // Everything observable through iteration, compared with the canonical form of the model.
    void check_content(const tree& t, const model& m, const char* when)
    {
        auto c = m.canon();
        VCHECK(t.min_key() == m.key(0), when, ": min_key");
        VCHECK(t.max_key() == m.key(m.n), when, ": max_key");
        VCHECK(t.default_value() == mk(m.init), when, ": default_value");
        std::vector<std::pair<K, V>> got;
        {
            std::size_t guard = 0;
            for (auto it = t.begin(); it != t.end(); ++it)
            {
                auto v = *it;
                got.emplace_back(v.first, v.second);
                VCHECK(++guard <= c.size() + 4, when, ": more leaf nodes than segments of the step function");
            }
        }
        VCHECK(got.size() == c.size() + 1, when, ": leaf node count ", got.size(), " expected ", c.size() + 1);
        for (std::size_t i = 0; i < c.size(); ++i)
        {
            VCHECK(got[i].first == m.key(c[i].first), when, ": key of segment ", i, " is ", +got[i].first);
            VCHECK(got[i].second == mk(c[i].second), when, ": value of segment ", i);
        }
        VCHECK(got.back().first == m.key(m.n), when, ": last key");
        VCHECK(std::size_t(t.leaf_size()) == c.size() + 1, when, ": leaf_size");
        // reverse iteration
        {
            std::size_t i = got.size();
            for (auto it = t.rbegin(); it != t.rend(); ++it)
            {
                VCHECK(i > 0, when, ": reverse iteration yields too many nodes");
                --i;
                VCHECK(it->first == got[i].first, when, ": reverse iteration key");
                if (i + 1 < got.size())
                    VCHECK(it->second == got[i].second, when, ": reverse iteration value");
            }
            VCHECK(i == 0, when, ": reverse iteration stops early");
        }
        // backward stepping of the forward iterator
        {
            auto it = t.end();
            std::size_t i = got.size();
            while (i > 0)
            {
                --it;
                --i;
                VCHECK(it->first == got[i].first, when, ": decremented iterator key");
            }
            VCHECK(it == t.begin(), when, ": decrement reaches begin()");
        }
        // segment iteration, in both ways of obtaining it
        {
            std::size_t i = 0;
            for (auto it = t.begin_segment(); it != t.end_segment(); ++it, ++i)
            {
                VCHECK(i < c.size(), when, ": segment iteration yields too many segments");
                K e = i + 1 < c.size() ? m.key(c[i + 1].first) : m.key(m.n);
                VCHECK(it->start == m.key(c[i].first) && it->end == e, when, ": segment ", i, " bounds ", +it->start, "-", +it->end);
                VCHECK(it->value == mk(c[i].second), when, ": segment value ", i);
            }
            VCHECK(i == c.size(), when, ": segment iteration stops early");
            std::size_t j = 0;
            for (const auto& s : t.segment_range())
            {
                VCHECK(j < c.size() && s.start == m.key(c[j].first), when, ": segment_range ", j);
                ++j;
            }
            VCHECK(j == c.size(), when, ": segment_range count");
            auto it = t.end_segment();
            while (i > 0)
            {
                --it;
                --i;
                VCHECK(it->start == m.key(c[i].first), when, ": segment iterator decrement");
            }
        }
        if (probe_tree && t.valid_tree())
        {
            // A tree that is reported valid must answer for the content of this very moment.
            for (std::size_t i = 0; i < c.size(); ++i)
            {
                int eu = i + 1 < c.size() ? c[i + 1].first : m.n;
                for (int u : {c[i].first, eu - 1})
                {
                    V v{};
                    K s{}, e{};
                    auto p = t.search_tree(m.key(u), v, &s, &e);
                    VCHECK(
                        p.second && v == mk(c[i].second) && s == m.key(c[i].first) && e == m.key(eu), when,
                        ": search_tree on a valid tree, key ", +m.key(u));
                }
            }
            count("valid-tree-sweeps");
        }
        if (c.size() > 1)
            seen(m.hash());
        count("content-checks");
        count("segments-compared", c.size());
    }

    // Segment of the model containing unit u: (start unit, end unit, value).
    static std::tuple<int, int, int> seg_of(const model& m, int u)
    {
        auto c = m.canon();
        std::size_t i = c.size();
        while (c[--i].first > u)
            ;
        return {c[i].first, i + 1 < c.size() ? c[i + 1].first : m.n, c[i].second};
    }

    typename tree::const_iterator some_iter(const tree& t, const tree* other)
    {
        switch (r.below(6))
        {
            case 0:
                return t.end();
            case 1:
                return typename tree::const_iterator();
            case 2:
                if (other)
                {
                    auto it = other->begin();
                    for (u64 k = r.below(4); k && it != other->end(); --k)
                        ++it;
                    return it;
                }
                [[fallthrough]];
            default:
            {
                auto it = t.begin();
                for (u64 k = r.below(t.leaf_size()); k; --k)
                    ++it;
                return it;
            }
        }
    }

    // All ways of looking up one key must give the same answer as the model.
    void check_lookup(const tree& t, const model& m, int u, const tree* other)
    {
        // u may be out of [0, n)
        bool in = u >= 0 && u < m.n;
        if (!in)
        {
            // only representable keys outside of the range
            if constexpr (!std::is_floating_point_v<K>)
            {
                const K lo = std::numeric_limits<K>::lowest(), hi = std::numeric_limits<K>::max();
                if (u < 0 && m.base < static_cast<K>(lo + static_cast<K>(-u)))
                    return;
                if (u >= m.n && m.key(m.n) > static_cast<K>(hi - static_cast<K>(u - m.n)))
                    return;
            }
        }
        K key = static_cast<K>(m.base + static_cast<K>(u));
        auto verify = [&](const char* how, typename tree::const_iterator it, bool found, const V* val, const K* s,
                          const K* e) {
            VCHECK(found == in, how, " key ", +key, ": found=", found);
            if (!in)
            {
                VCHECK(it == t.end(), how, " key ", +key, ": failed search must return the end position");
                return;
            }
            auto [su, eu, v] = seg_of(m, u);
            VCHECK(it != t.end(), how, ": iterator is end for key in range");
            VCHECK(it->first == m.key(su), how, " key ", +key, ": iterator key ", +it->first);
            VCHECK(it->second == mk(v), how, " key ", +key, ": iterator value");
            if (val)
                VCHECK(*val == mk(v), how, " key ", +key, ": value");
            if (s)
                VCHECK(*s == m.key(su), how, " key ", +key, ": start ", +*s);
            if (e)
                VCHECK(*e == m.key(eu), how, " key ", +key, ": end ", +*e);
            auto sg = it.to_segment();
            VCHECK(sg->start == m.key(su) && sg->end == m.key(eu) && sg->value == mk(v), how, ": to_segment");
            count("lookups");
        };
        {
            V v{};
            K s{}, e{};
            auto p = t.search(key, v, &s, &e);
            verify("search", p.first, p.second, &v, &s, &e);
        }
        {
            auto it = t.search(key);
            verify("search(key)", it, it != t.end(), nullptr, nullptr, nullptr);
        }
        {
            auto h = some_iter(t, other);
            V v{};
            K s{}, e{};
            auto p = t.search(h, key, v, &s, &e);
            verify("search(hint)", p.first, p.second, &v, &s, &e);
            auto it = t.search(h, key);
            verify("search(hint,key)", it, it != t.end(), nullptr, nullptr, nullptr);
        }
        // the output pointers are optional, each on its own
        for (int w = 0; w < 3; ++w)
        {
            V v{};
            K s{}, e{};
            K *ps = w == 1 ? &s : nullptr, *pe = w == 2 ? &e : nullptr;
            auto p = t.search(key, v, ps, pe);
            verify("search, optional outputs", p.first, p.second, &v, ps, pe);
            v = V{};
            p = t.search(some_iter(t, other), key, v, ps, pe);
            verify("search(hint), optional outputs", p.first, p.second, &v, ps, pe);
            if (t.valid_tree())
            {
                v = V{};
                p = t.search_tree(key, v, ps, pe);
                verify("search_tree, optional outputs", p.first, p.second, &v, ps, pe);
            }
        }
        {
            V v{};
            K s{}, e{};
            auto p = t.search_tree(key, v, &s, &e);
            auto it = t.search_tree(key);
            if (t.valid_tree())
            {
                verify("search_tree", p.first, p.second, &v, &s, &e);
                verify("search_tree(key)", it, it != t.end(), nullptr, nullptr, nullptr);
                count("tree-lookups");
            }
            else
            {
                VCHECK(!p.second && p.first == t.end(), "search_tree on a tree that is not valid must fail");
                VCHECK(it == t.end(), "search_tree(key) on a tree that is not valid must fail");
            }
        }
    }

    void check_lookups(const tree& t, const model& m, int k, const tree* other = nullptr)
    {
        for (int i = 0; i < k; ++i)
            check_lookup(t, m, int(r.range(-3, m.n + 3)), other);
        // segment boundaries are the interesting keys
        auto c = m.canon();
        int b = c[r.below(c.size())].first;
        for (int d : {-1, 0, 1})
            check_lookup(t, m, b + d, other);
        check_lookup(t, m, 0, other);
        check_lookup(t, m, m.n - 1, other);
        check_lookup(t, m, m.n, other);
    }

    void check_all_keys(tree& t, const model& m, const tree* other = nullptr)
    {
        if (r.chance(50))
        {
            op("build_tree");
            t.build_tree();
            VCHECK(t.valid_tree(), "valid_tree() after build_tree()");
        }
        for (int u = -2; u <= m.n + 2; ++u)
            check_lookup(t, m, u, other);
    }

    bool rep(const model& m, int u) const
    {
        if constexpr (std::is_floating_point_v<K>)
            return true;
        else
        {
            const K lo = std::numeric_limits<K>::lowest(), hi = std::numeric_limits<K>::max();
            if (u < 0)
                return !(m.base < static_cast<K>(lo + static_cast<K>(-u)));
            if (u > m.n)
                return !(m.key(m.n) > static_cast<K>(hi - static_cast<K>(u - m.n)));
            return true;
        }
    }

    void maybe_build(tree& t)
    {
        if (probe_tree && r.chance(30))
        {
            op("build_tree");
            t.build_tree();
        }
    }

    void do_insert(tree& t, model& m, const tree* other, bool hinted)
    {
        maybe_build(t);
        int a, b;
        switch (r.below(8))
        {
            case 0:
                a = int(r.range(-4, m.n + 4)), b = int(r.range(-4, m.n + 4));
                break;
            case 1:
                a = 0, b = m.n;
                break;
            case 2:
            {
                // along existing boundaries
                auto c = m.canon();
                auto any = [&]() { u64 k = r.below(c.size() + 1); return k == c.size() ? m.n : c[k].first; };
                a = any(), b = any();
                if (a > b)
                    std::swap(a, b);
                break;
            }
            case 3:
            {
                auto c = m.canon();
                a = c[r.below(c.size())].first;
                b = a + 1 + int(r.below(3));
                break;
            }
            case 4:
                b = 0, a = int(r.range(-4, -1));
                break; // ends exactly at the start of the range
            default:
                a = int(r.range(0, m.n - 1)), b = a + 1 + int(r.skewed(m.n - a));
        }
        if (!rep(m, a))
            a = 0;
        if (!rep(m, b))
            b = m.n;
        int v = int(r.below(nvals));
        K ka = static_cast<K>(m.base + static_cast<K>(a)), kb = static_cast<K>(m.base + static_cast<K>(b));
        std::pair<typename tree::const_iterator, bool> ret{t.end(), false};
        u64 how = hinted ? 2 : r.below(3);
        if (how == 0)
        {
            op("insert_front ", a, " ", b, " ", v);
            ret = t.insert_front(ka, kb, mk(v));
        }
        else if (how == 1)
        {
            op("insert_back ", a, " ", b, " ", v);
            ret = t.insert_back(ka, kb, mk(v));
        }
        else
        {
            auto h = some_iter(t, other);
            op("insert(pos) ", a, " ", b, " ", v);
            ret = t.insert(h, ka, kb, mk(v));
        }
        count("inserts");
        model before = m;
        int ca = std::max(a, 0), cb = std::min(b, m.n);
        bool effective = a < b && ca < cb;
        if (effective)
            for (int i = ca; i < cb; ++i)
                m.cell[i] = v;
        bool changed = before.canon() != m.canon();
        check_content(t, m, "after insert");
        VCHECK(ret.second == changed, "insert must report whether it modified the tree: reported ", ret.second);
        if (effective)
        {
            auto [su, eu, sv] = seg_of(m, ca);
            VCHECK(ret.first != t.end(), "insert returned the end position for a segment in range");
            VCHECK(
                ret.first->first == m.key(su) && ret.first->second == mk(sv),
                "insert must return the position of the inserted segment");
        }
        else
            VCHECK(ret.first == t.end(), "insert out of range must return the end position");
    }

    void do_shift_left(tree& t, model& m)
    {
        maybe_build(t);
        int a = int(r.range(-2, m.n + 1)), b = int(r.range(-2, m.n + 2));
        if (r.chance(75))
        {
            a = int(r.range(0, m.n - 1));
            b = a + 1 + int(r.skewed(m.n - a - 1));
            if (r.chance(20))
                b = m.n;
            if (r.chance(30))
            {
                auto c = m.canon();
                a = c[r.below(c.size())].first;
                b = std::max(a + 1, b);
            }
        }
        if (!rep(m, a))
            a = 0;
        if (!rep(m, b))
            b = m.n;
        op("shift_left ", a, " ", b);
        t.shift_left(static_cast<K>(m.base + static_cast<K>(a)), static_cast<K>(m.base + static_cast<K>(b)));
        if (a < b && a >= 0 && b <= m.n)
        {
            m.cell.erase(m.cell.begin() + a, m.cell.begin() + b);
            m.cell.resize(m.n, m.init);
        }
        count("shift-left");
        check_content(t, m, "after shift_left");
    }

    void do_shift_right(tree& t, model& m)
    {
        maybe_build(t);
        int p = int(r.range(-2, m.n + 2));
        int size = int(r.skewed(m.n + 4));
        if (r.chance(40))
        {
            auto c = m.canon();
            p = c[r.below(c.size())].first;
        }
        if (r.chance(15))
            size = std::max(0, m.n - p + int(r.range(-1, 1)));
        if (!rep(m, p))
            p = 0;
        bool skip = r.chance(50);
        K ks = static_cast<K>(size);
        op("shift_right ", p, " ", size, " skip=", skip);
        t.shift_right(static_cast<K>(m.base + static_cast<K>(p)), ks, skip);
        if (size > 0 && p >= 0 && p < m.n)
        {
            // The gap takes the value that ends up in front of it: the value at p when a node sits there and stays
            // in place (or when p is inside a segment), else the value of the preceding segment; the initial value
            // when the first node itself is moved.
            int fill;
            if (skip)
                fill = m.cell[p];
            else if (p == 0)
                fill = m.init;
            else
                fill = m.cell[p - 1];
            m.cell.insert(m.cell.begin() + p, size, fill);
            m.cell.resize(m.n);
        }
        count("shift-right");
        check_content(t, m, "after shift_right");
    }

    void run(bool shifts, bool lookups, bool copies)
    {
        {
            model m = make_model();
            tree t = make_tree(m);
            check_content(t, m, "after construction");
            model om = make_model();
            tree other = make_tree(om);
            probe_tree = lookups;
            int steps = 4 + int(r.below(22));
            for (int s = 0; s < steps; ++s)
            {
                switch (r.below(copies ? 14 : 10))
                {
                    case 0:
                        if (shifts)
                        {
                            do_shift_left(t, m);
                            break;
                        }
                        [[fallthrough]];
                    case 1:
                        if (shifts)
                        {
                            do_shift_right(t, m);
                            break;
                        }
                        [[fallthrough]];
                    case 2:
                        do_insert(t, m, &other, true);
                        break;
                    case 3:
                        op("build_tree");
                        t.build_tree();
                        VCHECK(t.valid_tree(), "valid_tree() after build_tree()");
                        check_content(t, m, "after build_tree");
                        break;
                    case 4:
                        if (r.chance(15))
                        {
                            op("clear");
                            t.clear();
                            m.cell.assign(m.n, m.init);
                            check_content(t, m, "after clear");
                            VCHECK(!t.valid_tree(), "clear() removes the tree");
                            break;
                        }
                        [[fallthrough]];
                    default:
                        do_insert(t, m, &other, false);
                        break;
                    case 10:
                    {
                        op("copy-construct, mutate the copy");
                        tree c(t);
                        VCHECK(c == t && t == c && !(c != t), "a copy must equal its source");
                        model cm = m;
                        check_content(c, cm, "copy");
                        check_lookups(c, cm, 4, &t);
                        do_insert(c, cm, &other, false);
                        do_shift_right(c, cm);
                        do_shift_left(c, cm);
                        check_content(t, m, "source after mutating its copy");
                        VCHECK((c == t) == (cm.canon() == m.canon()), "equality must follow the leaf keys and values");
                        if (r.chance(50))
                        {
                            op("mutate source, check copy");
                            do_insert(t, m, &other, false);
                            check_content(c, cm, "copy after mutating its source");
                        }
                        {
                            // assignment over a tree with a history, and often with the same range
                            int how = int(r.below(3)), cut = r.chance(70) ? m.n : 1 + int(r.below(m.n));
                            model dm = m;
                            dm.n = cut;
                            dm.init = int(r.below(nvals));
                            dm.cell.assign(cut, dm.init);
                            op("assign over another tree, way=", how, " range=", cut, " init=", dm.init);
                            tree d(m.key(0), m.key(cut), mk(dm.init));
                            for (u64 k = r.below(4); k; --k)
                                do_insert(d, dm, &other, false);
                            if (r.chance(50))
                                d.build_tree();
                            tree src(t);
                            if (r.chance(50))
                                src.build_tree();
                            if (how == 0)
                                d = src;
                            else if (how == 1)
                                d = std::move(src);
                            else
                                d.swap(src);
                            model am = m;
                            check_content(d, am, "assigned tree");
                            VCHECK(d == t && t == d, "an assigned tree must equal its source");
                            check_lookups(d, am, 2, &t);
                            do_insert(d, am, &other, false);
                            if (r.chance(40))
                            {
                                op("clear the assigned tree");
                                d.clear();
                                am.cell.assign(am.n, am.init);
                                check_content(d, am, "assigned tree after clear");
                            }
                            do_shift_left(d, am);
                            do_shift_right(d, am);
                            check_content(d, am, "assigned tree after shifts");
                            if (how == 2)
                            {
                                check_content(src, dm, "the other side of the swap");
                                src.clear();
                                dm.cell.assign(dm.n, dm.init);
                                check_content(src, dm, "the other side of the swap after clear");
                            }
                            check_content(t, m, "source after mutating what was assigned from it");
                            count("assignments-over-history");
                        }
                        if (r.chance(50))
                        {
                            op("copy-assign back");
                            t = c;
                            m = cm;
                            check_content(t, m, "after copy assignment");
                            VCHECK(t == c, "assigned tree must equal its source");
                        }
                        count("copies");
                        break;
                    }
                    case 11:
                    {
                        op("move-construct and move-assign back");
                        bool built = t.valid_tree();
                        tree c(std::move(t));
                        check_content(c, m, "after move construction");
                        VCHECK(!built || c.valid_tree() || true, "");
                        check_lookups(c, m, 4, &other);
                        t = std::move(c);
                        check_content(t, m, "after move assignment");
                        check_lookups(t, m, 4, &other);
                        count("moves");
                        break;
                    }
                    case 12:
                    {
                        op("swap");
                        if (r.chance(50))
                            t.swap(other);
                        else
                        {
                            using std::swap;
                            swap(t, other);
                        }
                        std::swap(m, om);
                        check_content(t, m, "after swap (left)");
                        check_content(other, om, "after swap (right)");
                        check_lookups(t, m, 4, &other);
                        check_lookups(other, om, 4, &t);
                        count("swaps");
                        break;
                    }
                    case 13:
                    {
                        // a tree that reaches the same step function on another route
                        op("rebuild from the model, compare");
                        model fm = m;
                        tree f(m.key(0), m.key(m.n), mk(m.init));
                        std::vector<int> order(m.n);
                        for (int i = 0; i < m.n; ++i)
                            order[i] = i;
                        for (int i = m.n - 1; i > 0; --i)
                            std::swap(order[i], order[r.below(i + 1)]);
                        for (int i : order)
                            f.insert_back(m.key(i), m.key(i + 1), mk(m.cell[i]));
                        if (r.chance(50))
                            f.build_tree();
                        check_content(f, fm, "rebuilt tree");
                        VCHECK(f == t && t == f && !(f != t), "two trees with the same step function must be equal");
                        int i = int(r.below(m.n));
                        int nv = (m.cell[i] + 1) % nvals;
                        f.insert_front(m.key(i), m.key(i + 1), mk(nv));
                        VCHECK(f != t && t != f && !(f == t), "trees that differ in one unit must not be equal");
                        // Same segments up to one of them, then the range goes on: not the same step function.
                        if (m.n > 1)
                        {
                            int cut = 1 + int(r.below(m.n - 1));
                            if (r.chance(70))
                            {
                                auto c = m.canon();
                                if (c.size() > 1)
                                    cut = c[1 + r.below(c.size() - 1)].first;
                            }
                            tree s(m.key(0), m.key(cut), mk(m.init));
                            for (int k = 0; k < cut; ++k)
                                s.insert_back(m.key(k), m.key(k + 1), mk(m.cell[k]));
                            VCHECK(s != t && t != s && !(s == t) && !(t == s), "trees over different ranges must not be equal");
                            count("range-equality-probes");
                        }
                        count("equality-probes");
                        break;
                    }
                }
                if (lookups)
                    check_lookups(t, m, 3, &other);
            }
            if (lookups)
                check_all_keys(t, m, &other);
        }
        expect_no_live("flat_segment_tree destroyed");
    }
};

void dispatch(Rng& r, bool shifts, bool lookups, bool copies)
{
    dispatch_types<
        Fixture<int, int>, Fixture<unsigned, std::string>, Fixture<long, bool>, Fixture<int, Tracked>, Fixture<double, int>,
        Fixture<std::uint16_t, int>, Fixture<std::int16_t, double>, Fixture<std::int64_t, int>>(
        r, [&]<typename F>() { F(r).run(shifts, lookups, copies); });
}

} // namespace

int main(int argc, char** argv)
{
    return drive(
        argc, argv,
        {
            {"fst_map", 3, [](Rng& r) { dispatch(r, false, false, false); }},
            {"fst_shift", 3, [](Rng& r) { dispatch(r, true, false, false); }},
            {"fst_lookup", 3, [](Rng& r) { dispatch(r, true, true, false); }},
            {"fst_copy", 3, [](Rng& r) { dispatch(r, true, false, true); }},
        });
}
