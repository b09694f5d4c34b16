// Monitors for point_quad_tree.
#include "common.hpp"
#include <mdds/point_quad_tree.hpp>
#include <limits>

using namespace vh;

namespace {

template<typename V>
V mkv(int i)
{
    if constexpr (std::is_same_v<V, std::string>)
        return i == 0 ? std::string() : "value-" + std::to_string(i) + std::string(i % 40, 'x');
    else
        return V(i);
}

template<typename K>
struct KeyMap
{
    K base{};
    K scale = 1;
    K operator()(int i) const
    {
        return static_cast<K>(base + static_cast<K>(i) * scale);
    }
};

template<typename K, typename V>
struct Fixture
{
    using tree = mdds::point_quad_tree<K, V>;
    using model = std::map<std::pair<int, int>, int>;
    Rng& r;
    KeyMap<K> kx, ky;
    int w, h;
    int nextv = 1;
    bool few_values = false;

    explicit Fixture(Rng& rr) : r(rr)
    {
        w = int(r.pick({1, 2, 3, 5, 9, 20, 60}));
        h = int(r.pick({1, 2, 3, 5, 9, 20, 60}));
        few_values = r.chance(40);
        for (KeyMap<K>* k : {&kx, &ky})
        {
            int n = k == &kx ? w : h;
            if constexpr (std::is_integral_v<K>)
            {
                switch (r.below(5))
                {
                    case 0:
                        k->base = std::numeric_limits<K>::lowest();
                        break;
                    case 1:
                        k->base = static_cast<K>(std::numeric_limits<K>::max() - static_cast<K>(n));
                        break;
                    case 2:
                        if (std::is_signed_v<K>)
                            k->base = static_cast<K>(-n / 2);
                        break;
                    default:
                        k->base = K(10);
                }
            }
            else
                k->base = K(r.range(-5, 5)), k->scale = K(0.125);
        }
    }

    std::vector<std::pair<int, int>> pts;

    void check(tree& t, const model& m, const char* when)
    {
        VCHECK(t.size() == m.size(), when, ": size ", t.size(), " expected ", m.size());
        VCHECK(t.empty() == m.empty(), when, ": empty");
        // Everything is found, with its latest value, by point lookup.
        for (auto& [p, v] : m)
        {
            bool ok = true;
            try
            {
                VCHECK(t.find(kx(p.first), ky(p.second)) == mkv<V>(v), when, ": find(", p.first, ",", p.second, ") value");
            }
            catch (const typename tree::data_not_found&)
            {
                ok = false;
            }
            VCHECK(ok, when, ": stored point (", p.first, ",", p.second, ") is not found");
        }
        // Nothing else is found.
        for (int k = 0; k < 6; ++k)
        {
            int x = int(r.range(0, w)), y = int(r.range(0, h));
            if (m.count({x, y}))
                continue;
            bool thrown = false;
            try
            {
                (void)t.find(kx(x), ky(y));
            }
            catch (const typename tree::data_not_found&)
            {
                thrown = true;
            }
            VCHECK(thrown, when, ": find(", x, ",", y, ") must report that no data exists");
        }
        u64 hsh = hcomb(w, h);
        for (auto& [p, v] : m)
            hsh = hcomb(hcomb(hsh, p.first * 1000 + p.second), 1);
        if (m.size() > 1)
            seen(hsh);
        walk(t, m, when);
    }

    void collect(const typename tree::node_access& n, std::map<std::pair<K, K>, int>& out, std::size_t& total, const model& m)
    {
        if (!n)
            return;
        VCHECK(++total <= m.size(), "node access: more nodes than stored points");
        ++out[{n.x(), n.y()}];
        VCHECK(n == n && !(n == n.northeast()) && !(n.northwest() == n) && n.southeast() == n.southeast(), "node access equality");
        collect(n.northeast(), out, total, m);
        collect(n.northwest(), out, total, m);
        collect(n.southeast(), out, total, m);
        collect(n.southwest(), out, total, m);
    }

    void walk(tree& t, const model& m, const char* when)
    {
        std::map<std::pair<K, K>, int> out;
        std::size_t total = 0;
        collect(t.get_node_access(), out, total, m);
        VCHECK(total == m.size() && out.size() == m.size(), when, ": node access reaches ", total, " nodes");
        for (auto& [p, v] : m)
            VCHECK(out.count({kx(p.first), ky(p.second)}), when, ": node access misses a stored point");
    }

    void region(tree& t, const model& m)
    {
        int x1 = int(r.range(0, w)), x2 = int(r.range(0, w)), y1 = int(r.range(0, h)), y2 = int(r.range(0, h));
        if (!m.empty() && r.chance(50))
        {
            // boundaries through stored points
            auto a = m.begin(), b = m.begin();
            std::advance(a, r.below(m.size()));
            std::advance(b, r.below(m.size()));
            x1 = a->first.first, y1 = a->first.second, x2 = b->first.first, y2 = b->first.second;
        }
        if (x1 > x2)
            std::swap(x1, x2);
        if (y1 > y2)
            std::swap(y1, y2);
        std::map<std::pair<K, K>, int> exp;
        for (auto& [p, v] : m)
            if (x1 <= p.first && p.first <= x2 && y1 <= p.second && p.second <= y2)
                exp[{kx(p.first), ky(p.second)}] = v;
        const tree& ct = t;
        auto res = ct.search_region(kx(x1), ky(y1), kx(x2), ky(y2));
        std::map<std::pair<K, K>, int> got;
        std::vector<std::pair<K, K>> order;
        for (auto it = res.begin(); it != res.end(); ++it)
        {
            std::pair<K, K> p{it->first.x, it->first.y};
            VCHECK(order.size() < exp.size(), "search_region returns too many points");
            VCHECK(exp.count(p), "search_region returns a point outside of the region");
            VCHECK((*it).second == mkv<V>(exp[p]), "search_region: value of a point");
            VCHECK(++got[p] == 1, "search_region returns a point twice");
            order.push_back(p);
        }
        VCHECK(got.size() == exp.size(), "search_region [", x1, ",", x2, "]x[", y1, ",", y2, "] returns ", got.size(), " points, expected ", exp.size());
        if (!order.empty())
        {
            auto it = res.end();
            for (std::size_t i = order.size(); i-- > 0;)
            {
                --it;
                VCHECK(it->first.x == order[i].first && it->first.y == order[i].second, "search_region: reverse iteration, point");
                VCHECK(it->second == mkv<V>(exp[order[i]]), "search_region: reverse iteration, value");
            }
            VCHECK(it == res.begin(), "search_region: reverse iteration ends at begin()");
        }
        {
            // copied and assigned results and iterators
            auto res2 = res;
            auto res3 = ct.search_region(kx(0), ky(0), kx(0), ky(0));
            res3 = res2;
            std::size_t n = 0;
            auto it = res3.begin();
            auto walk = res2.begin();
            for (; walk != res2.end(); ++walk, ++n)
            {
                it = walk;
                VCHECK(it == walk && n < order.size(), "assigned result iterator");
                VCHECK(it->first.x == order[n].first && it->first.y == order[n].second && it->second == mkv<V>(exp[order[n]]),
                    "assigned result iterator: point or value");
                if (n + 1 < order.size())
                {
                    ++it;
                    VCHECK(it != walk && it->first.x == order[n + 1].first && it->first.y == order[n + 1].second, "step of an assigned iterator");
                    --it;
                    VCHECK(it == walk, "step back of an assigned iterator");
                }
            }
            VCHECK(n == order.size(), "copied results: number of points");
            it = walk;
            VCHECK(it == res2.end(), "assigned end iterator");
        }
        typename tree::data_array_type arr;
        ct.search_region(kx(x1), ky(y1), kx(x2), ky(y2), arr);
        std::vector<int> ev;
        for (auto& e : exp)
            ev.push_back(e.second);
        VCHECK(arr.size() == ev.size(), "search_region(array): number of values");
        std::sort(ev.begin(), ev.end());
        for (auto& v : arr)
        {
            bool f = false;
            for (std::size_t i = 0; i < ev.size(); ++i)
                if (mkv<V>(ev[i]) == v)
                {
                    ev.erase(ev.begin() + i);
                    f = true;
                    break;
                }
            VCHECK(f, "search_region(array): unexpected value");
        }
        count("region-searches");
        count("region-hits", exp.size());
    }

    std::pair<int, int> some_point(const model& m, int existing_pct)
    {
        if (!m.empty() && r.chance(existing_pct))
        {
            auto a = m.begin();
            std::advance(a, r.below(m.size()));
            return a->first;
        }
        return {int(r.range(0, w)), int(r.range(0, h))};
    }

    void insert(tree& t, model& m)
    {
        auto p = some_point(m, 15);
        int v = few_values ? int(r.below(2)) : r.chance(10) ? 0 : nextv++;
        op("insert ", p.first, " ", p.second, " ", v);
        t.insert(kx(p.first), ky(p.second), mkv<V>(v));
        m[p] = v;
        count("inserts");
    }

    void remove(tree& t, model& m)
    {
        auto p = some_point(m, 85);
        op("remove ", p.first, " ", p.second);
        t.remove(kx(p.first), ky(p.second));
        if (m.erase(p))
            count("removes");
        else
            count("removes-of-nothing");
    }

    void run(bool copies)
    {
        {
            tree t;
            model m;
            int steps = 3 + int(r.skewed(60));
            int ins = int(r.pick({35, 50, 70}));
            for (int i = 0; i < steps; ++i)
            {
                if (copies && r.chance(12))
                {
                    switch (r.below(6))
                    {
                        case 0:
                        {
                            op("copy, mutate both");
                            tree c(t);
                            model cm = m;
                            VCHECK(c == t && t == c && !(c != t), "copy equals source");
                            check(c, cm, "copy");
                            for (int k = 0; k < 4; ++k)
                                r.chance(50) ? insert(c, cm) : remove(c, cm);
                            check(c, cm, "mutated copy");
                            check(t, m, "source of a mutated copy");
                            VCHECK((c == t) == (cm == m), "equality must follow the stored points and values");
                            for (int k = 0; k < 3; ++k)
                                r.chance(50) ? insert(t, m) : remove(t, m);
                            check(c, cm, "copy of a mutated source");
                            break;
                        }
                        case 1:
                        {
                            op("assign over a non-empty tree");
                            tree c;
                            model cm;
                            for (int k = 0; k < 5; ++k)
                                insert(c, cm);
                            c = t;
                            check(c, m, "assigned");
                            VCHECK(c == t, "assigned equals source");
                            break;
                        }
                        case 2:
                        {
                            op("self assignment");
                            tree& alias = t;
                            t = alias;
                            break;
                        }
                        case 3:
                        {
                            op("swap");
                            tree c;
                            model cm;
                            for (int k = int(r.below(6)); k > 0; --k)
                                insert(c, cm);
                            c.swap(t);
                            check(c, m, "swapped");
                            check(t, cm, "swapped");
                            region(c, m);
                            t.swap(c);
                            break;
                        }
                        case 4:
                        {
                            op("rebuild in another order, compare");
                            std::vector<std::pair<std::pair<int, int>, int>> v(m.begin(), m.end());
                            for (std::size_t k = v.size(); k > 1; --k)
                                std::swap(v[k - 1], v[r.below(k)]);
                            tree c;
                            for (auto& e : v)
                                c.insert(kx(e.first.first), ky(e.first.second), mkv<V>(e.second));
                            VCHECK(c == t && t == c, "same points and values: equal");
                            if (!v.empty())
                            {
                                auto e = v[r.below(v.size())];
                                c.insert(kx(e.first.first), ky(e.first.second), mkv<V>(e.second + 1));
                                VCHECK(c != t && t != c, "different value: not equal");
                                c.remove(kx(e.first.first), ky(e.first.second));
                                VCHECK(c != t && t != c, "different size: not equal");
                                // the same value at another point
                                auto q = some_point(m, 0);
                                if (!m.count(q))
                                {
                                    c.insert(kx(q.first), ky(q.second), mkv<V>(e.second));
                                    VCHECK(c != t && t != c, "one point moved: not equal");
                                    c.remove(kx(q.first), ky(q.second));
                                }
                                c.insert(kx(e.first.first), ky(e.first.second), mkv<V>(e.second));
                                VCHECK(c == t && t == c, "the same points and values again: equal");
                                // two values exchanged
                                auto f = v[r.below(v.size())];
                                if (e.second != f.second)
                                {
                                    c.insert(kx(e.first.first), ky(e.first.second), mkv<V>(f.second));
                                    c.insert(kx(f.first.first), ky(f.first.second), mkv<V>(e.second));
                                    VCHECK(c != t && t != c, "two values exchanged: not equal");
                                }
                            }
                            count("equality-probes");
                            break;
                        }
                        default:
                            op("clear");
                            t.clear();
                            m.clear();
                    }
                    count("whole-container-ops");
                }
                else if (int(r.below(100)) < ins)
                    insert(t, m);
                else
                    remove(t, m);
                check(t, m, "after step");
                region(t, m);
            }
            for (int k = 0; k < 10; ++k)
                region(t, m);
            // drain completely in random order
            while (!m.empty() && r.chance(95))
            {
                auto p = some_point(m, 100);
                op("drain ", p.first, " ", p.second);
                t.remove(kx(p.first), ky(p.second));
                m.erase(p);
                count("removes");
                check(t, m, "while draining");
            }
        }
        expect_no_live("point_quad_tree destroyed");
    }
};

void dispatch(Rng& r, bool copies)
{
    dispatch_types<
        Fixture<int, int>, Fixture<unsigned, std::string>, Fixture<double, Tracked>, Fixture<std::int16_t, int>,
        Fixture<long, Tracked>>(r, [&]<typename F>() { F(r).run(copies); });
}

} // namespace

int main(int argc, char** argv)
{
    return drive(
        argc, argv,
        {
            {"pqt_map", 3, [](Rng& r) { dispatch(r, false); }},
            {"pqt_copy", 2, [](Rng& r) { dispatch(r, true); }},
        });
}
