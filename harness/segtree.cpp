// Monitors for segment_tree.
#include "common.hpp"
#include <mdds/segment_tree.hpp>
#include <limits>

using namespace vh;

namespace {

struct MoveOnly
{
    std::unique_ptr<int> p;
    MoveOnly() = default;
    explicit MoveOnly(int v) : p(v ? new int(v) : nullptr)
    {}
    MoveOnly(MoveOnly&&) = default;
    MoveOnly& operator=(MoveOnly&&) = default;
    int get() const
    {
        return p ? *p : 0;
    }
    bool operator==(const MoveOnly& o) const
    {
        return get() == o.get();
    }
};
std::ostream& operator<<(std::ostream& os, const MoveOnly& m)
{
    return os << m.get();
}

template<typename V>
V mkv(int i)
{
    if constexpr (std::is_same_v<V, std::string>)
        return i == 0 ? std::string() : std::string(i * 5, char('a' + i % 26));
    else
        return V(i);
}

template<typename K>
K mkk(int i)
{
    if constexpr (std::is_same_v<K, std::string>)
    {
        // order preserving text form, the smallest is the empty string
        if (i == -40)
            return std::string();
        char b[16];
        std::snprintf(b, sizeof b, "k%04d", i + 1000);
        return b;
    }
    else if constexpr (std::is_same_v<K, double>)
        return i * 0.25;
    else
    {
        // The ends of the range map to the ends of the key type.
        if (i == -40)
            return std::numeric_limits<K>::lowest();
        if (i == 40)
            return std::numeric_limits<K>::max();
        if (std::is_unsigned_v<K>)
            return static_cast<K>(i + 40);
        return static_cast<K>(i);
    }
}

template<typename V>
V probe_value(int i)
{
    return mkv<V>(i);
}

struct Seg
{
    int s, e, v;
    bool operator<(const Seg& o) const
    {
        return std::tie(s, e, v) < std::tie(o.s, o.e, o.v);
    }
    bool operator==(const Seg&) const = default;
};

template<typename K, typename V>
struct Fixture
{
    using tree = mdds::segment_tree<K, V>;
    Rng& r;
    int span, nvals;
    explicit Fixture(Rng& rr) : r(rr)
    {
        span = r.pick({3, 6, 12, 25, 40});
        nvals = int(r.pick({1, 2, 4, 9}));
    }

    // Back translation from the (small) domains.
    std::vector<K> dom;
    std::vector<V> vals;
    void prepare()
    {
        for (int i = -40; i <= 40; ++i)
            dom.push_back(mkk<K>(i));
        for (int i = 0; i < nvals; ++i)
            vals.push_back(mkv<V>(i));
    }
    int key_id(const K& k) const
    {
        auto it = std::lower_bound(dom.begin(), dom.end(), k);
        if (it == dom.end() || !(*it == k))
            violation("a segment carries a key that was never inserted");
        return int(it - dom.begin()) - 40;
    }
    int val_id(const V& v) const
    {
        for (int i = 0; i < nvals; ++i)
            if (vals[i] == v)
                return i;
        violation("a segment carries a value that was never inserted");
    }

    static u64 hash(const std::multiset<Seg>& m, bool valid)
    {
        u64 h = valid;
        for (auto& s : m)
            h = hcomb(hcomb(hcomb(h, s.s + 100), s.e + 100), s.v);
        return h;
    }

    void check_state(const tree& t, const std::multiset<Seg>& m, const char* when)
    {
        VCHECK(std::size_t(t.size()) == m.size(), when, ": size ", t.size(), " expected ", m.size());
        VCHECK(t.empty() == m.empty(), when, ": empty()");
        std::set<int> b;
        for (auto& s : m)
            b.insert(s.s), b.insert(s.e);
        auto keys = t.boundary_keys();
        VCHECK(keys.size() == b.size(), when, ": number of boundary keys ", keys.size(), " expected ", b.size());
        std::size_t i = 0;
        for (int x : b)
        {
            VCHECK(keys[i] == mkk<K>(x), when, ": boundary key ", i);
            ++i;
        }
        if (m.size() > 1)
            seen(hash(m, t.valid_tree()));
    }

    void check_point(const tree& t, const std::multiset<Seg>& m, int p)
    {
        std::multiset<Seg> expect;
        for (auto& s : m)
            if (s.s <= p && p < s.e)
                expect.insert(s);
        auto res = t.search(mkk<K>(p));
        VCHECK(std::size_t(res.size()) == expect.size(), "search ", p, ": size ", res.size(), " expected ", expect.size());
        VCHECK(res.empty() == expect.empty(), "search ", p, ": empty()");
        std::multiset<Seg> got;
        std::vector<Seg> order;
        std::size_t n = 0;
        for (auto it = res.begin(); it != res.end(); ++it)
        {
            VCHECK(++n <= expect.size(), "search ", p, ": too many results");
            Seg s{key_id(it->start), key_id(it->end), val_id((*it).value)};
            got.insert(s);
            order.push_back(s);
        }
        VCHECK(got == expect, "search ", p, ": the result is not the multiset of segments containing the point");
        // the same results in reverse
        if (!expect.empty())
        {
            auto it = res.end();
            for (std::size_t i = order.size(); i-- > 0;)
            {
                --it;
                Seg s{key_id(it->start), key_id(it->end), val_id(it->value)};
                VCHECK(s == order[i], "search ", p, ": reverse iteration");
            }
            VCHECK(it == res.begin(), "search ", p, ": reverse iteration ends at begin()");
            count("points-with-hits");
            count("hits", expect.size());
        }
        else
            count("points-without-hits");
    }

    void check_all(const tree& t, const std::multiset<Seg>& m)
    {
        VCHECK(t.valid_tree(), "valid tree");
        for (int p = -span; p <= span; ++p)
            check_point(t, m, p);
        check_point(t, m, -40);
        check_point(t, m, 40);
    }

    Seg some_seg(const std::multiset<Seg>& m)
    {
        Seg s;
        if (!m.empty() && r.chance(20))
        {
            // duplicate or near duplicate
            auto it = m.begin();
            std::advance(it, r.below(m.size()));
            s = *it;
            if (r.chance(50))
                s.v = int(r.below(nvals));
            return s;
        }
        do
        {
            s.s = int(r.range(-span, span));
            s.e = r.chance(30) ? s.s + 1 : int(r.range(-span, span));
            if (r.chance(4))
                s.s = -40;
            if (r.chance(4))
                s.e = 40;
        } while (s.s >= s.e || s.e > 40);
        s.v = int(r.below(nvals));
        return s;
    }

    void insert(tree& t, std::multiset<Seg>& m)
    {
        Seg s = some_seg(m);
        op("insert ", s.s, " ", s.e, " ", s.v);
        t.insert(mkk<K>(s.s), mkk<K>(s.e), mkv<V>(s.v));
        m.insert(s);
        VCHECK(!t.valid_tree(), "inserting invalidates the tree");
        if (r.chance(10))
        {
            auto res = t.search(mkk<K>(s.s));
            VCHECK(res.empty() && res.size() == 0 && res.begin() == res.end(),
                   "a search on an invalid tree must not give results");
        }
        count("inserts");
    }

    void run(bool copies)
    {
        prepare();
        {
            tree t;
            std::multiset<Seg> m;
            VCHECK(t.empty() && t.size() == 0 && !t.valid_tree(), "default constructed tree is empty");
            int steps = 3 + int(r.below(20));
            for (int i = 0; i < steps; ++i)
            {
                switch (r.below(copies ? 13 : 10))
                {
                    case 0:
                    case 1:
                    case 2:
                    {
                        int n = 1 + int(r.skewed(r.chance(10) ? 80 : 12));
                        while (n--)
                            insert(t, m);
                        break;
                    }
                    case 3:
                    case 4:
                    {
                        op("build_tree");
                        t.build_tree();
                        VCHECK(t.valid_tree() == !m.empty(), "build_tree must give a valid tree unless there are no segments");
                        if (!m.empty())
                        {
                            check_all(t, m);
                            std::set<int> b;
                            for (auto& s : m)
                                b.insert(s.s), b.insert(s.e);
                            VCHECK(std::size_t(t.leaf_size()) == b.size(), "leaf nodes correspond to boundary keys");
                        }
                        count("builds");
                        break;
                    }
                    case 5:
                    case 6:
                    {
                        if (!t.valid_tree() || m.empty())
                            break;
                        // erase a segment found by a search
                        auto pick = m.begin();
                        std::advance(pick, r.below(m.size()));
                        int p = int(r.range(pick->s, pick->e - 1));
                        if (pick->e == 40 || pick->s == -40)
                            p = pick->s == -40 ? pick->e - 1 : pick->s;
                        auto res = t.search(mkk<K>(p));
                        VCHECK(!res.empty(), "search for a point inside a stored segment");
                        auto it = res.begin();
                        for (u64 k = r.below(res.size()); k; --k)
                            ++it;
                        Seg s{key_id(it->start), key_id(it->end), val_id(it->value)};
                        op("erase ", s.s, " ", s.e, " ", s.v);
                        t.erase(it);
                        auto f = m.find(s);
                        VCHECK(f != m.end(), "search returned a segment that is not stored");
                        m.erase(f);
                        VCHECK(t.valid_tree(), "erase must not invalidate the tree");
                        check_all(t, m);
                        count("erases");
                        break;
                    }
                    case 7:
                    {
                        int kind = int(r.below(4)), a = int(r.range(-span, span)), b = int(r.below(nvals));
                        op("erase_if kind=", kind, " a=", a, " v=", b);
                        bool valid = t.valid_tree();
                        auto hit = [&](const Seg& s) {
                            switch (kind)
                            {
                                case 0:
                                    return s.s <= a && a < s.e;
                                case 1:
                                    return s.v == b;
                                case 2:
                                    return s.s >= a;
                                default:
                                    return ((s.s + s.e + s.v) % 3) == 0;
                            }
                        };
                        std::size_t calls = 0;
                        auto n = t.erase_if([&](const K& s, const K& e, const V& v) {
                            ++calls;
                            return hit(Seg{key_id(s), key_id(e), val_id(v)});
                        });
                        VCHECK(calls == m.size(), "the predicate must see every stored segment once");
                        std::size_t exp = 0;
                        for (auto it = m.begin(); it != m.end();)
                            if (hit(*it))
                                it = m.erase(it), ++exp;
                            else
                                ++it;
                        VCHECK(std::size_t(n) == exp, "erase_if must return the number of erased segments");
                        VCHECK(t.valid_tree() == valid, "erase_if must not change the validity of the tree");
                        if (valid)
                            check_all(t, m);
                        count("erase_ifs");
                        break;
                    }
                    case 8:
                    {
                        // an invalid segment is rejected and nothing changes
                        int a = int(r.range(-span, span)), b = int(r.range(-span, a));
                        op("insert invalid ", a, " ", b);
                        bool valid = t.valid_tree();
                        bool thrown = false;
                        try
                        {
                            t.insert(mkk<K>(a), mkk<K>(b), mkv<V>(0));
                        }
                        catch (const std::invalid_argument&)
                        {
                            thrown = true;
                        }
                        VCHECK(thrown, "inserting a segment whose end does not exceed its start must throw");
                        VCHECK(t.valid_tree() == valid, "a rejected insert leaves the tree as it was");
                        break;
                    }
                    case 9:
                        if (r.chance(15))
                        {
                            op("clear");
                            t.clear();
                            m.clear();
                            VCHECK(!t.valid_tree(), "clear");
                        }
                        else
                            insert(t, m);
                        break;
                    case 10:
                        if constexpr (std::is_copy_constructible_v<V>)
                        {
                            op("copy, then mutate both");
                            tree c(t);
                            auto cm = m;
                            if (t.valid_tree() == c.valid_tree() || !m.empty())
                                VCHECK(c == t && t == c && !(c != t), "copy equals source");
                            check_state(c, cm, "copy");
                            if (t.valid_tree() && !m.empty())
                            {
                                VCHECK(c.valid_tree(), "a copy of a tree that is valid is valid");
                                check_all(c, cm);
                            }
                            insert(c, cm);
                            c.build_tree();
                            check_all(c, cm);
                            check_state(t, m, "source after mutating the copy");
                            if (t.valid_tree())
                                check_all(t, m);
                            c.erase_if([&](const K& s, const K& e, const V& v) { return (key_id(s) + key_id(e) + val_id(v)) & 1; });
                            for (auto it = cm.begin(); it != cm.end();)
                                it = ((it->s + it->e + it->v) & 1) ? cm.erase(it) : std::next(it);
                            check_all(c, cm);
                            // Trees that are not in the same state of readiness are never equal.
                            bool ready = c.valid_tree() == t.valid_tree();
                            VCHECK((c == t) == (ready && cm == m), "equality must follow the multiset of segments");
                            VCHECK((c != t) == !(ready && cm == m), "inequality must follow the multiset of segments");
                            if (t.valid_tree())
                                check_all(t, m);
                            if (r.chance(50))
                            {
                                t = c;
                                m = cm;
                                VCHECK((t == c) == (t.valid_tree() == c.valid_tree()), "assignment");
                            }
                            count("copies");
                        }
                        break;
                    case 11:
                    {
                        op("move-construct, swap, move-assign");
                        bool valid = t.valid_tree();
                        tree c(std::move(t));
                        check_state(c, m, "move-constructed");
                        VCHECK(c.valid_tree() == valid, "moving keeps the tree");
                        if (valid)
                            check_all(c, m);
                        tree d;
                        std::multiset<Seg> dm;
                        insert(d, dm);
                        insert(d, dm);
                        d.build_tree();
                        d.swap(c);
                        check_state(d, m, "swapped");
                        check_state(c, dm, "swapped");
                        check_all(c, dm);
                        if (valid)
                            check_all(d, m);
                        t = std::move(d);
                        check_state(t, m, "move-assigned");
                        if (valid)
                            check_all(t, m);
                        count("moves");
                        break;
                    }
                    case 12:
                    {
                        op("permuted rebuild");
                        tree f;
                        std::vector<Seg> v(m.begin(), m.end());
                        for (std::size_t k = v.size(); k > 1; --k)
                            std::swap(v[k - 1], v[r.below(k)]);
                        // extra segments that get removed again
                        f.insert(mkk<K>(-1), mkk<K>(1), mkv<V>(0));
                        for (auto& s : v)
                            f.insert(mkk<K>(s.s), mkk<K>(s.e), mkv<V>(s.v));
                        if (r.chance(50) || t.valid_tree())
                            f.build_tree();
                        bool once = false;
                        f.erase_if([&](const K& s, const K& e, const V& x) {
                            if (once || !(s == mkk<K>(-1)) || !(e == mkk<K>(1)) || !(x == mkv<V>(0)))
                                return false;
                            return once = true;
                        });
                        check_state(f, m, "permuted rebuild");
                        bool ready = f.valid_tree() == t.valid_tree();
                        VCHECK((f == t) == ready && (t == f) == ready && (t != f) == !ready, "trees with the same segments must be equal");
                        if (!v.empty())
                        {
                            // replace one segment by another: same count, different multiset
                            Seg a = v[r.below(v.size())], b = some_seg(m);
                            auto fm = m;
                            fm.erase(fm.find(a));
                            fm.insert(b);
                            bool done = false;
                            f.erase_if([&](const K& s, const K& e, const V& x) {
                                if (done || !(Seg{key_id(s), key_id(e), val_id(x)} == a))
                                    return false;
                                return done = true;
                            });
                            f.insert(mkk<K>(b.s), mkk<K>(b.e), mkv<V>(b.v));
                            ready = f.valid_tree() == t.valid_tree();
                            VCHECK((f == t) == (ready && fm == m) && (t == f) == (ready && fm == m), "equality of trees with equally many segments");
                        }
                        count("equality-probes");
                        break;
                    }
                }
                check_state(t, m, "after step");
            }
            t.build_tree();
            if (!m.empty())
                check_all(t, m);
        }
        vals.clear();
        expect_no_live("segment_tree destroyed");
    }
};

void dispatch(Rng& r, bool copies)
{
    dispatch_types<
        Fixture<int, int>, Fixture<long, std::string>, Fixture<unsigned, int>, Fixture<double, Tracked>,
        Fixture<std::string, int>, Fixture<std::int8_t, Tracked>, Fixture<int, MoveOnly>>(
        r, [&]<typename F>() { F(r).run(copies); });
}

} // namespace

int main(int argc, char** argv)
{
    return drive(
        argc, argv,
        {
            {"segtree_search", 3, [](Rng& r) { dispatch(r, false); }},
            {"segtree_copy", 2, [](Rng& r) { dispatch(r, true); }},
        });
}
