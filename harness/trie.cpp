// trie_map and packed_trie_map against std::map: content, iteration in both directions, prefix search,
// node access, packing, copying and saved states.
#include "common.hpp"
#include <mdds/trie_map.hpp>

using namespace vh;

namespace {

template<typename V>
V mkv(int x);
template<>
int mkv<int>(int x)
{
    return x * 7 - 3;
}
template<>
double mkv<double>(int x)
{
    return x * 0.37;
}
template<>
std::string mkv<std::string>(int x)
{
    return x % 5 == 0 ? std::string() : std::string(std::size_t(x % 41), char('a' + x % 26)) + std::to_string(x);
}
template<>
std::vector<double> mkv<std::vector<double>>(int x)
{
    return std::vector<double>(std::size_t(x % 5), x * 1.5);
}
template<>
Tracked mkv<Tracked>(int x)
{
    return Tracked(x);
}
template<>
std::uint8_t mkv<std::uint8_t>(int x)
{
    return std::uint8_t(x * 31);
}

struct traits8
{
    using pack_value_type = std::uint8_t;
};
struct traits16
{
    using pack_value_type = std::uint16_t;
};
struct traits32
{
    using pack_value_type = std::uint32_t;
};

// A value type with a serializer of its own.
struct tracked_serializer
{
    static constexpr bool variable_size = false;
    static constexpr size_t value_size = 4;
    static void write(std::ostream& os, const Tracked& t)
    {
        Ledger::use(&t);
        int v = t.v;
        os.write(reinterpret_cast<const char*>(&v), 4);
    }
    static void read(std::istream& is, size_t n, Tracked& t)
    {
        int v = 0;
        if (n != 4 || !is.read(reinterpret_cast<char*>(&v), 4))
            throw std::runtime_error("short read");
        t = Tracked(v);
    }
};

// A serializer that does not keep its promise on the size of a value.
template<typename V>
struct lying_serializer
{
    static constexpr bool variable_size = false;
    static constexpr size_t value_size = 4;
    static inline int odd = 0; // number of the value written with another size
    static inline int delta = 1;
    static void write(std::ostream& os, const V&)
    {
        os.write("abcdefgh", odd-- == 0 ? 4 + delta : 4);
    }
    static void read(std::istream& is, size_t, V&)
    {
        char c[4];
        is.read(c, 4);
    }
};

template<typename V>
struct serializer
{
    using type = mdds::trie::value_serializer<V>;
};
template<>
struct serializer<Tracked>
{
    using type = tracked_serializer;
};

template<typename KeyT, typename V, typename Traits, std::size_t MaxNodes>
struct Fixture
{
    using map = mdds::trie_map<KeyT, V, Traits>;
    using packed = mdds::packed_trie_map<KeyT, V, Traits>;
    using unit = typename KeyT::value_type;
    using view = typename map::key_view_type;
    using ser = typename serializer<V>::type;
    struct Less
    {
        bool operator()(const KeyT& a, const KeyT& b) const
        {
            return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
        }
    };
    using Model = std::map<KeyT, int, Less>;

    Rng& r;
    std::vector<unit> alphabet;
    std::vector<KeyT> pool;
    std::size_t maxlen;
    int next = 1;

    explicit Fixture(Rng& r_) : r(r_)
    {
        int style = int(r.below(6));
        auto add = [&](i64 a, i64 b) {
            for (i64 c = a; c <= b; ++c)
                alphabet.push_back(unit(c));
        };
        switch (style)
        {
            case 0:
                add('a', 'b');
                break;
            case 1:
                add('a', 'e');
                break;
            case 2:
                add(0, 2);
                break;
            case 3:
                add('y', 'z');
                add(0x7e, 0x81);
                add(0xfe, 0x100);
                break;
            case 4:
                add(0, 255);
                break;
            default:
                add('0', '9');
        }
        maxlen = r.pick({2, 4, 4, 8, 40});
        int n = int(r.pick({4, 12, 40}));
        for (int i = 0; i < n; ++i)
            pool.push_back(fresh_key());
        if (r.chance(50))
            pool.push_back(KeyT());
    }

    KeyT fresh_key()
    {
        KeyT k;
        std::size_t n = r.skewed(maxlen);
        for (std::size_t i = 0; i < n; ++i)
            k.push_back(alphabet[r.below(alphabet.size())]);
        return k;
    }

    // mostly related to the pool: a known key, an extension, a prefix or a neighbour of one
    KeyT some_key()
    {
        if (pool.empty() || r.chance(15))
            return fresh_key();
        KeyT k = pool[r.below(pool.size())];
        switch (r.below(8))
        {
            case 0:
                k.push_back(alphabet[r.below(alphabet.size())]);
                break;
            case 1:
                if (!k.empty())
                    k.pop_back();
                break;
            case 2:
                if (!k.empty())
                    k[r.below(k.size())] = alphabet[r.below(alphabet.size())];
                break;
            case 3:
                k.resize(r.below(k.size() + 1));
                break;
        }
        return k;
    }

    static std::string show(const KeyT& k)
    {
        std::string s = "\"";
        for (auto c : k)
        {
            long v = long(c);
            if (v > 32 && v < 127)
                s += char(v);
            else
                s += "<" + std::to_string(v) + ">";
        }
        return s + "\"";
    }

    static std::size_t nodes(const Model& m)
    {
        std::set<KeyT, Less> s;
        s.insert(KeyT());
        for (auto& e : m)
            for (std::size_t i = 0; i <= e.first.size(); ++i)
                s.insert(e.first.substr(0, i));
        return s.size();
    }

    static u64 hash(const Model& m)
    {
        u64 h = m.size();
        for (auto& e : m)
        {
            for (auto c : e.first)
                h = hcomb(h, u64(c));
            h = hcomb(h, u64(e.second) + 0x1234567);
        }
        return h;
    }

    bool is_prefix(const KeyT& p, const KeyT& k)
    {
        return k.size() >= p.size() && std::equal(p.begin(), p.end(), k.begin());
    }

    // ---- what both containers share
    template<typename It>
    void entry(It& it, const KeyT& k, int v, const char* what)
    {
        auto e = *it;
        VCHECK(e.first == k, what, ": iterator at key ", show(e.first), ", expected ", show(k));
        VCHECK(e.second == mkv<V>(v), what, ": wrong value for key ", show(k));
        VCHECK(it->first == k && it->second == mkv<V>(v), what, ": operator-> at key ", show(k));
    }

    template<typename M>
    void forward(M& t, const Model& m, const char* what)
    {
        auto it = t.begin();
        auto end = t.end();
        for (auto& x : m)
        {
            VCHECK(it != end, what, ": iteration ended early, before key ", show(x.first));
            entry(it, x.first, x.second, what);
            ++it;
        }
        VCHECK(it == end && end == it, what, ": iteration goes on after the last of ", m.size(), " entries");
    }

    // A random walk with ++ and --, on one iterator, over the entries of [first, last).
    template<typename It, typename MIt>
    void walk(It begin, It end, MIt first, MIt last, int steps, const char* what)
    {
        std::vector<MIt> seq;
        for (auto i = first; i != last; ++i)
            seq.push_back(i);
        std::size_t n = seq.size();
        VCHECK((begin == end) == (n == 0), what, ": begin == end for ", n, " entries");
        if (!n)
            return;
        It it = r.chance(50) ? begin : end;
        std::size_t pos = it == end ? n : 0;
        for (int i = 0; i < steps; ++i)
        {
            bool fwd = pos == 0 ? true : pos == n ? false : r.chance(i % 20 < 10 ? 30 : 70);
            if (fwd)
            {
                if (r.chance(20))
                {
                    It old = it;
                    It ret = it;
                    auto x = it++;
                    VCHECK(x == old, what, ": post-increment returns the old position");
                }
                else
                    ++it;
                ++pos;
            }
            else
            {
                if (r.chance(20))
                {
                    It old = it;
                    auto x = it--;
                    VCHECK(x == old, what, ": post-decrement returns the old position");
                }
                else
                    --it;
                --pos;
            }
            VCHECK((it == end) == (pos == n), what, ": at end, position ", pos, " of ", n, fwd ? " after ++" : " after --");
            VCHECK((it == begin) == (pos == 0), what, ": at begin, position ", pos, " of ", n, fwd ? " after ++" : " after --");
            if (pos < n)
                entry(it, seq[pos]->first, seq[pos]->second, what);
            if (r.chance(10))
            {
                It copy(it);
                it = copy;
            }
        }
        count("iterator-steps", u64(steps));
    }

    // Some steps in both directions from a position that stands at mi.
    template<typename It, typename End>
    void roam(It it, typename Model::const_iterator mi, const Model& m, End end, int steps, const char* what)
    {
        bool fwd = r.chance(50);
        for (int i = 0; i < steps; ++i)
        {
            if (r.chance(25))
                fwd = !fwd;
            if (mi == m.end())
                fwd = false;
            else if (mi == m.begin() && !fwd)
                fwd = true;
            if (fwd)
                ++it, ++mi;
            else
                --it, --mi;
            VCHECK((it == end) == (mi == m.end()), what, fwd ? " ++" : " --", ": at the end");
            if (mi != m.end())
                entry(it, mi->first, mi->second, what);
        }
        count("roams");
    }

    template<typename M>
    void lookups(M& t, const Model& m, int n, bool walks)
    {
        const M& ct = t;
        for (int i = 0; i < n; ++i)
        {
            KeyT k = some_key();
            auto mi = m.find(k);
            auto it = ct.find(view(k));
            VCHECK((it != ct.end()) == (mi != m.end()), "find(", show(k), ")");
            if (mi != m.end())
            {
                entry(it, k, mi->second, "find");
                count("finds-present");
                if (walks)
                {
                    // continue from the found entry in either direction
                    auto j = it;
                    auto mj = mi;
                    if (r.chance(50))
                    {
                        for (int s = 0; s < 6 && mj != m.end(); ++s)
                        {
                            ++j, ++mj;
                            VCHECK((j == ct.end()) == (mj == m.end()), "++ from a found entry ", show(k));
                            if (mj != m.end())
                                entry(j, mj->first, mj->second, "++ from a found entry");
                        }
                    }
                    else
                        for (int s = 0; s < 6 && mj != m.begin(); ++s)
                        {
                            --j, --mj;
                            entry(j, mj->first, mj->second, "-- from a found entry");
                        }
                }
            }
            else
                count("finds-absent");
            // prefix search
            KeyT p = some_key();
            if (r.chance(15))
                p = KeyT();
            auto res = ct.prefix_search(view(p));
            auto a = m.lower_bound(p);
            auto b = a;
            std::size_t hits = 0;
            while (b != m.end() && is_prefix(p, b->first))
                ++b, ++hits;
            auto x = res.begin();
            for (auto j = a; j != b; ++j)
            {
                VCHECK(x != res.end(), "prefix_search(", show(p), ") ends before ", show(j->first));
                entry(x, j->first, j->second, "prefix_search");
                ++x;
            }
            VCHECK(x == res.end(), "prefix_search(", show(p), ") returned more than ", hits, " entries");
            if (walks)
                walk(res.begin(), res.end(), a, b, 12, "prefix_search walk");
            count(hits ? "prefix-hits" : "prefix-misses");
        }
    }

    template<typename M>
    void node_walk(const M& t, const Model& m, int n)
    {
        for (int i = 0; i < n; ++i)
        {
            KeyT k = some_key();
            auto nd = t.root_node();
            KeyT p;
            std::size_t d = 0;
            for (;; ++d)
            {
                auto lo = m.lower_bound(p);
                bool exists = p.empty() || (lo != m.end() && is_prefix(p, lo->first));
                VCHECK(nd.valid() == exists, "node ", show(p), " valid");
                auto mi = m.find(p);
                VCHECK(nd.has_value() == (mi != m.end()), "node ", show(p), " has_value");
                if (mi != m.end())
                    VCHECK(nd.value() == mkv<V>(mi->second), "node ", show(p), " value");
                auto up = lo;
                while (up != m.end() && up->first == p)
                    ++up;
                VCHECK(nd.has_child() == (exists && up != m.end() && is_prefix(p, up->first)), "node ", show(p), " has_child");
                if (d == k.size())
                    break;
                nd = nd.child(k[d]);
                p.push_back(k[d]);
            }
            count("node-walks");
        }
    }

    template<typename M>
    void check(M& t, const Model& m, const char* what)
    {
        VCHECK(t.size() == m.size(), what, ": size ", t.size(), " expected ", m.size());
        VCHECK(t.empty() == m.empty(), what, ": empty");
        forward(t, m, what);
        if (m.size())
            seen(hash(m));
    }

    // ---- trie_map
    void insert(map& t, Model& m)
    {
        KeyT k = some_key();
        int v = next++;
        op("insert ", show(k), " v", v);
        if (r.chance(80))
            t.insert(view(k), mkv<V>(v));
        else
        {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
            t.insert(k.data(), k.size(), mkv<V>(v));
#pragma GCC diagnostic pop
        }
        count(m.count(k) ? "overwrites" : "inserts");
        m[k] = v;
        if (pool.size() < 80 && r.chance(30))
            pool.push_back(k);
    }
    void erase(map& t, Model& m)
    {
        KeyT k = some_key();
        if (!m.empty() && r.chance(50))
        {
            auto i = m.begin();
            std::advance(i, r.below(m.size()));
            k = i->first;
        }
        op("erase ", show(k));
        bool had = m.erase(k);
        bool got = t.erase(view(k));
        VCHECK(got == had, "erase(", show(k), ") returned ", got);
        count(had ? "erases" : "erases-of-absent");
    }

    void fill(map& t, Model& m, int n)
    {
        for (int i = 0; i < n; ++i)
            insert(t, m);
    }

    // kind 0: operations, 1: iteration
    void run_map(int kind)
    {
        {
            map t;
            Model m;
            check(t, m, "new");
            lookups(t, m, 2, true);
            int steps = int(r.pick({5, 20, 60}));
            int ins = int(r.pick({50, 70, 90}));
            for (int s = 0; s < steps; ++s)
            {
                if (r.chance(8))
                {
                    switch (r.below(7))
                    {
                        case 0:
                        {
                            op("copy");
                            map c(t);
                            Model cm = m;
                            VCHECK(c == t && t == c, "a copy is equal");
                            for (int i = 0; i < 3; ++i)
                                insert(c, cm), erase(c, cm);
                            check(c, cm, "mutated copy");
                            check(t, m, "source of the mutated copy");
                            if (r.chance(50))
                            {
                                c = t;
                                check(c, m, "copy-assigned");
                            }
                            break;
                        }
                        case 1:
                        {
                            op("move");
                            map c(std::move(t));
                            check(c, m, "move-constructed");
                            t = std::move(c);
                            check(t, m, "move-assigned");
                            break;
                        }
                        case 2:
                        {
                            op("swap");
                            map c;
                            Model cm;
                            fill(c, cm, int(r.below(6)));
                            c.swap(t);
                            check(c, m, "swapped");
                            check(t, cm, "swapped");
                            c.swap(t);
                            break;
                        }
                        case 3:
                        {
                            op("clear");
                            t.clear();
                            m.clear();
                            break;
                        }
                        case 4:
                        {
                            op("self-assignment");
                            map& a = t;
                            t = a;
                            break;
                        }
                        default:
                        {
                            op("equality");
                            // same content in another order, then with one difference
                            map c;
                            std::vector<std::pair<KeyT, int>> v(m.begin(), m.end());
                            for (std::size_t i = v.size(); i > 1; --i)
                                std::swap(v[i - 1], v[r.below(i)]);
                            for (auto& e : v)
                                c.insert(view(e.first), mkv<V>(e.second));
                            VCHECK(c == t && t == c && !(c != t), "maps with the same entries are equal");
                            Model cm = m;
                            for (int i = 0; i < 2; ++i)
                            {
                                if (r.chance(50))
                                    insert(c, cm);
                                else
                                    erase(c, cm);
                            }
                            bool same = cm.size() == m.size();
                            for (auto i = m.begin(), j = cm.begin(); same && i != m.end(); ++i, ++j)
                                same = i->first == j->first && mkv<V>(i->second) == mkv<V>(j->second);
                            VCHECK((c == t) == same && (t == c) == same, "equality of maps that may differ, expected ", same);
                            count("equality-probes");
                        }
                    }
                    count("whole-container-ops");
                }
                else if (int(r.below(100)) < ins)
                    insert(t, m);
                else
                    erase(t, m);
                check(t, m, "after step");
                const map& ct = t;
                if (kind == 0)
                {
                    lookups(t, m, 3, false);
                    node_walk(t, m, 2);
                }
                else
                {
                    {
                        // default constructed iterators can be copied, assigned to and told apart from the end
                        typename map::const_iterator di;
                        typename map::iterator dm;
                        auto dc = di;
                        count(dc == ct.end() || dm == t.end() ? "default-iterator-is-end" : "default-iterator-is-not-end");
                        di = ct.begin();
                        VCHECK((di == ct.end()) == m.empty(), "assigned iterator");
                    }
                    walk(t.begin(), t.end(), m.begin(), m.end(), 12, "walk");
                    walk(ct.begin(), ct.end(), m.begin(), m.end(), 12, "const walk");
                    lookups(t, m, 2, true);
                    if (!m.empty())
                    {
                        // mutable and const iterators agree; values can be written through an iterator
                        auto mi = m.begin();
                        std::advance(mi, r.below(m.size()));
                        auto it = t.find(view(mi->first));
                        auto ci = ct.find(view(mi->first));
                        typename map::const_iterator conv(it);
                        VCHECK(it == ci && ci == it && conv == ci, "iterator and const_iterator to the same entry");
                        VCHECK(!(it == ct.end()) && !(ct.end() == it), "found entry is not the end");
                        int v = next++;
                        op("write through iterator ", show(mi->first), " v", v);
                        (*it).second = mkv<V>(v);
                        mi->second = v;
                        entry(ci, mi->first, v, "after a write through an iterator");
                        roam(it, mi, m, t.end(), 6, "from a found mutable iterator");
                        roam(conv, mi, m, ct.end(), 6, "from a converted iterator");
                        // convert a position that was reached by stepping
                        auto wm = mi;
                        auto wi = it;
                        for (int k = int(r.below(5)); k > 0; --k)
                        {
                            if (wm == m.end() || (wm != m.begin() && r.chance(50)))
                                --wi, --wm;
                            else
                                ++wi, ++wm;
                        }
                        typename map::const_iterator conv2(wi);
                        VCHECK(conv2 == wi && wi == conv2 && (conv2 == ct.end()) == (wm == m.end()), "converted iterator, after stepping");
                        roam(conv2, wm, m, t.end(), 6, "from an iterator converted after stepping");
                        conv = t.end();
                        VCHECK(conv == ct.end() && conv == t.end(), "converted end position");
                        roam(conv, m.end(), m, ct.end(), 4, "from a converted end position");
                    }
                }
            }
            for (int i = 0; i < 5; ++i)
                lookups(t, m, 1, kind == 1);
            if (r.chance(50))
            {
                // erase everything in random order
                std::vector<KeyT> ks;
                for (auto& e : m)
                    ks.push_back(e.first);
                for (std::size_t i = ks.size(); i > 1; --i)
                    std::swap(ks[i - 1], ks[r.below(i)]);
                for (auto& k : ks)
                {
                    op("drain ", show(k));
                    VCHECK(t.erase(view(k)), "erase of a present key");
                    m.erase(k);
                    check(t, m, "while draining");
                }
                VCHECK(t.begin() == t.end() && !t.root_node().has_child() && !t.root_node().has_value(), "drained map is empty");
            }
        }
        expect_no_live("trie_map destroyed");
    }

    // ---- packed_trie_map
    Model packable(int n)
    {
        Model m;
        for (int i = 0; i < n; ++i)
        {
            KeyT k = some_key();
            m[k] = next++;
            if (nodes(m) > MaxNodes)
            {
                m.erase(k);
                break;
            }
            pool.push_back(k);
        }
        return m;
    }

    packed build(const Model& m, int how)
    {
        if (how == 0)
        {
            // from entries, sorted the way a std::map<std::basic_string, ...> sorts them or by key unit
            op("build from ", m.size(), " sorted entries");
            std::vector<typename packed::entry> es;
            if (r.chance(50))
            {
                for (auto& e : m)
                    es.emplace_back(e.first.data(), e.first.size(), mkv<V>(e.second));
            }
            else
            {
                std::map<KeyT, int> s(m.begin(), m.end());
                for (auto& e : s)
                {
                    auto i = m.find(e.first);
                    es.emplace_back(i->first.data(), i->first.size(), mkv<V>(i->second));
                }
            }
            if (r.chance(80))
                return packed(std::span<const typename packed::entry>(es));
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
            return packed(es.data(), es.size());
#pragma GCC diagnostic pop
        }
        map t;
        std::vector<std::pair<KeyT, int>> v(m.begin(), m.end());
        for (std::size_t i = v.size(); i > 1; --i)
            std::swap(v[i - 1], v[r.below(i)]);
        for (auto& e : v)
            t.insert(view(e.first), mkv<V>(e.second));
        if (r.chance(30))
        {
            // leave traces of erased entries
            KeyT k = fresh_key();
            if (!m.count(k))
            {
                t.insert(view(k), mkv<V>(1));
                t.erase(view(k));
            }
        }
        if (how == 1)
        {
            op("build from a trie_map with ", m.size(), " entries");
            const map& ct = t;
            packed p(ct);
            check(t, m, "source of a packed map");
            return p;
        }
        op("pack() a trie_map with ", m.size(), " entries");
        return t.pack();
    }

    void check_packed(packed& p, const Model& m, const char* what)
    {
        check(p, m, what);
        const packed& cp = p;
        VCHECK((cp.cbegin() == cp.cend()) == m.empty(), what, ": cbegin/cend");
        walk(cp.begin(), cp.end(), m.begin(), m.end(), 10, what);
    }

    void run_packed()
    {
        {
            packed e;
            Model none;
            check_packed(e, none, "default constructed");
            lookups(e, none, 2, true);
            node_walk(e, none, 1);
            for (int round = 0; round < 3; ++round)
            {
                Model m = packable(int(r.pick({0, 1, 3, 12, 40, 120})));
                packed p = build(m, int(r.below(3)));
                check_packed(p, m, "packed");
                walk(p.begin(), p.end(), m.begin(), m.end(), 40, "packed walk");
                lookups(p, m, 12, true);
                node_walk(p, m, 6);
                for (auto& x : m)
                {
                    auto it = p.find(view(x.first));
                    VCHECK(it != p.end(), "stored key ", show(x.first), " not found");
                    entry(it, x.first, x.second, "find");
                }
                packed q = build(m, int(r.below(3)));
                VCHECK(p == q && q == p && !(p != q), "packed maps with the same entries are equal");
                if (!m.empty())
                {
                    Model dm = m;
                    auto i = dm.begin();
                    std::advance(i, r.below(dm.size()));
                    bool changed = true;
                    switch (r.below(3))
                    {
                        case 0:
                            i->second = next++;
                            changed = !(mkv<V>(i->second) == mkv<V>(m[i->first]));
                            break;
                        case 1:
                            dm.erase(i);
                            break;
                        default:
                        {
                            // same number of entries, one key different
                            KeyT k = some_key();
                            if (!dm.count(k))
                            {
                                int v = i->second;
                                dm.erase(i);
                                dm[k] = v;
                                if (nodes(dm) > MaxNodes)
                                    dm = m, changed = false;
                            }
                            else
                                changed = false;
                        }
                    }
                    packed d = build(dm, int(r.below(3)));
                    VCHECK((d == p) == !changed && (p == d) == !changed, "equality with a map that differs in one entry, changed=", changed);
                    count("equality-probes");
                }
                op("copy");
                packed c(p);
                check_packed(c, m, "copy");
                check_packed(p, m, "copied from");
                VCHECK(c == p, "a copy is equal");
                lookups(c, m, 4, true);
                node_walk(c, m, 2);
                op("move");
                packed mv(std::move(c));
                check_packed(mv, m, "move-constructed");
                lookups(mv, m, 2, true);
                // the source of a move is an empty map again
                check_packed(c, none, "moved-from");
                lookups(c, none, 1, true);
                packed cc(c);
                check_packed(cc, none, "copy of moved-from");
                c = p;
                check_packed(c, m, "copy-assigned");
                Model m2 = packable(int(r.below(12)));
                packed o = build(m2, int(r.below(3)));
                op("swap");
                o.swap(c);
                check_packed(o, m, "swapped");
                check_packed(c, m2, "swapped");
                lookups(o, m, 2, true);
                c = std::move(o);
                check_packed(c, m, "move-assigned");
                packed& self = c;
                c = self;
                check_packed(c, m, "self-assigned");
                // search results are values: copies and assigned ones list the same entries
                KeyT pre = some_key();
                auto res = p.prefix_search(view(pre));
                auto res2 = res;
                auto res3 = p.prefix_search(view(KeyT()));
                res3 = res;
                auto res4(std::move(res2));
                typename packed::search_results res5;
                VCHECK(res5.begin() == res5.end(), "default constructed search results are empty");
                auto a = m.lower_bound(pre);
                auto b = a;
                while (b != m.end() && is_prefix(pre, b->first))
                    ++b;
                walk(res3.begin(), res3.end(), a, b, 10, "assigned search results");
                walk(res4.begin(), res4.end(), a, b, 10, "moved search results");
                if constexpr (std::is_same_v<unit, char> && (std::is_same_v<V, int> || std::is_same_v<V, std::string>))
                {
                    std::string d = p.dump_structure(mdds::trie::dump_structure_type::trie_traversal);
                    std::size_t vals = 0;
                    for (std::size_t i = d.find("(value="); i != std::string::npos; i = d.find("(value=", i + 1))
                        ++vals;
                    VCHECK(vals >= m.size(), "the dumped traversal lists every value");
                    p.dump_structure(mdds::trie::dump_structure_type::packed_buffer);
                    count("dumps");
                }
            }
        }
        expect_no_live("packed_trie_map destroyed");
    }

    // ---- saved states
    bool try_load(packed& p, const std::string& bytes, std::size_t* used = nullptr)
    {
        std::istringstream is(bytes);
        try
        {
            p.template load_state<ser>(is);
            if (used)
                *used = std::size_t(is.tellg());
            return true;
        }
        catch (const std::exception& e)
        {
            return false;
        }
    }

    // A state written by a map with another kind of value or another width of the packed units is refused.
    template<typename V2, typename Traits2>
    void refuse_foreign(packed& keep)
    {
        using map2 = mdds::trie_map<KeyT, V2, Traits2>;
        using ser2 = typename serializer<V2>::type;
        bool differs = sizeof(typename Traits2::pack_value_type) != sizeof(typename Traits::pack_value_type) ||
                       ser2::variable_size != ser::variable_size;
        if constexpr (!ser2::variable_size && !ser::variable_size)
            differs = differs || ser2::value_size != ser::value_size;
        else if constexpr (ser2::variable_size && ser::variable_size && !std::is_same_v<V, V2>)
            return; // the values cannot be told apart
        if (!differs)
            return;
        map2 t;
        int n = int(r.below(4));
        for (int i = 0; i < n; ++i)
        {
            KeyT k = some_key();
            k.resize(std::min<std::size_t>(k.size(), 3));
            t.insert(view(k), mkv<V2>(next++));
        }
        auto p = r.chance(50) ? t.pack() : typename map2::packed_type(t);
        std::ostringstream os;
        p.template save_state<ser2>(os);
        op("load a state of another kind, ", os.str().size(), " bytes, unit size ", sizeof(typename Traits2::pack_value_type));
        VCHECK(!try_load(keep, os.str()), "a state of another kind of value or packing must be refused");
        count("foreign-refused");
    }

    void run_state()
    {
        {
            for (int round = 0; round < 3; ++round)
            {
                Model m = packable(int(r.pick({0, 1, 3, 12, 40})));
                packed p = build(m, int(r.below(3)));
                if (r.chance(30))
                {
                    packed c(p);
                    p = c;
                }
                std::ostringstream os;
                p.template save_state<ser>(os);
                std::string bytes = os.str();
                op("save ", m.size(), " entries: ", bytes.size(), " bytes");
                std::ostringstream os2;
                p.template save_state<ser>(os2);
                VCHECK(os2.str() == bytes, "saving twice gives the same bytes");
                check_packed(p, m, "after saving");

                Model om = packable(int(r.below(8)));
                packed q = r.chance(50) ? packed() : build(om, int(r.below(3)));
                std::size_t used = 0;
                VCHECK(try_load(q, bytes, &used), "a saved state can be loaded");
                VCHECK(used == bytes.size(), "loading consumes exactly the saved bytes: ", used, " of ", bytes.size());
                check_packed(q, m, "loaded");
                lookups(q, m, 6, true);
                node_walk(q, m, 3);
                VCHECK(q == p && p == q, "the loaded map equals the saved one");
                std::ostringstream os3;
                q.template save_state<ser>(os3);
                VCHECK(os3.str() == bytes, "saving a loaded map gives the same bytes");
                packed qc(q);
                check_packed(qc, m, "copy of a loaded map");

                // several states in one stream
                Model m2 = packable(int(r.below(8)));
                packed p2 = build(m2, int(r.below(3)));
                std::stringstream both;
                both << "HEAD";
                p2.template save_state<ser>(both);
                p.template save_state<ser>(both);
                both << "TAIL";
                both.seekg(4);
                packed l1, l2;
                l1.template load_state<ser>(both);
                l2.template load_state<ser>(both);
                std::string tail;
                both >> tail;
                VCHECK(tail == "TAIL", "two states in one stream are delimited");
                check_packed(l1, m2, "first of two states");
                check_packed(l2, m, "second of two states");
                count("states-loaded", 3);

                // values of another size than announced are refused when saving
                if (!m.empty())
                {
                    using lying = lying_serializer<V>;
                    lying::odd = int(r.below(m.size()));
                    lying::delta = r.pick<int>({-4, -1, 1, 4});
                    op("save with a serializer that is off by ", lying::delta, " for value ", lying::odd);
                    bool thrown = false;
                    std::ostringstream sink;
                    try
                    {
                        p.template save_state<lying>(sink);
                    }
                    catch (const mdds::size_error&)
                    {
                        thrown = true;
                    }
                    VCHECK(thrown, "a value of another size than announced must be refused");
                    check_packed(p, m, "after a refused save");
                    count("wrong-size-saves-refused");
                }

                // every truncation must be refused and leave the container as it was
                packed keep = build(om, int(r.below(3)));
                int tries = int(std::min<std::size_t>(bytes.size(), 40));
                for (int i = 0; i < tries; ++i)
                {
                    std::size_t n = bytes.size() <= 40 ? std::size_t(i) : r.chance(50) ? r.below(std::min<std::size_t>(bytes.size(), 40)) : r.below(bytes.size());
                    op("load the first ", n, " of ", bytes.size(), " bytes");
                    VCHECK(!try_load(keep, bytes.substr(0, n)), "a truncated state must be refused");
                    count("truncated-refused");
                    if (r.chance(25))
                        check_packed(keep, om, "after a refused load");
                }
                check_packed(keep, om, "after refused loads");
                lookups(keep, om, 2, true);
                // headers of another kind of value or buffer must be refused
                std::string bad = bytes;
                bad[0] ^= 1;
                VCHECK(!try_load(keep, bad), "a state of the other value kind must be refused");
                if constexpr (!ser::variable_size)
                {
                    bad = bytes;
                    bad[6] = char(bad[6] + 1);
                    VCHECK(!try_load(keep, bad), "a state with another value size must be refused");
                    std::size_t at = 10 + m.size() * ser::value_size;
                    bad = bytes;
                    bad[at] = 0x7f;
                    VCHECK(!try_load(keep, bad), "a state without the check byte must be refused");
                    bad = bytes;
                    bad[at + 1] = char(bad[at + 1] * 2);
                    VCHECK(!try_load(keep, bad), "a state with another packing must be refused");
                }
                refuse_foreign<int, traits8>(keep);
                refuse_foreign<int, traits16>(keep);
                refuse_foreign<int, traits32>(keep);
                refuse_foreign<int, mdds::trie::default_traits>(keep);
                refuse_foreign<double, Traits>(keep);
                refuse_foreign<std::uint8_t, Traits>(keep);
                refuse_foreign<std::string, traits16>(keep);
                refuse_foreign<std::string, Traits>(keep);
                bad = bytes;
                bad.back() = 0;
                VCHECK(!try_load(keep, bad), "a state without the final check byte must be refused");
                check_packed(keep, om, "after refused loads");
                count("damaged-refused", 3);
            }
        }
        expect_no_live("packed_trie_map destroyed");
    }
};

void dispatch(Rng& r, int kind)
{
    constexpr std::size_t big = 100000;
    dispatch_types<
        Fixture<std::string, int, mdds::trie::default_traits, big>, Fixture<std::string, std::string, traits32, big>,
        Fixture<std::u16string, int, traits32, big>, Fixture<std::string, Tracked, mdds::trie::default_traits, big>,
        Fixture<std::string, int, traits16, 16000>, Fixture<std::string, std::uint8_t, traits8, 60>,
        Fixture<std::u32string, std::vector<double>, mdds::trie::default_traits, big>,
        Fixture<std::basic_string<char16_t>, Tracked, traits16, 16000>>(r, [&]<typename F>() {
        F f(r);
        if (kind < 2)
            f.run_map(kind);
        else if (kind == 2)
            f.run_packed();
        else
            f.run_state();
    });
}

// One recorded finding: offsets larger than the pack_value_type are stored truncated. The packed buffer is
// inspected through its saved state, without following any offset.
void overflow_probe(Rng& r)
{
    using map = mdds::trie_map<std::string, int, traits8>;
    map t;
    int n = 254;
    r.next();
    for (int i = 1; i <= n; ++i)
        t.insert(std::to_string(i), i);
    op("pack ", n, " decimal keys with an 8-bit pack_value_type");
    std::string bytes;
    try
    {
        auto p = t.pack();
        std::ostringstream os;
        p.save_state(os);
        bytes = os.str();
    }
    catch (const mdds::size_error&)
    {
        count("overflow-refused");
        return;
    }
    std::size_t at = 10 + std::size_t(n) * 4 + 2 + 8;
    std::size_t len = bytes.size() - at - 1;
    std::size_t root = std::uint8_t(bytes[at]);
    // the root node is stored last: value, index size, and ten (key, offset) pairs at most
    bool good = root + 2 + std::uint8_t(bytes[at + root + 1]) == len;
    seen(hcomb(77, u64(n)));
    VCHECK(len > 256, "probe is meant to overflow");
    if (!good)
    {
        count("overflow-truncated");
        known("pack-offset-overflow:uint8:keys-1..254", cat("packing ", n, " entries stores a root offset that was truncated to 8 bits"));
    }
}

// More entries than the packing can number must be refused, however the packed map is made.
template<typename Traits>
void limit_probe(Rng& r, int limit)
{
    using map = mdds::trie_map<std::string, Tracked, Traits>;
    using packed = mdds::packed_trie_map<std::string, Tracked, Traits>;
    {
        int n = limit + 1 + int(r.below(r.chance(50) ? 3 : 60));
        map t;
        std::vector<std::string> keys;
        for (int i = 0; i < n; ++i)
        {
            std::string k;
            for (int x = i; x; x /= 5)
                k += char('a' + x % 5);
            keys.push_back(k);
            t.insert(k, Tracked(i));
        }
        std::sort(keys.begin(), keys.end());
        VCHECK(t.size() == std::size_t(n), "the map has ", t.size(), " entries of ", n);
        std::deque<typename packed::entry> entries;
        for (auto& k : keys)
            entries.emplace_back(k.data(), k.size(), Tracked(1));
        std::vector<typename packed::entry> flat(entries.begin(), entries.end());
        for (int how : {0, 1, 2})
        {
            op("pack ", n, " entries where ", limit, " is the most, way ", how);
            bool thrown = false;
            try
            {
                if (how == 0)
                    packed p(std::span<const typename packed::entry>(flat.data(), flat.size()));
                else if (how == 1)
                    packed p(t);
                else
                    t.pack();
            }
            catch (const mdds::size_error&)
            {
                thrown = true;
            }
            VCHECK(thrown, n, " entries must be refused, the most is ", limit);
            count("oversized-refused");
            if (how < 2)
            {
                VCHECK(t.size() == std::size_t(n), "a refused copy leaves the map as it was");
                for (int j = 0; j < 20; ++j)
                {
                    int i = int(r.below(n));
                    std::string k;
                    for (int x = i; x; x /= 5)
                        k += char('a' + x % 5);
                    auto it = t.find(k);
                    VCHECK(it != t.end() && it->second.v == i && !it->second.moved, "a refused copy leaves the values as they were");
                }
            }
        }
        seen(hcomb(78, u64(n)));
    }
    expect_no_live("refused packing");
}

} // namespace

int main(int argc, char** argv)
{
    return drive(
        argc, argv,
        {
            {"trie_map", 3, [](Rng& r) { dispatch(r, 0); }},
            {"trie_iter", 3, [](Rng& r) { dispatch(r, 1); }},
            {"trie_packed", 3, [](Rng& r) { dispatch(r, 2); }},
            {"trie_state", 3, [](Rng& r) { dispatch(r, 3); }},
            {"trie_limit", 2,
             [](Rng& r) {
                 if (r.chance(2))
                     limit_probe<traits16>(r, 65534);
                 else
                     limit_probe<traits8>(r, 254);
             }},
            {"trie_overflow", 1, [](Rng& r) { overflow_probe(r); }},
        });
}
