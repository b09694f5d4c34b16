// A few containers and the reference model of each one, with every mutating operation.
#pragma once
#include "mtv_types.hpp"

namespace vh {

enum Mon : unsigned
{
    CONTENT = 1, // elements by logical position
    CANON = 2, // structure of the blocks
    EVENTS = 4, // block events
    LIFE = 8, // life cycle of managed elements
    ITERS = 16, // returned iterators
    SHARE = 32 // borrower state under copy-on-write
};

struct Cell
{
    int k = -1; // kind, -1 when empty
    i64 v = 0;
    const void* p = nullptr; // identity of a managed object (when known)
    bool same(const Cell& o) const
    {
        return k == o.k && v == o.v;
    }
};

struct Run
{
    int k;
    std::size_t pos, size;
};

inline std::vector<Run> runs(const std::vector<Cell>& m)
{
    std::vector<Run> r;
    for (std::size_t i = 0; i < m.size(); ++i)
        if (r.empty() || r.back().k != m[i].k)
            r.push_back({m[i].k, i, 1});
        else
            ++r.back().size;
    return r;
}

inline std::string show(const std::vector<Cell>& m)
{
    std::string s;
    for (auto& c : m)
    {
        if (c.k < 0)
            s += "- ";
        else
            s += std::string(1, char('a' + c.k)) + std::to_string(c.v) + " ";
    }
    return s;
}

template<typename C>
struct World
{
    using V = typename C::V;
    using Ks = typename C::Ks;
    using iterator = typename V::iterator;
    using const_iterator = typename V::const_iterator;
    static constexpr bool cow = C::cow;
    static constexpr bool soa = C::soa;
    static constexpr std::size_t npos = static_cast<std::size_t>(-1);

    enum Borrow
    {
        OWNS,
        BORROWS,
        UNKNOWN
    };

    struct Slot
    {
        std::unique_ptr<V> v;
        std::vector<Cell> m;
        Borrow borrow = OWNS;
        std::unique_ptr<iterator> hint; // the iterator returned by the last operation while it is valid
    };

    Rng& r;
    unsigned mon;
    std::size_t maxsize;
    std::vector<Slot> s;
    int next_id = 1;
    i64 payload = 0;

    World(Rng& _r, unsigned _mon, std::size_t _max, int nslots) : r(_r), mon(_mon), maxsize(_max), s(nslots)
    {
        ObjBase::live().clear();
        ObjBase::throw_after() = -1;
        CloneLog::throw_after() = -1;
        CloneLog::log().clear();
        EvReg::reg().clear();
        EvReg::strict() = mon & EVENTS;
        for (auto& x : s)
            init(x);
    }

    ~World()
    {
        EvReg::strict() = false;
    }

    void init(Slot& x)
    {
        int id = next_id++;
        if (r.chance(50))
        {
            Ev e(id);
            x.v = std::make_unique<V>(e);
        }
        else
            x.v = std::make_unique<V>(Ev(id));
        x.m.clear();
        x.borrow = OWNS;
        x.hint.reset();
    }

    i64 pay()
    {
        // A small domain lets equal neighbours appear, a counter makes every element unique.
        return r.chance(50) ? static_cast<i64>(r.below(5)) : (++payload % 120);
    }

    int kind()
    {
        return static_cast<int>(r.below(Ks::n));
    }

    // ---- monitors

    void touch(Slot& x)
    {
        x.hint.reset();
        if (cow)
            x.borrow = OWNS;
    }

    void check_slot(std::size_t i)
    {
        Slot& x = s[i];
        const V& v = *x.v;
        if (mon & (CONTENT | CANON))
        {
            VCHECK(v.size() == x.m.size(), "size() is ", v.size(), " expected ", x.m.size(), " in container ", i);
            VCHECK(v.empty() == x.m.empty(), "empty()");
        }
        std::vector<Run> rs = runs(x.m);
        if (mon & CANON)
        {
            VCHECK(v.block_size() == rs.size(), "block_size() is ", v.block_size(), " expected ", rs.size(), " in container ", i, ": ", show(x.m));
            std::size_t n = 0;
            for (auto it = v.cbegin(); it != v.cend(); ++it, ++n)
            {
                VCHECK(n < rs.size(), "more blocks than expected in container ", i);
                VCHECK(it->position == rs[n].pos, "block ", n, " of container ", i, " has position ", it->position, " expected ", rs[n].pos, ": ", show(x.m));
                VCHECK(it->size == rs[n].size, "block ", n, " of container ", i, " has size ", it->size, " expected ", rs[n].size, ": ", show(x.m));
                mtv::element_t t = rs[n].k < 0 ? mtv::element_type_empty : Ks::type(rs[n].k);
                VCHECK(it->type == t, "block ", n, " of container ", i, " has type ", it->type, " expected ", t);
                VCHECK((it->data != nullptr) == (rs[n].k >= 0), "block ", n, " data");
                if (it->data)
                {
                    VCHECK(mtv::get_block_type(*it->data) == t, "type of the element block ", n);
                    VCHECK(Ks::Funcs::size(*it->data) == it->size, "element block ", n, " of container ", i, " holds ", Ks::Funcs::size(*it->data), " elements, its size is ", it->size);
                }
            }
            VCHECK(n == rs.size(), "fewer blocks than expected in container ", i, ": ", n, " of ", rs.size());
        }
        if (mon & CONTENT)
        {
            // elements through the blocks
            std::size_t pos = 0;
            for (auto it = v.cbegin(); it != v.cend(); ++it)
            {
                VCHECK(pos + it->size <= x.m.size(), "blocks cover more than size() elements in container ", i);
                if (!it->data)
                {
                    for (std::size_t k = 0; k < it->size; ++k)
                        VCHECK(x.m[pos + k].k < 0, "element ", pos + k, " of container ", i, " is in an empty block, expected ", show(x.m));
                }
                else
                {
                    int kd = Ks::of_type(it->type);
                    VCHECK(kd >= 0, "unknown block type ", it->type);
                    Ks::with(kd, [&]<typename K>() {
                        VCHECK(K::Blk::size(*it->data) == it->size, "element block size");
                        for (std::size_t k = 0; k < it->size; ++k)
                        {
                            const Cell& c = x.m[pos + k];
                            VCHECK(c.k == kd, "element ", pos + k, " of container ", i, " has kind ", kd, " expected ", c.k, ": ", show(x.m));
                            typename K::T t = K::Blk::get_value(*it->data, k);
                            VCHECK(K::val(t) == c.v, "element ", pos + k, " of container ", i, " is ", K::val(t), " expected ", c.v, ": ", show(x.m));
                            if (c.p)
                                VCHECK(K::ptr(t) == c.p, "element ", pos + k, " of container ", i, " is a different object");
                        }
                    });
                }
                pos += it->size;
            }
            VCHECK(pos == x.m.size(), "blocks cover ", pos, " elements of ", x.m.size(), " in container ", i);
            // elements through the accessors, at a few positions
            for (int q = 0; q < 4 && !x.m.empty(); ++q)
            {
                std::size_t p = r.below(x.m.size());
                const Cell& c = x.m[p];
                VCHECK(v.is_empty(p) == (c.k < 0), "is_empty(", p, ") of container ", i);
                VCHECK(v.get_type(p) == (c.k < 0 ? mtv::element_type_empty : Ks::type(c.k)), "get_type(", p, ") of container ", i);
                int kd = c.k < 0 ? kind() : c.k;
                Ks::with(kd, [&]<typename K>() {
                    auto want = [&](const typename K::T& t) { return c.k < 0 ? t == K::empty() : K::val(t) == c.v; };
                    if (q & 1)
                        VCHECK(want(v.template get<typename K::T>(p)), "get<T>(", p, ") of container ", i, ": ", show(x.m));
                    else
                    {
                        typename K::T t = K::empty();
                        v.get(p, t);
                        VCHECK(want(t), "get(", p, ", value) of container ", i, ": ", show(x.m));
                    }
                });
            }
        }
    }

    void check_events()
    {
        std::map<int, std::map<mtv::element_t, int>> want;
        for (auto& x : s)
        {
            int id = std::as_const(*x.v).event_handler().id;
            const V& v = *x.v;
            for (auto it = v.cbegin(); it != v.cend(); ++it)
                if (it->data)
                    ++want[id][it->type];
        }
        ++st().evals;
        for (auto& [id, blocks] : EvReg::reg())
            for (auto it = blocks.begin(); it != blocks.end();)
                it = it->second == 0 ? blocks.erase(it) : std::next(it);
        for (auto& [id, blocks] : EvReg::reg())
            for (auto& [b, n] : blocks)
            {
                int w = want.count(id) && want[id].count(b) ? want[id][b] : 0;
                if (n != w)
                    violation(cat("event handler ", id, ": blocks of type ", b, " were acquired ", n, " more times than released, but ", w, " are held"));
            }
        for (auto& [id, blocks] : want)
            for (auto& [b, w] : blocks)
            {
                int n = EvReg::reg().count(id) && EvReg::reg()[id].count(b) ? EvReg::reg()[id][b] : 0;
                if (n != w)
                    violation(cat("event handler ", id, ": ", w, " blocks of type ", b, " are held, but they were acquired ", n, " more times than released"));
            }
    }

    void check_life()
    {
        std::unordered_set<const void*> reach;
        for (auto& x : s)
        {
            const V& v = *x.v;
            for (auto it = v.cbegin(); it != v.cend(); ++it)
            {
                int kd = it->data ? Ks::of_type(it->type) : -1;
                if (kd < 0)
                    continue;
                Ks::with(kd, [&]<typename K>() {
                    if constexpr (K::managed)
                        for (std::size_t k = 0; k < it->size; ++k)
                        {
                            typename K::T t = K::Blk::get_value(*it->data, k);
                            const void* p = K::ptr(t);
                            VCHECK(ObjBase::live().count(p), "a container refers to a managed object that is not alive");
                            bool fresh = reach.insert(p).second;
                            if (!cow)
                                VCHECK(fresh, "a managed object is owned twice");
                        }
                });
            }
        }
        VCHECK(reach.size() == ObjBase::live().size(), ObjBase::live().size(), " managed objects are alive, ", reach.size(), " are owned by a container");
    }

    // Equality: sequences are equal when every position has the same type and value. (Blocks of copyable
    // managed objects compare the addresses of their objects, which differ between owners; blocks of noncopyable ones
    // compare the objects.)
    void check_equal(const V& a, const std::vector<Cell>& ma, const V& b, const std::vector<Cell>& mb, const char* what)
    {
        bool same = ma.size() == mb.size(), managed = false;
        for (std::size_t i = 0; same && i < ma.size(); ++i)
        {
            same = ma[i].same(mb[i]);
            managed = managed || (ma[i].k >= 0 && Ks::managed(ma[i].k) && Ks::copyable(ma[i].k));
        }
        if (managed && same && &a != &b)
        {
            if (cow)
                return;
            same = false;
        }
        VCHECK((a == b) == same && (b == a) == same, what, ": operator== is ", a == b, " and ", b == a, ", expected ", same, ": ", show(ma), "| ", show(mb));
        VCHECK((a != b) != same && (b != a) != same, what, ": operator!= is ", a != b, " and ", b != a, ", expected ", !same, ": ", show(ma), "| ", show(mb));
        count(same ? "equality-holds" : "equality-does-not-hold");
    }

    void check_equality(std::size_t i)
    {
        Slot& x = s[i];
        check_equal(*x.v, x.m, *x.v, x.m, "a container and itself");
        Slot& y = s[r.below(s.size())];
        check_equal(*x.v, x.m, *y.v, y.m, "two containers");
        for (auto& c : x.m)
            if (c.k >= 0 && Ks::managed(c.k))
                return;
        // the same content with another history, then with one difference
        std::vector<Cell> m = x.m;
        if (!m.empty() && r.chance(60))
        {
            Cell& c = m[r.below(m.size())];
            int k = r.chance(30) ? -1 : kind();
            if (k < 0)
                c = Cell{};
            else if (!Ks::managed(k))
                Ks::with(k, [&]<typename K>() { c = Cell{k, K::norm(c.v + i64(r.below(2))), nullptr}; });
        }
        else if (!m.empty() && r.chance(20))
            m.pop_back();
        else if (r.chance(20))
            m.push_back(Cell{});
        V t;
        for (auto& c : m)
        {
            if (c.k < 0)
                t.push_back_empty();
            else
                Ks::with(c.k, [&]<typename K>() {
                    typename K::T e = K::make(c.v);
                    if constexpr (!K::managed)
                        t.push_back(e);
                });
        }
        check_equal(*x.v, x.m, t, m, "a rebuilt container");
    }

    void check_all()
    {
        if (mon == CONTENT && r.chance(40))
            check_equality(r.below(s.size()));
        for (std::size_t i = 0; i < s.size(); ++i)
            check_slot(i);
        if (mon & EVENTS)
            check_events();
        if (mon & LIFE)
            check_life();
        u64 h = 7;
        for (auto& c : s[0].m)
            h = hcomb(h, c.k * 1000 + c.v);
        if (s[0].m.size() > 1)
            seen(hcomb(h, C::id));
    }

    // An iterator returned by an operation refers to the block with the element at pos.
    void check_it(std::size_t i, const iterator& it, std::size_t pos, const char* what)
    {
        Slot& x = s[i];
        if (mon & ITERS)
        {
            const V& v = *x.v;
            VCHECK(!(const_iterator(it) == v.cend()), what, " returned the end iterator");
            std::vector<Run> rs = runs(x.m);
            std::size_t n = 0;
            while (n < rs.size() && !(rs[n].pos <= pos && pos < rs[n].pos + rs[n].size))
                ++n;
            VCHECK(n < rs.size(), what, ": no such block in the model (harness)");
            VCHECK(it->position == rs[n].pos && it->size == rs[n].size, what, " returned an iterator to the block at ", it->position, " size ", it->size, " expected the block at ", rs[n].pos, " size ", rs[n].size, ": ", show(x.m));
            VCHECK(it->type == (rs[n].k < 0 ? mtv::element_type_empty : Ks::type(rs[n].k)), what, " iterator type");
            VCHECK((it->data == nullptr) == (rs[n].k < 0), what, " iterator data");
            auto ref = v.cbegin();
            for (std::size_t k = 0; k < n; ++k)
                ++ref;
            VCHECK(const_iterator(it) == ref, what, " returned an iterator which is not equal to the one of the same block");
            VCHECK(it->data == ref->data, what, " iterator data pointer");
            // it can be moved to the neighbours
            if (n + 1 < rs.size())
            {
                iterator nx = it;
                ++nx;
                VCHECK(nx->position == rs[n + 1].pos && nx->size == rs[n + 1].size, what, ": ++ on the returned iterator");
            }
            else
            {
                iterator nx = it;
                ++nx;
                VCHECK(const_iterator(nx) == v.cend(), what, ": ++ on the returned iterator does not reach the end");
            }
            if (n > 0)
            {
                iterator pv = it;
                --pv;
                VCHECK(pv->position == rs[n - 1].pos && pv->size == rs[n - 1].size, what, ": -- on the returned iterator");
            }
        }
        x.hint = std::make_unique<iterator>(it);
    }

    void check_end(std::size_t i, const iterator& it, const char* what)
    {
        if (mon & ITERS)
            VCHECK(const_iterator(it) == std::as_const(*s[i].v).cend(), what, " of nothing has to return the end iterator");
        s[i].hint = std::make_unique<iterator>(it);
    }

    // A position hint: any valid iterator of the container, before, at or after pos.
    std::unique_ptr<iterator> pick_hint(std::size_t i)
    {
        Slot& x = s[i];
        if (x.hint && r.chance(50))
        {
            count("hint.returned-iterator");
            return std::make_unique<iterator>(*x.hint);
        }
        if constexpr (!cow)
        {
            if (r.chance(50))
            {
                std::size_t n = r.below(x.v->block_size() + 1);
                auto it = x.v->begin();
                for (std::size_t k = 0; k < n; ++k)
                    ++it;
                count(n == x.v->block_size() ? "hint.end" : "hint.block");
                return std::make_unique<iterator>(it);
            }
        }
        return nullptr;
    }

    static std::string hs(const std::unique_ptr<iterator>& h)
    {
        return h ? "hint@" + std::to_string((*h)->position) + " " : "";
    }

    std::size_t rpos(std::size_t i)
    {
        return r.below(s[i].m.size());
    }
    std::size_t bad_pos(std::size_t i)
    {
        std::size_t n = s[i].m.size();
        switch (r.below(4))
        {
            case 0:
                return n;
            case 1:
                return n + 1 + r.below(5);
            case 2:
                return npos - r.below(3);
            default:
                return n + (std::size_t(1) << 63);
        }
    }

    // [a, b] inclusive
    std::pair<std::size_t, std::size_t> rrange(std::size_t i)
    {
        std::size_t n = s[i].m.size();
        std::size_t a, b;
        // the edges of blocks are where the interesting cases are
        std::vector<Run> rs = runs(s[i].m);
        auto edge = [&]() -> std::size_t {
            const Run& q = rs[r.below(rs.size())];
            switch (r.below(4))
            {
                case 0:
                    return q.pos;
                case 1:
                    return q.pos + q.size - 1;
                default:
                    return q.pos + r.below(q.size);
            }
        };
        switch (r.below(4))
        {
            case 0:
                a = r.below(n);
                b = std::min(n - 1, a + r.below(4));
                break;
            case 1:
                a = edge();
                b = edge();
                break;
            case 2:
                a = edge();
                b = std::min(n - 1, a + r.skewed(n));
                break;
            default:
                a = b = edge();
        }
        if (a > b)
            std::swap(a, b);
        return {a, b};
    }

    // Now and then a range within the container that ends before it starts.
    bool reversed(std::size_t i, std::size_t& a, std::size_t& b)
    {
        std::size_t n = s[i].m.size();
        if (n < 2 || !r.chance(30))
            return false;
        a = 1 + r.below(n - 1);
        b = r.chance(40) ? a - 1 : r.below(a);
        count("reversed-range");
        return true;
    }

    template<typename F>
    void must_throw(const char* what, F f)
    {
        bool ok = false;
        try
        {
            f();
        }
        catch (const std::out_of_range&)
        {
            ok = true;
        }
        VCHECK(ok, what, " outside of the range has to throw std::out_of_range");
        count("out-of-range");
    }

    // ---- operations on container i

    void op_set(std::size_t i)
    {
        Slot& x = s[i];
        auto h = pick_hint(i);
        Ks::with(kind(), [&]<typename K>() {
            int kd = Ks::of_type(K::Blk::block_type);
            i64 v = K::norm(pay());
            typename K::T t = K::make(v);
            if (x.m.empty() || r.chance(3))
            {
                std::size_t p = bad_pos(i);
                op(i, ": ", hs(h), "set(", p, ", kind ", kd, ") out of range");
                must_throw("set()", [&] { h ? x.v->set(*h, p, t) : x.v->set(p, t); });
                K::drop(t);
                unknown(x);
                return;
            }
            std::size_t p = rrange(i).first;
            op(i, ": ", hs(h), "set(", p, ", ", char('a' + kd), v, ")");
            count("op.set");
            iterator it = h ? x.v->set(*h, p, t) : x.v->set(p, t);
            touch(x);
            x.m[p] = {kd, v, K::ptr(t)};
            check_it(i, it, p, "set()");
        });
    }

    // the values of a range, in different kinds of source sequences
    template<typename K>
    struct Seq
    {
        std::unique_ptr<typename K::T[]> a;
        std::list<typename K::T> l;
        std::size_t n = 0;
    };

    template<typename K>
    Seq<K> make_seq(std::size_t n, std::vector<Cell>& cells)
    {
        Seq<K> q;
        q.n = n;
        q.a.reset(new typename K::T[n]);
        int kd = Ks::of_type(K::Blk::block_type);
        for (std::size_t k = 0; k < n; ++k)
        {
            i64 v = K::norm(pay());
            q.a[k] = K::make(v);
            cells.push_back({kd, v, K::ptr(q.a[k])});
        }
        return q;
    }

    void unknown(Slot& x)
    {
        if (cow && x.borrow == BORROWS)
            x.borrow = UNKNOWN;
    }

    void op_set_range(std::size_t i)
    {
        Slot& x = s[i];
        auto h = pick_hint(i);
        Ks::with(kind(), [&]<typename K>() {
            std::vector<Cell> cells;
            if (x.m.empty() || r.chance(4))
            {
                // too long, or starts outside
                std::size_t p = x.m.empty() || r.chance(50) ? bad_pos(i) : rpos(i);
                std::size_t n = p < x.m.size() ? x.m.size() - p + 1 + r.below(3) : 1 + r.below(4);
                auto q = make_seq<K>(n, cells);
                const typename K::T* b = q.a.get();
                op(i, ": ", hs(h), "set(", p, ", ", n, " values) out of range");
                must_throw("set() of a range", [&] { h ? x.v->set(*h, p, b, b + n) : x.v->set(p, b, b + n); });
                for (std::size_t k = 0; k < n; ++k)
                    K::drop(q.a[k]);
                unknown(x);
                return;
            }
            auto [a, z] = rrange(i);
            std::size_t n = z - a + 1;
            if (r.chance(3))
                n = 0;
            auto q = make_seq<K>(n, cells);
            op(i, ": ", hs(h), "set(", a, ", ", show(cells), ")");
            count("op.set-range");
            iterator it;
            const typename K::T* b = q.a.get();
            it = h ? x.v->set(*h, a, b, b + n) : x.v->set(a, b, b + n);
            if (!n)
            {
                unknown(x);
                check_end(i, it, "set()");
                return;
            }
            touch(x);
            for (std::size_t k = 0; k < n; ++k)
                x.m[a + k] = cells[k];
            check_it(i, it, a, "set() of a range");
        });
    }

    void op_insert(std::size_t i)
    {
        Slot& x = s[i];
        auto h = pick_hint(i);
        Ks::with(kind(), [&]<typename K>() {
            std::vector<Cell> cells;
            std::size_t n = r.chance(4) ? 0 : 1 + r.skewed(9);
            bool bad = x.m.empty() || r.chance(3);
            if (bad && !n)
                n = 1;
            if (!bad && x.m.size() + n > maxsize)
                n = r.below(2);
            auto q = make_seq<K>(n, cells);
            const typename K::T* b = q.a.get();
            if (bad)
            {
                std::size_t p = bad_pos(i);
                op(i, ": ", hs(h), "insert(", p, ", ", n, " values) out of range");
                must_throw("insert()", [&] { h ? x.v->insert(*h, p, b, b + n) : x.v->insert(p, b, b + n); });
                for (std::size_t k = 0; k < n; ++k)
                    K::drop(q.a[k]);
                unknown(x);
                return;
            }
            std::size_t p = rrange(i).first;
            op(i, ": ", hs(h), "insert(", p, ", ", show(cells), ")");
            count("op.insert");
            iterator it;
            it = h ? x.v->insert(*h, p, b, b + n) : x.v->insert(p, b, b + n);
            if (!n)
            {
                unknown(x);
                check_end(i, it, "insert()");
                return;
            }
            touch(x);
            x.m.insert(x.m.begin() + p, cells.begin(), cells.end());
            check_it(i, it, p, "insert()");
        });
    }

    void op_push(std::size_t i)
    {
        Slot& x = s[i];
        if (x.m.size() >= maxsize)
            return;
        if (r.chance(20))
        {
            op(i, ": push_back_empty()");
            count("op.push-empty");
            auto it = x.v->push_back_empty();
            touch(x);
            x.m.push_back({});
            check_it(i, it, x.m.size() - 1, "push_back_empty()");
            return;
        }
        Ks::with(kind(), [&]<typename K>() {
            int kd = Ks::of_type(K::Blk::block_type);
            i64 v = K::norm(pay());
            iterator it;
            const void* p = nullptr;
            switch (r.below(3))
            {
                case 0:
                {
                    op(i, ": push_back(", char('a' + kd), v, ")");
                    const typename K::T t = K::make(v);
                    p = K::ptr(t);
                    it = x.v->push_back(t);
                    break;
                }
                case 1:
                {
                    op(i, ": push_back(&&", char('a' + kd), v, ")");
                    typename K::T t = K::make(v);
                    p = K::ptr(t);
                    it = x.v->push_back(std::move(t));
                    break;
                }
                default:
                {
                    if constexpr (!K::managed)
                    {
                        op(i, ": emplace_back(", char('a' + kd), v, ")");
                        typename K::T t = K::make(v);
                        it = x.v->template emplace_back<typename K::T>(t);
                    }
                    else
                    {
                        op(i, ": push_back(", char('a' + kd), v, ")");
                        typename K::T t = K::make(v);
                        p = K::ptr(t);
                        it = x.v->push_back(t);
                    }
                }
            }
            count("op.push");
            touch(x);
            x.m.push_back({kd, v, p});
            check_it(i, it, x.m.size() - 1, "push_back()");
        });
    }

    void op_insert_empty(std::size_t i)
    {
        Slot& x = s[i];
        auto h = pick_hint(i);
        std::size_t n = r.chance(5) ? 0 : 1 + r.skewed(9);
        if (x.m.empty() || r.chance(3))
        {
            std::size_t p = bad_pos(i);
            n = std::max<std::size_t>(n, 1);
            op(i, ": ", hs(h), "insert_empty(", p, ", ", n, ") out of range");
            must_throw("insert_empty()", [&] { h ? x.v->insert_empty(*h, p, n) : x.v->insert_empty(p, n); });
            unknown(x);
            return;
        }
        if (x.m.size() + n > maxsize)
            n = r.below(2);
        std::size_t p = rrange(i).first;
        op(i, ": ", hs(h), "insert_empty(", p, ", ", n, ")");
        count("op.insert-empty");
        auto it = h ? x.v->insert_empty(*h, p, n) : x.v->insert_empty(p, n);
        if (!n)
        {
            unknown(x);
            check_end(i, it, "insert_empty()");
            return;
        }
        touch(x);
        x.m.insert(x.m.begin() + p, n, Cell{});
        check_it(i, it, p, "insert_empty()");
    }

    void op_set_empty(std::size_t i)
    {
        Slot& x = s[i];
        auto h = pick_hint(i);
        if (x.m.empty() || r.chance(4))
        {
            std::size_t a = x.m.empty() || r.chance(50) ? bad_pos(i) : rpos(i);
            std::size_t b = a < x.m.size() ? bad_pos(i) : a;
            reversed(i, a, b);
            op(i, ": ", hs(h), "set_empty(", a, ", ", b, ") out of range");
            must_throw("set_empty()", [&] { h ? x.v->set_empty(*h, a, b) : x.v->set_empty(a, b); });
            unknown(x);
            return;
        }
        auto [a, b] = rrange(i);
        op(i, ": ", hs(h), "set_empty(", a, ", ", b, ")");
        count("op.set-empty");
        auto it = h ? x.v->set_empty(*h, a, b) : x.v->set_empty(a, b);
        touch(x);
        std::fill(x.m.begin() + a, x.m.begin() + b + 1, Cell{});
        check_it(i, it, a, "set_empty()");
    }

    void op_erase(std::size_t i)
    {
        Slot& x = s[i];
        if (x.m.empty() || r.chance(4))
        {
            std::size_t a = x.m.empty() || r.chance(50) ? bad_pos(i) : rpos(i);
            std::size_t b = a < x.m.size() ? bad_pos(i) : a;
            reversed(i, a, b);
            op(i, ": erase(", a, ", ", b, ") out of range");
            must_throw("erase()", [&] { x.v->erase(a, b); });
            unknown(x);
            return;
        }
        auto [a, b] = rrange(i);
        op(i, ": erase(", a, ", ", b, ")");
        count("op.erase");
        x.v->erase(a, b);
        touch(x);
        x.m.erase(x.m.begin() + a, x.m.begin() + b + 1);
    }

    void op_resize(std::size_t i)
    {
        Slot& x = s[i];
        std::size_t n = r.chance(60) && !x.m.empty() ? rrange(i).first + r.below(2) : r.below(maxsize + 1);
        op(i, ": resize(", n, ")");
        count("op.resize");
        bool same = n == x.m.size();
        x.v->resize(n);
        if (same)
        {
            unknown(x);
            x.hint.reset();
        }
        else
            touch(x);
        x.m.resize(n);
    }

    void op_release(std::size_t i)
    {
        Slot& x = s[i];
        if (cow && x.borrow != OWNS)
        {
            bool thrown = false;
            if (x.borrow == BORROWS)
            {
                op(i, ": release while borrowing");
                int w = static_cast<int>(r.below(x.m.empty() ? 1 : 6));
                auto h = pick_hint(i);
                try
                {
                    if (w == 0)
                        x.v->release();
                    else if (w == 1)
                        x.v->release_range(rpos(i), x.m.size() - 1);
                    else if (w == 2 && h)
                        x.v->release_range(*h, rpos(i), x.m.size() - 1);
                    else if (w >= 4)
                        Ks::with(kind(), [&]<typename K>() {
                            typename K::T t = K::empty();
                            if (w == 4 && h)
                                x.v->release(*h, rpos(i), t);
                            else
                                x.v->release(rpos(i), t);
                        });
                    else
                        Ks::with(kind(), [&]<typename K>() { (void)x.v->template release<typename K::T>(rpos(i)); });
                }
                catch (const mtv::shared_block_error&)
                {
                    thrown = true;
                }
                if (mon & SHARE)
                    VCHECK(thrown, "release of an element of a borrowing container has to throw shared_block_error");
                else if (!thrown)
                    violation("release of an element of a borrowing container did not throw");
                count("release.while-borrowing");
                return;
            }
            op(i, ": detach()");
            if constexpr (C::soa)
                x.v->detach();
            touch(x);
        }
        switch (r.below(8))
        {
            case 0:
            {
                // everything
                op(i, ": release()");
                count("op.release-all");
                std::vector<std::pair<int, const void*>> own = owned(i, 0, x.m.size());
                x.v->release();
                touch(x);
                x.m.clear();
                take(own);
                return;
            }
            case 1:
            case 2:
            case 3:
            {
                auto h = pick_hint(i);
                if (x.m.empty() || r.chance(5))
                {
                    std::size_t a = x.m.empty() || r.chance(50) ? bad_pos(i) : rpos(i);
                    std::size_t b = a < x.m.size() ? bad_pos(i) : a;
                    reversed(i, a, b);
                    op(i, ": ", hs(h), "release_range(", a, ", ", b, ") out of range");
                    must_throw("release_range()", [&] { h ? x.v->release_range(*h, a, b) : x.v->release_range(a, b); });
                    return;
                }
                auto [a, b] = rrange(i);
                op(i, ": ", hs(h), "release_range(", a, ", ", b, ")");
                count("op.release-range");
                std::vector<std::pair<int, const void*>> own = owned(i, a, b + 1);
                auto it = h ? x.v->release_range(*h, a, b) : x.v->release_range(a, b);
                touch(x);
                std::fill(x.m.begin() + a, x.m.begin() + b + 1, Cell{});
                check_it(i, it, a, "release_range()");
                take(own);
                return;
            }
            default:
            {
                auto h = pick_hint(i);
                std::size_t p = x.m.empty() || r.chance(4) ? bad_pos(i) : rrange(i).first;
                int kd = p < x.m.size() && x.m[p].k >= 0 ? x.m[p].k : kind();
                int form = static_cast<int>(r.below(h ? 3 : 2));
                Ks::with(kd, [&]<typename K>() {
                    typename K::T t = K::empty();
                    iterator it;
                    auto call = [&] {
                        if (form == 0)
                            t = x.v->template release<typename K::T>(p);
                        else if (form == 1)
                            it = x.v->release(p, t);
                        else
                            it = x.v->release(*h, p, t);
                    };
                    if (p >= x.m.size())
                    {
                        op(i, ": ", hs(h), "release(", p, ") out of range");
                        must_throw("release()", call);
                        return;
                    }
                    op(i, ": ", hs(h), "release<", char('a' + kd), ">(", p, ") form ", form);
                    count("op.release");
                    Cell c = x.m[p];
                    call();
                    touch(x);
                    x.m[p] = {};
                    if (c.k < 0)
                    {
                        if (mon & CONTENT)
                            VCHECK(t == K::empty(), "release() of an empty element");
                    }
                    else
                    {
                        if (mon & CONTENT)
                        {
                            VCHECK(K::val(t) == c.v, "release() returned ", K::val(t), " expected ", c.v);
                            if (c.p)
                                VCHECK(K::ptr(t) == c.p, "release() returned a different object");
                        }
                        K::drop(t); // ours now
                    }
                    if (form)
                        check_it(i, it, p, "release()");
                });
            }
        }
    }

    // managed objects in [a, b)
    std::vector<std::pair<int, const void*>> owned(std::size_t i, std::size_t a, std::size_t b)
    {
        std::vector<std::pair<int, const void*>> o;
        const V& v = *s[i].v;
        std::size_t pos = 0;
        for (auto it = v.cbegin(); it != v.cend(); pos += it->size, ++it)
        {
            int kd = it->data ? Ks::of_type(it->type) : -1;
            if (kd < 0 || !Ks::managed(kd))
                continue;
            Ks::with(kd, [&]<typename K>() {
                if constexpr (K::managed)
                    for (std::size_t k = 0; k < it->size; ++k)
                        if (a <= pos + k && pos + k < b)
                            o.emplace_back(kd, K::Blk::get_value(*it->data, k));
            });
        }
        return o;
    }

    // Objects whose ownership the container has given up are alive, and nobody else deletes them.
    void take(const std::vector<std::pair<int, const void*>>& own)
    {
        for (auto& [kd, p] : own)
            Ks::with(kd, [&]<typename K>() {
                if constexpr (K::managed)
                {
                    VCHECK(ObjBase::live().count(p), "a released object is not alive");
                    delete static_cast<typename K::T>(const_cast<void*>(p));
                    count("released-objects");
                }
            });
    }

    void op_transfer(std::size_t i)
    {
        Slot& x = s[i];
        std::size_t j = r.below(s.size());
        Slot& y = s[j];
        if (i == j)
        {
            if (x.m.empty())
                return;
            op(i, ": transfer to itself");
            bool ok = false;
            try
            {
                if (auto h = pick_hint(i))
                    x.v->transfer(*h, 0, 0, *x.v, 0);
                else
                    x.v->transfer(0, 0, *x.v, 0);
            }
            catch (const mdds::invalid_arg_error&)
            {
                ok = true;
            }
            VCHECK(ok, "transfer() to the same container has to throw invalid_arg_error");
            unknown(x);
            return;
        }
        auto h = pick_hint(i);
        if (x.m.empty() || y.m.empty() || r.chance(4))
        {
            std::size_t a, b, d = y.m.empty() ? 0 : rpos(j);
            if (x.m.empty() || r.chance(40))
            {
                a = x.m.empty() || r.chance(50) ? bad_pos(i) : rpos(i);
                b = a < x.m.size() ? bad_pos(i) : a;
            }
            else
            {
                a = b = rpos(i);
                if (r.chance(50))
                    d = bad_pos(j);
                else
                {
                    b = std::min(x.m.size() - 1, a + r.below(6));
                    d = y.m.size() - std::min(y.m.size(), b - a);
                }
            }
            if (!y.m.empty() && reversed(i, a, b))
                d = rpos(j);
            op(i, ": ", hs(h), "transfer(", a, ", ", b, ", to ", j, ", ", d, ") out of range");
            must_throw("transfer()", [&] { h ? x.v->transfer(*h, a, b, *y.v, d) : x.v->transfer(a, b, *y.v, d); });
            unknown(x);
            unknown(y);
            return;
        }
        auto [a, b] = rrange(i);
        std::size_t d = rrange(j).first;
        if (b - a + 1 > y.m.size() - d)
        {
            if (r.chance(50))
                b = a + (y.m.size() - d) - 1;
            else
            {
                b = std::min(b, a + y.m.size() - 1);
                d = y.m.size() - (b - a + 1);
            }
        }
        op(i, ": ", hs(h), "transfer(", a, ", ", b, ", to ", j, ", ", d, ")");
        count("op.transfer");
        iterator it = h ? x.v->transfer(*h, a, b, *y.v, d) : x.v->transfer(a, b, *y.v, d);
        touch(x);
        touch(y);
        for (std::size_t k = a; k <= b; ++k)
        {
            y.m[d + k - a] = x.m[k];
            x.m[k] = {};
        }
        check_it(i, it, a, "transfer()");
    }

    void op_swap_range(std::size_t i)
    {
        Slot& x = s[i];
        std::size_t j = (i + 1 + r.below(s.size() - 1)) % s.size();
        Slot& y = s[j];
        if (x.m.empty() || y.m.empty() || r.chance(4))
        {
            std::size_t a = x.m.empty() || r.chance(40) ? bad_pos(i) : rpos(i);
            std::size_t b = a < x.m.size() && r.chance(50) ? bad_pos(i) : a;
            std::size_t d = y.m.empty() || (a < x.m.size() && b == a) ? bad_pos(j) : rpos(j);
            if (!y.m.empty() && reversed(i, a, b))
                d = rpos(j);
            op(i, ": swap(", a, ", ", b, ", with ", j, ", ", d, ") out of range");
            must_throw("swap() of a range", [&] { x.v->swap(a, b, *y.v, d); });
            unknown(x);
            unknown(y);
            return;
        }
        auto [a, b] = rrange(i);
        std::size_t d = rrange(j).first;
        if (b - a + 1 > y.m.size() - d)
            b = a + (y.m.size() - d) - 1;
        op(i, ": swap(", a, ", ", b, ", with ", j, ", ", d, ")");
        count("op.swap-range");
        x.v->swap(a, b, *y.v, d);
        touch(x);
        touch(y);
        for (std::size_t k = a; k <= b; ++k)
            std::swap(x.m[k], y.m[d + k - a]);
    }

    bool has(const Slot& x, bool (*f)(int))
    {
        for (auto& c : x.m)
            if (c.k >= 0 && !f(c.k))
                return false;
        return true;
    }

    void forget_ptrs(Slot& x)
    {
        for (auto& c : x.m)
            c.p = nullptr;
    }

    // After a copy: a private copy has its own objects.
    void copied(std::size_t i, std::size_t from)
    {
        Slot& x = s[i];
        x.m = s[from].m;
        forget_ptrs(x);
        if (cow)
        {
            x.borrow = BORROWS;
            s[from].borrow = BORROWS;
            forget_ptrs(s[from]);
        }
        else
        {
            x.borrow = OWNS;
            if (mon & CONTENT)
            {
                auto a = owned(i, 0, x.m.size());
                std::set<const void*> orig;
                for (auto& q : owned(from, 0, x.m.size()))
                    orig.insert(q.second);
                for (auto& q : a)
                    VCHECK(!orig.count(q.second), "a copied container shares an object with the original");
            }
        }
        x.hint.reset();
    }

    void op_whole(std::size_t i, int forced = -1)
    {
        Slot& x = s[i];
        std::size_t j = (i + 1 + r.below(s.size() - 1)) % s.size();
        Slot& y = s[j];
        switch (forced >= 0 ? forced : static_cast<int>(r.below(10)))
        {
            case 0:
            case 1:
            {
                // copy of i replaces j
                bool ctor = r.chance(50);
                op(j, ctor ? ": copy constructed from " : ": copy assigned from ", i);
                count("op.copy");
                if (!has(x, &Ks::copyable))
                {
                    bool thrown = false;
                    try
                    {
                        if (ctor)
                            V tmp(*x.v);
                        else
                            *y.v = *x.v;
                    }
                    catch (const mtv::element_block_error&)
                    {
                        thrown = true;
                    }
                    VCHECK(thrown, "copying a container with a noncopyable block has to throw element_block_error");
                    count("copy.noncopyable");
                    return;
                }
                if (ctor)
                    y.v = std::make_unique<V>(*x.v);
                else
                    *y.v = *x.v;
                copied(j, i);
                return;
            }
            case 2:
            {
                int form = static_cast<int>(r.below(soa ? 3 : 2));
                if (form == 2 && !soa)
                    form = 0;
                op(j, ": clone of ", i, " form ", form);
                count("op.clone");
                if (cow && !has(x, &Ks::cloneable))
                    return; // it could never be modified again
                if (!cow && !has(x, &Ks::cloneable))
                {
                    bool thrown = false;
                    try
                    {
                        (void)x.v->clone();
                    }
                    catch (const mtv::element_block_error&)
                    {
                        thrown = true;
                    }
                    VCHECK(thrown, "cloning a container with a block that has no way to clone has to throw element_block_error");
                    return;
                }
                if (form == 0)
                    *y.v = x.v->clone();
                else if (form == 1)
                    y.v = std::make_unique<V>(x.v->clone());
                else
                {
                    if constexpr (soa)
                    {
                        int id = next_id++;
                        y.v = std::make_unique<V>(x.v->clone(Ev(id)));
                        VCHECK(std::as_const(*y.v).event_handler().id == id, "clone(handler) uses another event handler");
                    }
                }
                if (form != 2)
                    VCHECK(std::as_const(*y.v).event_handler().id == std::as_const(*x.v).event_handler().id, "clone() did not copy the event handler");
                copied(j, i);
                return;
            }
            case 3:
            {
                op(j, ": move constructed from ", i);
                count("op.move");
                y.v = std::make_unique<V>(std::move(*x.v));
                y.m = std::move(x.m);
                y.borrow = x.borrow;
                y.hint.reset();
                init(x);
                return;
            }
            case 4:
            {
                op(j, ": move assigned from ", i);
                count("op.move");
                *y.v = std::move(*x.v);
                y.m = std::move(x.m);
                y.borrow = x.borrow;
                y.hint.reset();
                if (r.chance(50))
                {
                    // a moved-from container can be given a new value
                    op(i, ": clear() after being moved from");
                    x.v->clear();
                    x.m.clear();
                    x.borrow = OWNS;
                    x.hint.reset();
                }
                else
                    init(x);
                return;
            }
            case 5:
            case 6:
                op(i, ": swap with ", j);
                count("op.swap");
                x.v->swap(*y.v);
                std::swap(x.m, y.m);
                std::swap(x.borrow, y.borrow);
                x.hint.reset();
                y.hint.reset();
                return;
            case 7:
                if (r.chance(30))
                {
                    op(i, ": clear()");
                    count("op.clear");
                    x.v->clear();
                    touch(x);
                    x.m.clear();
                }
                else
                {
                    op(i, ": shrink_to_fit()");
                    count("op.shrink");
                    x.v->shrink_to_fit();
                    unknown(x);
                    x.hint.reset();
                }
                return;
            case 8:
            {
                // constructors
                Ks::with(kind(), [&]<typename K>() {
                    int kd = Ks::of_type(K::Blk::block_type);
                    std::size_t n = r.skewed(maxsize / 2);
                    op(i, ": constructed with ", n, " elements, kind ", kd);
                    count("op.construct");
                    switch (r.below(4))
                    {
                        case 0:
                            x.v = std::make_unique<V>(n);
                            x.m.assign(n, Cell{});
                            break;
                        case 1:
                            if constexpr (!K::managed)
                            {
                                i64 v = K::norm(pay());
                                typename K::T t = K::make(v);
                                x.v = std::make_unique<V>(n, t);
                                x.m.assign(n, Cell{kd, v, nullptr});
                                break;
                            }
                            [[fallthrough]];
                        case 2:
                        {
                            std::vector<Cell> cells;
                            auto q = make_seq<K>(n, cells);
                            const typename K::T* b = q.a.get();
                            x.v = std::make_unique<V>(n, b, b + n);
                            x.m = cells;
                            break;
                        }
                        default:
                        {
                            std::vector<Cell> cells;
                            auto q = make_seq<K>(n + 1, cells);
                            const typename K::T* b = q.a.get();
                            bool thrown = false;
                            try
                            {
                                V tmp(n ? n : 3, b, b + n + 1);
                            }
                            catch (const mdds::invalid_arg_error&)
                            {
                                thrown = true;
                            }
                            VCHECK(thrown, "construction with a wrong number of values has to throw invalid_arg_error");
                            for (std::size_t k = 0; k < n + 1; ++k)
                                K::drop(q.a[k]);
                            return;
                        }
                    }
                    x.borrow = OWNS;
                    x.hint.reset();
                });
                return;
            }
            default:
                if (cow)
                {
                    if constexpr (soa)
                    {
                        op(i, ": detach()");
                        count("op.detach");
                        bool was = x.borrow == BORROWS;
                        x.v->detach();
                        if (was && !x.m.empty())
                            count("detach.effective");
                        touch(x);
                    }
                    return;
                }
                // self assignment
                op(i, ": assigned to itself");
                if (has(x, &Ks::copyable))
                {
                    V& self = *x.v;
                    *x.v = self;
                    forget_ptrs(x);
                    x.hint.reset();
                }
        }
    }

    void grow(std::size_t i)
    {
        // many small blocks, so that the shifting of block positions works on long runs of blocks
        Slot& x = s[i];
        std::size_t n = r.below(maxsize + 1);
        op(i, ": resize(", n, ")");
        x.v->resize(n);
        touch(x);
        x.m.resize(n);
        if (!n)
            return;
        std::size_t p = 0;
        int k = -1;
        bool fine = r.chance(40);
        while (p < n)
        {
            std::size_t len = std::min<std::size_t>(n - p, fine ? 1 : 1 + r.below(5));
            int nk = static_cast<int>(r.range(-1, Ks::n - 1));
            if (nk == k)
                nk = k < 0 ? 0 : -1;
            k = nk;
            if (k >= 0)
                Ks::with(k, [&]<typename K>() {
                    std::vector<Cell> cells;
                    auto q = make_seq<K>(len, cells);
                    const typename K::T* b = q.a.get();
                    op(i, ": set(", p, ", ", show(cells), ")");
                    x.v->set(p, b, b + len);
                    std::copy(cells.begin(), cells.end(), x.m.begin() + p);
                });
            else if (x.m[p].k >= 0 || p)
            {
                op(i, ": set_empty(", p, ", ", p + len - 1, ")");
                x.v->set_empty(p, p + len - 1);
                std::fill(x.m.begin() + p, x.m.begin() + p + len, Cell{});
            }
            p += len;
        }
        if (x.m.size())
            for (auto& c : x.m)
                (void)c;
    }

    void step(std::size_t i)
    {
        switch (r.below(21))
        {
            case 0:
            case 1:
            case 2:
                return op_set(i);
            case 3:
            case 4:
            case 5:
                return op_set_range(i);
            case 6:
            case 7:
            case 8:
                return op_insert(i);
            case 9:
                return op_push(i);
            case 10:
                return op_insert_empty(i);
            case 11:
            case 12:
                return op_set_empty(i);
            case 13:
            case 14:
                return op_erase(i);
            case 15:
                return op_resize(i);
            case 16:
                return op_release(i);
            case 17:
                return op_transfer(i);
            case 18:
                return op_swap_range(i);
            case 19:
                return op_whole(i);
            default:
                if (r.chance(15))
                    return grow(i);
                return op_set(i);
        }
    }

    void finish()
    {
        for (auto& x : s)
        {
            x.hint.reset();
            x.v.reset();
            if (mon & LIFE)
                VCHECK(true, "");
        }
        if (mon & EVENTS)
        {
            for (auto& [id, blocks] : EvReg::reg())
                for (auto& [b, n] : blocks)
                    VCHECK(n == 0, "event handler ", id, ": after all containers are gone a block was acquired ", n, " more times than released");
            count("events.acquired", EvReg::acquired());
            count("events.released", EvReg::released());
            EvReg::acquired() = EvReg::released() = 0;
        }
        if (mon & LIFE)
        {
            VCHECK(ObjBase::live().empty(), ObjBase::live().size(), " managed objects were not deleted");
            expect_no_live("multi_type_vector");
        }
    }
};

} // namespace vh
