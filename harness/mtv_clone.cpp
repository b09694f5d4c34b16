// Copying and cloning of multi_type_vector: deep, in order, complete or without effect.
#ifdef VH_PART
#define VH_CFG VH_PART
#else
#define VH_CFG 0
#endif
#if VH_CFG >= 6
#include <execution>
#include <atomic>
#endif
#include "mtv_world.hpp"
#ifdef VH_AOS
#include <mdds/multi_type_vector/aos/main.hpp>
#define VH_NS aos
#define VH_SOA false
#else
#include <mdds/multi_type_vector/soa/main.hpp>
#define VH_NS soa
#define VH_SOA true
#endif

using namespace vh;

#if VH_CFG >= 6
namespace vh {
// elements which may be cloned by several threads
struct NP
{
    i64 v;
    static std::atomic<i64>& live()
    {
        static std::atomic<i64> n{0};
        return n;
    }
    static std::atomic<i64>& clones()
    {
        static std::atomic<i64> n{0};
        return n;
    }
    explicit NP(i64 x) : v(x)
    {
        ++live();
    }
    NP(const NP&) = delete;
    bool operator==(const NP& o) const
    {
        return v == o.v;
    }
    ~NP()
    {
        --live();
    }
};
using NP_block = mtv::noncopyable_managed_element_block<75, NP, mtv::delayed_delete_vector>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(NP, 75, nullptr, NP_block)
struct NPKind
{
    using Blk = NP_block;
    using T = NP*;
    static constexpr bool managed = false; // no identity ledger
    static constexpr bool copyable = false;
    static constexpr bool cloneable = true;
    static T make(i64 x)
    {
        return new NP(x);
    }
    static i64 norm(i64 x)
    {
        return x;
    }
    static i64 val(T t)
    {
        return t ? t->v : -88888;
    }
};
} // namespace vh
namespace mdds { namespace mtv {
template<>
struct clone_value<vh::NP*>
{
    using exec_policy = std::execution::parallel_policy;
    vh::NP* operator()(const vh::NP* p) const
    {
        ++vh::NP::clones();
        return new vh::NP(p->v);
    }
};
}} // namespace mdds::mtv
#endif

namespace {

template<typename B>
using VK = ValKind<B>;
template<typename B>
using MK = MgdKind<B, true, true>;
template<typename B>
using NK = MgdKind<B, false, true>;
using XK = MgdKind<NX_block, false, false>;
using KI = VK<mtv::int32_element_block>;
using KS = VK<mtv::string_element_block>;

constexpr bool cow = VH_SOA && (VH_CFG == 4 || VH_CFG == 5);
#if VH_CFG == 0
using TheKinds = Kinds<KI, KS, NK<NA_block>>;
#elif VH_CFG == 1
using TheKinds = Kinds<MK<MA_block>, NK<NB_block>, VK<VA_block>>;
#elif VH_CFG == 2
using TheKinds = Kinds<NK<NA_block>, NK<NC_block>, MK<MC_block>>;
#elif VH_CFG == 3
using TheKinds = Kinds<KI, MK<MA_block>, XK>;
#elif VH_CFG == 4
using TheKinds = Kinds<KI, MK<MA_block>, NK<NA_block>, XK>;
#elif VH_CFG == 5
using TheKinds = Kinds<NK<NB_block>, VK<VB_block>, MK<MB_block>>;
#elif VH_CFG == 6
using TheKinds = Kinds<KI, KS, NPKind>;
#else
using TheKinds = Kinds<KI, KS, VK<mtv::double_element_block>, VK<mtv::int8_element_block>>;
#endif

#if VH_CFG >= 6
struct ParTraits : MyTraits<TheKinds, mtv::lu_factor_t::lu8, false>
{
    using exec_policy = std::execution::parallel_policy;
};

// Operations under an execution policy against the model.
using V = mtv::soa::multi_type_vector<ParTraits>;

struct Store
{
    V v;
    std::vector<Cell> m;
};

void build(Rng& r, Store& s, std::size_t n)
{
    s.v.resize(n);
    s.m.assign(n, Cell{});
    std::size_t p = 0;
    while (p < n)
    {
        std::size_t len = std::min<std::size_t>(n - p, 1 + r.below(r.chance(20) ? 60 : 4));
        int k = static_cast<int>(r.range(-1, TheKinds::n - 1));
        if (k >= 0)
            TheKinds::with(k, [&]<typename K>() {
                std::unique_ptr<typename K::T[]> a(new typename K::T[len]);
                for (std::size_t i = 0; i < len; ++i)
                {
                    i64 v = K::norm(static_cast<i64>(r.below(100)));
                    a[i] = K::make(v);
                    s.m[p + i] = Cell{k, v, nullptr};
                }
                const typename K::T* b = a.get();
                s.v.set(p, b, b + len);
            });
        p += len;
    }
}

void compare(const Store& s, const char* what)
{
    VCHECK(s.v.size() == s.m.size(), what, ": size() is ", s.v.size(), " expected ", s.m.size());
    std::size_t pos = 0;
    for (auto it = s.v.begin(); it != s.v.end(); pos += it->size, ++it)
    {
        VCHECK(pos + it->size <= s.m.size(), what, ": too many elements");
        if (!it->data)
        {
            for (std::size_t k = 0; k < it->size; ++k)
                VCHECK(s.m[pos + k].k < 0, what, ": element ", pos + k, " is empty");
            continue;
        }
        int kd = TheKinds::of_type(it->type);
        VCHECK(kd >= 0, what, ": block type");
        TheKinds::with(kd, [&]<typename K>() {
            VCHECK(K::Blk::size(*it->data) == it->size, what, ": block size");
            for (std::size_t k = 0; k < it->size; ++k)
                VCHECK(s.m[pos + k].k == kd && K::val(K::Blk::get_value(*it->data, k)) == s.m[pos + k].v, what, ": element ", pos + k);
        });
    }
    VCHECK(pos == s.m.size(), what, ": elements are missing");
    u64 h = 3;
    for (auto& c : s.m)
        h = hcomb(h, c.k * 1000 + c.v);
    if (s.m.size() > 1)
        seen(h);
}

void run_par(Rng& r)
{
    {
        Store a, b;
        EvReg::reg().clear();
        build(r, a, r.below(r.chance(20) ? 1500 : 200));
        compare(a, "source");
        op("clone() of ", a.m.size(), " elements in ", a.v.block_size(), " blocks");
        bool np = false;
        for (auto& c : a.m)
            np |= c.k >= 0 && !TheKinds::copyable(c.k);
        if (np || r.chance(50))
        {
#if VH_CFG == 6
            i64 live = NP::live(), cl = NP::clones(), n = 0;
            for (auto& c : a.m)
                n += c.k == 2;
            b.v = a.v.clone();
            VCHECK(NP::live() == live + n && NP::clones() == cl + n, "every element has to be cloned once");
#else
            b.v = a.v.clone();
#endif
        }
        else
            b.v = a.v;
        b.m = a.m;
        compare(b, "copy");
        compare(a, "source after the copy");
        count("copy.exec-policy");
        for (auto it = a.v.begin(), jt = b.v.begin(); it != a.v.end(); ++it, ++jt)
            VCHECK(it->data == nullptr || it->data != jt->data, "the copy shares a block with the source");
        op("shrink_to_fit()");
        b.v.shrink_to_fit();
        compare(b, "after shrink_to_fit()");
        // equality: blocks of pointers compare by pointer
        if (!np)
        {
            VCHECK(a.v == b.v && !(a.v != b.v), "a copy has to be equal");
            if (!a.m.empty())
            {
                std::size_t p = r.below(a.m.size());
                op("set(", p, ")");
                i64 v = a.m[p].k == 0 ? a.m[p].v + 1 : 5;
                b.v.set(p, static_cast<std::int32_t>(v));
                b.m[p] = Cell{0, v, nullptr};
                compare(b, "modified copy");
                compare(a, "source after a change of the copy");
                VCHECK(!(a.v == b.v) && a.v != b.v, "a modified copy is equal");
                count("equality.exec-policy");
            }
        }
    }
#if VH_CFG == 6
    VCHECK(NP::live() == 0, NP::live(), " elements leaked");
#endif
}
#else
struct Conf
{
    using Ks = TheKinds;
    static constexpr bool cow = ::cow;
    static constexpr bool soa = VH_SOA;
    static constexpr u64 id = 1000 + VH_CFG + 100 * VH_SOA;
    using V = mtv::VH_NS::multi_type_vector<MyTraits<TheKinds, mtv::lu_factor_t::lu8, ::cow>>;
};
using W = World<Conf>;
using V = Conf::V;

template<typename K>
constexpr bool via_cloner = K::managed && !K::copyable && K::cloneable;

// values of each block which has to be cloned by a cloner
std::multiset<std::vector<i64>> expect_log(const V& v)
{
    std::multiset<std::vector<i64>> e;
    for (auto it = v.cbegin(); it != v.cend(); ++it)
        if (it->data)
            TheKinds::with(TheKinds::of_type(it->type), [&]<typename K>() {
                if constexpr (via_cloner<K>)
                {
                    std::vector<i64> s;
                    for (std::size_t k = 0; k < it->size; ++k)
                        s.push_back(K::val(K::Blk::get_value(*it->data, k)));
                    e.insert(s);
                }
            });
    return e;
}

std::multiset<std::vector<i64>> actual_log()
{
    std::map<int, std::vector<i64>> m;
    for (auto& e : CloneLog::log())
        m[e.cloner].push_back(e.v);
    std::multiset<std::vector<i64>> s;
    for (auto& [c, v] : m)
        s.insert(v);
    return s;
}

struct Count
{
    std::size_t cloned = 0, copied = 0, unclonable = 0;
};

Count tally(const std::vector<Cell>& m)
{
    Count c;
    for (auto& e : m)
        if (e.k >= 0)
            TheKinds::with(e.k, [&]<typename K>() {
                if constexpr (via_cloner<K>)
                    ++c.cloned;
                else if constexpr (K::managed && K::copyable)
                    ++c.copied;
                else if constexpr (!K::cloneable)
                    ++c.unclonable;
            });
    return c;
}

// Which blocks a container refers to.
std::vector<const void*> ids(const V& v)
{
    std::vector<const void*> r;
    for (auto it = v.cbegin(); it != v.cend(); ++it)
        r.push_back(it->data);
    return r;
}

// f duplicates the blocks of i: check the cloners
template<typename F>
void duplicates(W& w, std::size_t i, F f)
{
    auto e = expect_log(*w.s[i].v);
    CloneLog::log().clear();
    f();
    VCHECK(actual_log() == e, "one cloner per block has to see the elements of the block in stored order");
    if (!e.empty())
        count("clone.stateful-order");
}

template<typename WT>
void modify(WT& w, std::size_t i)
{
    // a mutation which leaves the content as it is (possibly after detaching)
    auto& v = *w.s[i].v;
    switch (w.r.below(4))
    {
        case 0:
            op(i, ": resize() to the same size + 1 and back");
            v.resize(w.s[i].m.size() + 1);
            v.resize(w.s[i].m.size());
            break;
        case 1:
            op(i, ": push_back_empty() and resize back");
            v.push_back_empty();
            v.resize(w.s[i].m.size());
            break;
        case 2:
            op(i, ": insert_empty() and erase()");
            {
                std::size_t p = w.r.below(w.s[i].m.size());
                v.insert_empty(p, 2);
                v.erase(p, p + 1);
            }
            break;
        default:
            if constexpr (Conf::soa)
            {
                op(i, ": detach()");
                v.detach();
            }
    }
}

template<typename WT>
void experiment(WT& w)
{
    Rng& r = w.r;
    std::size_t i = r.below(w.s.size()), j = (i + 1 + r.below(w.s.size() - 1)) % w.s.size();
    auto& x = w.s[i];
    auto& y = w.s[j];
    Count c = tally(x.m);
    auto before_live = ObjBase::live();
    auto xi = ids(*x.v);
    if constexpr (!cow)
    {
        if (r.chance(50))
        {
            // complete
            if (c.unclonable)
            {
                op("clone of ", i, " has to throw");
                bool thrown = false;
                try
                {
                    *y.v = x.v->clone();
                }
                catch (const mtv::element_block_error&)
                {
                    thrown = true;
                }
                VCHECK(thrown, "cloning a block without a way to clone has to throw element_block_error");
                VCHECK(ObjBase::live() == before_live, "a failed clone() leaks or deletes elements");
                count("clone.unsupported");
                return;
            }
            op(j, ": clone of ", i);
            duplicates(w, i, [&] {
                if (r.chance(50))
                    *y.v = x.v->clone();
                else
                    y.v = std::make_unique<V>(x.v->clone());
            });
            w.copied(j, i);
            for (auto p : ids(*y.v))
                VCHECK(!p || std::find(xi.begin(), xi.end(), p) == xi.end(), "the clone shares a block with the source");
            count("clone.complete");
            return;
        }
        // interrupted by an exception
        bool clone = !w.has(x, &TheKinds::copyable) || r.chance(50);
        if (clone && c.unclonable)
            return;
        std::size_t n = c.copied + (clone ? c.cloned : 0);
        if (!n)
            return;
        bool inj_clone = clone && c.cloned && (!c.copied || r.chance(50));
        std::size_t k = r.below(inj_clone ? c.cloned : c.copied);
        op(j, clone ? ": clone of " : ": copy of ", i, " interrupted at ", inj_clone ? "clone " : "copy ", k);
        (inj_clone ? CloneLog::throw_after() : ObjBase::throw_after()) = static_cast<i64>(k);
        bool thrown = false;
        int form = static_cast<int>(r.below(2));
        try
        {
            if (clone)
            {
                if (form)
                    *y.v = x.v->clone();
                else
                    V tmp(x.v->clone());
            }
            else
            {
                if (form)
                    *y.v = *x.v;
                else
                    V tmp(*x.v);
            }
        }
        catch (const std::runtime_error& e)
        {
            thrown = std::string(e.what()) == "injected";
        }
        CloneLog::throw_after() = ObjBase::throw_after() = -1;
        VCHECK(thrown, "the exception of an element has to propagate");
        VCHECK(ObjBase::live() == before_live, "an interrupted copy or clone leaks or deletes elements");
        count(clone ? "clone.interrupted" : "copy.interrupted");
    }
    else
    {
        // sharing, then detaching
        auto snapshot = [&] {
            std::vector<std::vector<const void*>> q;
            for (auto& z : w.s)
                q.push_back(ids(*z.v));
            return q;
        };
        CloneLog::log().clear();
        bool clone = !w.has(x, &TheKinds::copyable) || r.chance(50);
        op(j, clone ? ": clone of " : ": copy of ", i);
        if (clone)
        {
            if (r.chance(50))
                *y.v = x.v->clone();
            else
                y.v = std::make_unique<V>(x.v->clone());
        }
        else if (r.chance(50))
            *y.v = *x.v;
        else
            y.v = std::make_unique<V>(*x.v);
        VCHECK(CloneLog::log().empty(), "a copy has to share the blocks, not to clone them");
        w.copied(j, i);
        VCHECK(ids(*y.v) == ids(*x.v) && ids(*x.v) == xi, "a copy has to share the blocks of the source");
        w.check_all();
        if (x.m.empty())
            return;
        std::size_t t = r.chance(50) ? i : j;
        auto& z = w.s[t];
        before_live = ObjBase::live();
        auto before = snapshot();
        if (c.unclonable)
        {
            bool thrown = false;
            try
            {
                if (r.chance(50))
                    z.v->set_empty(0, 0);
                else
                    z.v->detach();
            }
            catch (const mtv::element_block_error&)
            {
                thrown = true;
            }
            VCHECK(thrown, "detaching a block without a way to clone has to throw element_block_error");
            VCHECK(ObjBase::live() == before_live && snapshot() == before, "a failed detach() has an effect");
            count("detach.unsupported");
            w.check_all();
            w.init(x);
            w.init(y);
            return;
        }
        if (c.cloned + c.copied && r.chance(60))
        {
            bool inj_clone = c.cloned && (!c.copied || r.chance(50));
            std::size_t k = r.below(inj_clone ? c.cloned : c.copied);
            op(t, ": mutation interrupted at ", inj_clone ? "clone " : "copy ", k);
            (inj_clone ? CloneLog::throw_after() : ObjBase::throw_after()) = static_cast<i64>(k);
            bool thrown = false;
            try
            {
                switch (r.below(6))
                {
                    case 0:
                        z.v->detach();
                        break;
                    case 1:
                        z.v->set_empty(0, z.m.size() - 1);
                        break;
                    case 2:
                        z.v->erase(0, z.m.size() - 1);
                        break;
                    case 3:
                        z.v->push_back_empty();
                        break;
                    case 4:
                        z.v->insert_empty(0, 1);
                        break;
                    default:
                        z.v->resize(z.m.size() + 2);
                }
            }
            catch (const std::runtime_error& e)
            {
                thrown = std::string(e.what()) == "injected";
            }
            CloneLog::throw_after() = ObjBase::throw_after() = -1;
            VCHECK(thrown, "the exception of an element has to propagate");
            VCHECK(ObjBase::live() == before_live && snapshot() == before, "an interrupted detach() has an effect");
            w.check_all();
            count("detach.interrupted");
        }
        duplicates(w, t, [&] { modify(w, t); });
        if constexpr (Conf::soa)
        {
            CloneLog::log().clear();
            z.v->detach();
            VCHECK(CloneLog::log().empty(), "detach() of a sole owner has to do nothing");
        }
        w.forget_ptrs(z);
        w.touch(z);
        auto after = snapshot();
        for (std::size_t q = 0; q < w.s.size(); ++q)
        {
            if (q == t)
            {
                for (auto p : after[q])
                    VCHECK(!p || std::find(before[q].begin(), before[q].end(), p) == before[q].end(), "a mutated container still shares a block");
            }
            else
                VCHECK(after[q] == before[q], "a mutation of container ", t, " replaces blocks of container ", q);
        }
        count("detach.by-mutation");
    }
}

void run(Rng& r)
{
    W w(r, CONTENT | LIFE | EVENTS, r.pick<std::size_t>({6, 14, 30, 60}), 3);
    for (std::size_t i = 0; i < w.s.size(); ++i)
        if (r.chance(85))
            w.grow(i);
    w.check_all();
    std::size_t n = r.range(5, 25);
    for (std::size_t k = 0; k < n; ++k)
    {
        if (r.chance(45))
            experiment(w);
        else
            w.step(r.below(w.s.size()));
        w.check_all();
    }
    w.finish();
}
#endif

} // namespace

int main(int argc, char** argv)
{
    return drive(argc, argv, {
#if VH_CFG >= 6
        {"mtv_clone", 10, [](Rng& r) { run_par(r); }},
#else
        {"mtv_clone", 10, [](Rng& r) { run(r); }},
#endif
    });
}
