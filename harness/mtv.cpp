// multi_type_vector against a vector of tagged values.
#ifdef VH_PART
#define VH_CFG VH_PART
#else
#define VH_CFG 0
#endif
#if VH_CFG == 4
#define VH_NO_STD_BLOCKS std::vector
#include <vector>
#elif VH_CFG == 5
#define VH_NO_STD_BLOCKS std::deque
#include <deque>
#endif

#include "mtv_world.hpp"
#ifdef VH_AOS
#include <mdds/multi_type_vector/aos/main.hpp>
#define VH_NS aos
#define VH_SOA false
#else
#include <mdds/multi_type_vector/soa/main.hpp>
#define VH_NS soa
#define VH_SOA true
#endif

using namespace vh;

#ifdef VH_COW
#define VH_COWFLAG true
#else
#define VH_COWFLAG false
#endif

namespace {

template<typename B>
using VK = ValKind<B>;
template<typename B>
using MK = MgdKind<B, true, true>;
template<typename B>
using NK = MgdKind<B, false, true>;

#if VH_CFG != 4 && VH_CFG != 5
using KI = VK<mtv::int32_element_block>;
using KS = VK<mtv::string_element_block>;
using KB = VK<mtv::boolean_element_block>;
#endif

#if VH_CFG == 0
using TheKinds = Kinds<KI, KS, KB, VK<mtv::double_element_block>>;
constexpr auto lu = mtv::lu_factor_t::lu16;
constexpr bool cow = VH_COWFLAG;
#elif VH_CFG == 1
using TheKinds = Kinds<VK<VA_block>, MK<MA_block>, NK<NA_block>, KI>;
constexpr auto lu = mtv::lu_factor_t::lu8;
constexpr bool cow = VH_COWFLAG;
#elif VH_CFG == 2
using TheKinds = Kinds<KI, KS, VK<VA_block>>;
#ifdef VH_AOS
constexpr auto lu = mtv::lu_factor_t::lu32;
constexpr bool cow = VH_COWFLAG;
#else
constexpr auto lu = mtv::lu_factor_t::lu16;
constexpr bool cow = true;
#endif
#elif VH_CFG == 3
using TheKinds = Kinds<KI, MK<MA_block>, NK<NA_block>, VK<VA_block>>;
#ifdef VH_AOS
constexpr auto lu = mtv::lu_factor_t::none;
constexpr bool cow = VH_COWFLAG;
#else
constexpr auto lu = mtv::lu_factor_t::lu4;
constexpr bool cow = true;
#endif
#elif VH_CFG == 4
using TheKinds = Kinds<VK<VB_block>, MK<MB_block>, VK<mtv::vbool_block>>;
constexpr auto lu = mtv::lu_factor_t::lu4;
constexpr bool cow = VH_COWFLAG;
#elif VH_CFG == 5
using TheKinds = Kinds<VK<VC_block>, NK<NC_block>, VK<mtv::vint_block>>;
constexpr auto lu = mtv::lu_factor_t::none;
constexpr bool cow = VH_COWFLAG;
#elif VH_CFG == 6
using TheKinds = Kinds<VK<mtv::double_element_block>, VK<mtv::int8_element_block>, VK<VA_block>>;
#ifdef VH_AOS
constexpr auto lu = mtv::lu_factor_t::lu4;
#else
constexpr auto lu = mtv::lu_factor_t::sse2_x64_lu4;
#endif
constexpr bool cow = VH_COWFLAG;
#else
using TheKinds = Kinds<VK<mtv::uint8_element_block>, VK<mtv::int64_element_block>, VK<mtv::float_element_block>, VK<mtv::uint16_element_block>>;
constexpr auto lu = mtv::lu_factor_t::lu32;
constexpr bool cow = VH_COWFLAG;
#endif

struct Conf
{
    using Ks = TheKinds;
    static constexpr bool cow = ::cow;
    static constexpr bool soa = VH_SOA;
    static constexpr u64 id = VH_CFG + 100 * VH_SOA;
    using V = mtv::VH_NS::multi_type_vector<MyTraits<TheKinds, lu, ::cow>>;
};

using W = World<Conf>;

void run(Rng& r, unsigned mon, int copies = 0)
{
    std::size_t mx = r.pick<std::size_t>({6, 14, 30, 30, 60, 120});
    W w(r, mon, mx, 3);
    std::size_t n = r.range(8, mx > 50 ? 25 : 60);
    if (r.chance(70))
        for (std::size_t i = 0; i < w.s.size(); ++i)
            w.grow(i);
    w.check_all();
    for (std::size_t k = 0; k < n; ++k)
    {
        if (copies && r.chance(copies))
            w.op_whole(r.below(w.s.size()), static_cast<int>(r.below(3)));
        else
            w.step(r.below(w.s.size()));
        w.check_all();
    }
    w.finish();
    if (!(mon & LIFE))
        Ledger::live().clear();
}

// Navigation: block iterators in both directions, position objects, element blocks.
template<typename VV, typename It, typename End>
void nav_position(const VV& v, const std::vector<Run>& rs, std::size_t p, const std::pair<It, std::size_t>& q, End end, const char* what)
{
    std::size_t n = 0, size = rs.empty() ? 0 : rs.back().pos + rs.back().size;
    if (p == size)
    {
        VCHECK(q.first == end && q.second == 0, what, " of the end position has to be {end, 0}");
        return;
    }
    while (!(rs[n].pos <= p && p < rs[n].pos + rs[n].size))
        ++n;
    VCHECK(!(q.first == end), what, " of ", p, " is the end position");
    VCHECK(q.first->position == rs[n].pos && q.first->size == rs[n].size && q.second == p - rs[n].pos, what, " of ", p, " is block ", q.first->position, " size ",
           q.first->size, " offset ", q.second, " expected block ", rs[n].pos, " size ", rs[n].size, " offset ", p - rs[n].pos);
    VCHECK(q.first->type == (rs[n].k < 0 ? mtv::element_type_empty : TheKinds::type(rs[n].k)), what, " of ", p, ": type of the block");
    VCHECK((q.first->data != nullptr) == (rs[n].k >= 0), what, " of ", p, ": data of the block");
    VCHECK(VV::logical_position(q) == p, "logical_position() of ", p, " is ", VV::logical_position(q));
}

template<typename It, typename R>
void nav_blocks(It b, It e, const R& rs, const char* what)
{
    std::size_t n = 0;
    It it = b;
    auto same = [&](const It& i, std::size_t k) {
        return i->position == rs[k].pos && i->size == rs[k].size && i->type == (rs[k].k < 0 ? mtv::element_type_empty : TheKinds::type(rs[k].k)) &&
               (i->data != nullptr) == (rs[k].k >= 0);
    };
    for (; it != e; ++it, ++n)
    {
        VCHECK(n < rs.size(), what, ": too many blocks");
        VCHECK(same(it, n), what, ": block ", n, " is at ", it->position, " size ", it->size, " expected ", rs[n].pos, " size ", rs[n].size);
        VCHECK((*it).position == it->position, what, ": * and -> differ");
    }
    VCHECK(n == rs.size(), what, ": too few blocks");
    VCHECK((b == e) == rs.empty(), what, ": begin and end of ", rs.size(), " blocks");
    while (n)
    {
        It old = it;
        --it;
        --n;
        VCHECK(same(it, n), what, " backwards: block ", n, " is at ", it->position, " size ", it->size, " expected ", rs[n].pos, " size ", rs[n].size);
        VCHECK(it != old && !(it == old), what, ": different iterators compare equal");
        It fwd = it;
        ++fwd;
        VCHECK(fwd == old, what, ": ++ does not undo --");
    }
    VCHECK(it == b, what, " backwards: does not reach begin");
}

template<typename VV>
void nav_one(Rng& r, VV& mv, const std::vector<Cell>& m)
{
    const VV& v = mv;
    std::vector<Run> rs = runs(m), rv(rs.rbegin(), rs.rend());
    nav_blocks(v.begin(), v.end(), rs, "begin() const");
    nav_blocks(v.cbegin(), v.cend(), rs, "cbegin()");
    nav_blocks(v.rbegin(), v.rend(), rv, "rbegin() const");
    nav_blocks(v.crbegin(), v.crend(), rv, "crbegin()");
    VCHECK(v.block_size() == rs.size(), "block_size()");
    if constexpr (!::cow)
    {
        nav_blocks(mv.begin(), mv.end(), rs, "begin()");
        nav_blocks(mv.rbegin(), mv.rend(), rv, "rbegin()");
        typename VV::const_iterator ci = mv.begin();
        VCHECK(ci == v.cbegin(), "an iterator converted to a const_iterator");
        ci = mv.end();
        VCHECK(ci == v.cend(), "an iterator assigned to a const_iterator");
    }
    // a walk over all elements
    {
        auto q = v.position(0);
        for (std::size_t p = 0; p < m.size(); ++p)
        {
            nav_position(v, rs, p, q, v.cend(), "next_position()");
            if (m[p].k >= 0)
                TheKinds::with(m[p].k, [&]<typename K>() {
                    auto t = VV::template get<typename K::Blk>(q);
                    VCHECK(K::val(t) == m[p].v, "get<block>(position) of ", p);
                    VCHECK(!m[p].p || K::ptr(t) == m[p].p, "get<block>(position) of ", p, ": identity");
                    if constexpr (!std::is_same_v<typename K::T, bool>) // at() of a boolean block cannot be instantiated
                        VCHECK(K::val(K::Blk::at(*q.first->data, q.second)) == m[p].v, "at() of ", p);
                });
            q = VV::next_position(q);
        }
        VCHECK(q.first == v.cend() && q.second == 0, "next_position() of the last element has to be the end position");
    }
    if constexpr (!::cow)
        if (!m.empty() && r.chance(30))
        {
            auto q = mv.position(0);
            for (std::size_t p = 0; p < m.size(); ++p)
            {
                nav_position(v, rs, p, q, mv.end(), "next_position() (mutable)");
                q = VV::next_position(q);
            }
            VCHECK(q.first == mv.end(), "next_position() of the last element has to be the end position");
        }
    // single positions
    for (int k = 0; k < 6; ++k)
    {
        std::size_t p = r.below(m.size() + 1), t = r.below(m.size() + 1);
        int steps = static_cast<int>(t) - static_cast<int>(p);
        op("position(", p, "), to ", t);
        nav_position(v, rs, p, v.position(p), v.cend(), "position() const");
        nav_position(v, rs, t, VV::advance_position(v.position(p), steps), v.cend(), "advance_position() const");
        auto hint = v.cbegin();
        std::size_t hb = r.below(rs.size() + 1);
        for (std::size_t i = 0; i < hb; ++i)
            ++hint;
        nav_position(v, rs, p, v.position(hint, p), v.cend(), "position(hint) const");
        if constexpr (!::cow)
        {
            nav_position(v, rs, p, mv.position(p), mv.end(), "position()");
            nav_position(v, rs, t, VV::advance_position(mv.position(p), steps), mv.end(), "advance_position()");
            auto mh = mv.begin();
            for (std::size_t i = 0; i < hb; ++i)
                ++mh;
            nav_position(v, rs, p, mv.position(mh, p), mv.end(), "position(hint)");
        }
        count("nav.positions");
        // outside of the range
        std::size_t bad = m.size() + 1 + (r.chance(50) ? r.below(3) : (std::size_t(-1) - m.size() - 1 - r.below(3)));
        auto oor = [&](const char* what, auto f) {
            bool thrown = false;
            try
            {
                f();
            }
            catch (const std::out_of_range&)
            {
                thrown = true;
            }
            VCHECK(thrown, what, " of ", bad, " has to throw out_of_range");
        };
        oor("position() const", [&] { (void)v.position(bad); });
        oor("position(hint) const", [&] { (void)v.position(hint, bad); });
        oor("get_type()", [&] { (void)v.get_type(r.chance(50) ? m.size() : bad); });
        oor("is_empty()", [&] { (void)v.is_empty(r.chance(50) ? m.size() : bad); });
        TheKinds::with(static_cast<int>(r.below(TheKinds::n)), [&]<typename K>() {
            oor("get<T>()", [&] { (void)v.template get<typename K::T>(r.chance(50) ? m.size() : bad); });
            typename K::T t = K::empty();
            oor("get()", [&] { v.get(r.chance(50) ? m.size() : bad, t); });
        });
        if constexpr (!::cow)
        {
            oor("position()", [&] { (void)mv.position(bad); });
            auto bh = mv.begin(); // any block, or the end
            for (std::size_t i = r.below(mv.block_size() + 1); i; --i)
                ++bh;
            oor("position(hint)", [&] { (void)mv.position(bh, bad); });
        }
    }
    // element blocks as ranges
    for (auto it = v.begin(); it != v.end(); ++it)
        if (it->data && r.chance(30))
            TheKinds::with(TheKinds::of_type(it->type), [&]<typename K>() {
                using B = typename K::Blk;
                const mtv::base_element_block& d = *it->data;
                std::size_t n = 0;
                for (auto e = B::begin(d); e != B::end(d); ++e, ++n)
                    VCHECK(n < it->size && K::val(*e) == m[it->position + n].v, "element block iteration at ", it->position + n);
                VCHECK(n == it->size, "element block iteration ends after ", n, " of ", it->size);
                for (auto e = B::crbegin(d); e != B::crend(d); ++e)
                    VCHECK(n > 0 && K::val(*e) == m[it->position + --n].v, "reverse element block iteration at ", it->position + n);
                VCHECK(n == 0, "reverse element block iteration ends early");
                for (const auto& e : B::range(d))
                    VCHECK(n < it->size && K::val(e) == m[it->position + n++].v, "element block range");
                VCHECK(n == it->size, "element block range ends after ", n, " of ", it->size);
                count("nav.element-block");
            });
}

void nav(Rng& r)
{
    W w(r, CONTENT, r.pick<std::size_t>({6, 14, 30, 60, 150}), 2);
    for (std::size_t i = 0; i < w.s.size(); ++i)
        if (r.chance(80))
            w.grow(i);
    std::size_t n = r.range(1, 12);
    for (std::size_t k = 0; k < n; ++k)
    {
        std::size_t i = r.below(w.s.size());
        if (r.chance(70))
            w.step(i);
        nav_one(r, *w.s[i].v, w.s[i].m);
        w.check_slot(i);
        u64 h = 11;
        for (auto& c : w.s[i].m)
            h = hcomb(h, c.k * 1000 + c.v);
        if (w.s[i].m.size() > 1)
            seen(hcomb(h, Conf::id));
    }
    w.finish();
    Ledger::live().clear();
}

} // namespace

int main(int argc, char** argv)
{
    return drive(argc, argv, {
        {"mtv_content", 10, [](Rng& r) { run(r, CONTENT); }},
        {"mtv_blocks", 10, [](Rng& r) { run(r, CANON); }},
        {"mtv_events", 10, [](Rng& r) { run(r, EVENTS); }},
        {"mtv_life", 10, [](Rng& r) { run(r, LIFE); }},
        {"mtv_cow", 10, [](Rng& r) { run(r, CONTENT | LIFE | SHARE, 15); }},
        {"mtv_nav", 10, [](Rng& r) { nav(r); }},
        {"mtv_iters", 10, [](Rng& r) { run(r, ITERS); }},
    });
}
