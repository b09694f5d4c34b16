// The side-by-side iterator over a collection of multi_type_vector instances.
#include "common.hpp"
#include <deque>
#include <list>
#include <memory>
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#include <mdds/multi_type_vector/collection.hpp>
#include <mdds/multi_type_vector/standard_element_blocks.hpp>

using namespace vh;
namespace mtv = mdds::mtv;

namespace {

struct Tr : mtv::default_traits
{
    using block_funcs = mtv::element_block_funcs<
        mtv::boolean_element_block, mtv::int32_element_block, mtv::double_element_block, mtv::string_element_block>;
};
#if VH_PART == 0
using V = mtv::soa::multi_type_vector<Tr>;
#elif VH_PART == 1
using V = mtv::aos::multi_type_vector<Tr>;
#else
struct Tr2 : Tr
{
    static constexpr bool enable_cow = true;
};
using V = mtv::soa::multi_type_vector<Tr2>;
#endif
using C = mtv::collection<V>;

struct Cell
{
    int k = 0; // 0 empty, 1 boolean, 2 integer, 3 double, 4 string
    int v = 0;
    bool operator==(const Cell&) const = default;
};

std::string sval(int v)
{
    return v % 3 ? "s" + std::to_string(v) : "a longer string value " + std::to_string(v);
}

void put(V& v, std::size_t pos, Cell c)
{
    switch (c.k)
    {
        case 0:
            v.set_empty(pos, pos);
            break;
        case 1:
            v.set(pos, bool(c.v & 1));
            break;
        case 2:
            v.set(pos, std::int32_t(c.v));
            break;
        case 3:
            v.set(pos, c.v + 0.25);
            break;
        default:
            v.set(pos, sval(c.v));
    }
}

int type_of(int k)
{
    switch (k)
    {
        case 0:
            return mtv::element_type_empty;
        case 1:
            return mtv::element_type_boolean;
        case 2:
            return mtv::element_type_int32;
        case 3:
            return mtv::element_type_double;
        default:
            return mtv::element_type_string;
    }
}

template<typename N>
bool same(const N& n, Cell c)
{
    if (n.type != type_of(c.k))
        return false;
    switch (c.k)
    {
        case 0:
            return true;
        case 1:
            return n.template get<mtv::boolean_element_block>() == bool(c.v & 1);
        case 2:
            return n.template get<mtv::int32_element_block>() == c.v;
        case 3:
            return n.template get<mtv::double_element_block>() == c.v + 0.25;
        default:
            return n.template get<mtv::string_element_block>() == sval(c.v);
    }
}

using Model = std::vector<std::vector<Cell>>;

struct Ranges
{
    std::size_t c0, cn, e0, en;
};

void walk(Rng& r, const C& c, const Model& m, const Ranges& g)
{
    VCHECK(c.size() == (m.empty() ? 0 : m[0].size()), "size() is ", c.size());
    auto it = c.begin(), ite = c.end();
    std::size_t n = 0;
    auto saved = it;
    std::size_t saved_n = 0;
    u64 h = 7;
    for (; it != ite; ++n)
    {
        VCHECK(n < g.cn * g.en, "more than ", g.cn * g.en, " elements");
        std::size_t vi = g.c0 + n % g.cn, p = g.e0 + n / g.cn;
        VCHECK(it->index == vi, "element ", n, " has index ", it->index, ", not ", vi);
        VCHECK(it->position == p, "element ", n, " has position ", it->position, ", not ", p);
        VCHECK(same(*it, m[vi][p]), "element ", n, " (vector ", vi, ", position ", p, ") has type ", it->type, ", expected type ",
            type_of(m[vi][p].k), " value ", m[vi][p].v);
        h = hcomb(h, m[vi][p].k * 1000 + m[vi][p].v);
        VCHECK(!(it == ite), "an iterator at an element equals end()");
        if (r.chance(5))
        {
            saved = it;
            saved_n = n;
            VCHECK(saved == it, "a copied iterator differs");
        }
        if (r.chance(30))
        {
            auto old = it++;
            VCHECK(old->index == vi && old->position == p && same(*old, m[vi][p]), "the iterator before a post-increment");
            VCHECK(!(old == it), "two consecutive positions compare equal");
        }
        else
            ++it;
    }
    VCHECK(n == g.cn * g.en, "the iteration ends after ", n, " of ", g.cn * g.en, " elements");
    for (int k = 0; k < 6 && n; ++k, ++saved, ++saved_n)
    {
        if (saved_n == n)
        {
            VCHECK(saved == ite, "a copied iterator does not arrive at the end");
            break;
        }
        std::size_t vi = g.c0 + saved_n % g.cn, p = g.e0 + saved_n / g.cn;
        VCHECK(saved->index == vi && saved->position == p && same(*saved, m[vi][p]), "a copied iterator continues with another element");
    }
    if (n > 1)
        seen(hcomb(h, hcomb(g.c0 * 100 + g.cn, g.e0 * 1000 + g.en)));
    count("walks");
    count("elements", n);
}

struct Owner
{
    std::vector<std::unique_ptr<V>> own; // addresses do not change
};

C make(Rng& r, Owner& o)
{
    auto collect = [&](auto list) { return C(list.begin(), list.end()); };
    switch (r.below(4))
    {
        case 0:
        {
            op("a collection from pointers");
            std::vector<const V*> p;
            for (auto& v : o.own)
                p.push_back(v.get());
            return collect(p);
        }
        case 1:
        {
            op("a collection from mutable pointers in a list");
            std::list<V*> p;
            for (auto& v : o.own)
                p.push_back(v.get());
            return collect(p);
        }
        case 2:
        {
            op("a collection from shared pointers");
            std::deque<std::shared_ptr<V>> p;
            for (auto& v : o.own)
                p.emplace_back(v.get(), [](V*) {});
            return collect(p);
        }
        default:
            op("a collection from unique pointers");
            return C(o.own.begin(), o.own.end());
    }
}

void fill(Rng& r, V& v, std::vector<Cell>& m)
{
    std::size_t p = 0;
    while (p < m.size())
    {
        std::size_t len = std::min<std::size_t>(1 + r.skewed(20), m.size() - p);
        Cell c{int(r.below(5)), int(r.below(1000))};
        for (std::size_t i = 0; i < len; ++i, ++p)
        {
            c.v = int(r.below(1000));
            m[p] = c;
            put(v, p, c);
        }
    }
}

void run(Rng& r)
{
    std::size_t nv = r.range(1, 8), n = r.pick<std::size_t>({1, 2, 5, 20, 60});
    op("vectors: ", nv, " length: ", n);
    Owner o;
    Model m(nv, std::vector<Cell>(n));
    for (std::size_t i = 0; i < nv; ++i)
    {
        o.own.push_back(std::make_unique<V>(n));
        fill(r, *o.own[i], m[i]);
    }
    // values instead of pointers
    if (r.chance(15))
    {
        std::vector<V> vs;
        for (auto& p : o.own)
            vs.push_back(*p);
        C c(vs.begin(), vs.end());
        walk(r, c, m, {0, nv, 0, n});
    }
    C c = make(r, o);
    Ranges g{0, nv, 0, n};
    walk(r, c, m, g);
    C other;
    walk(r, other, {}, {0, 0, 0, 0});
    int steps = int(r.range(2, 12));
    for (int s = 0; s < steps; ++s)
    {
        switch (r.below(7))
        {
            case 0:
            {
                g.c0 = r.below(nv);
                g.cn = r.range(1, nv - g.c0);
                op("set_collection_range ", g.c0, " ", g.cn);
                c.set_collection_range(g.c0, g.cn);
                break;
            }
            case 1:
            {
                g.e0 = r.below(n);
                g.en = r.range(1, n - g.e0);
                op("set_element_range ", g.e0, " ", g.en);
                c.set_element_range(g.e0, g.en);
                break;
            }
            case 2:
            {
                bool cr = r.chance(50);
                std::size_t lim = cr ? nv : n, a, b;
                switch (r.below(4))
                {
                    case 0:
                        a = lim + r.below(3), b = 1;
                        break;
                    case 1:
                        a = r.below(lim), b = 0;
                        break;
                    case 2:
                        a = r.below(lim), b = lim - a + 1 + r.below(4);
                        break;
                    default:
                        a = r.below(lim), b = std::size_t(-1) - r.below(lim + 3);
                }
                op("invalid range ", cr, " ", a, " ", b);
                bool thrown = false;
                try
                {
                    if (cr)
                        c.set_collection_range(a, b);
                    else
                        c.set_element_range(a, b);
                }
                catch (const mdds::invalid_arg_error&)
                {
                    thrown = true;
                }
                VCHECK(thrown, "an invalid range has to be refused: start ", a, " size ", b, " of ", lim);
                count("refused ranges");
                break;
            }
            case 3:
            {
                std::size_t i = r.below(nv);
                op("modify vector ", i);
                for (int k = 0; k < 4; ++k)
                {
                    std::size_t p = r.below(n);
                    m[i][p] = Cell{int(r.below(5)), int(r.below(1000))};
                    put(*o.own[i], p, m[i][p]);
                }
                break;
            }
            case 4:
            {
                op("swap");
                other.swap(c);
                walk(r, other, m, g);
                walk(r, c, {}, {0, 0, 0, 0});
                c.swap(other);
                break;
            }
            case 5:
            {
                op("copy");
                C d(c);
                walk(r, d, m, g);
                d.set_collection_range(0, 1);
                walk(r, c, m, g);
                Ranges g2 = g;
                g2.c0 = 0, g2.cn = 1;
                walk(r, d, m, g2);
                break;
            }
            default:
            {
                op("mismatching vectors");
                V v(n + 1);
                V e;
                bool first = r.chance(30);
                std::vector<const V*> p;
                if (first)
                    p.push_back(&e);
                for (auto& x : o.own)
                    p.push_back(x.get());
                if (!first)
                    p.push_back(r.chance(50) ? &v : &e);
                bool thrown = false;
                try
                {
                    C bad(p.begin(), p.end());
                }
                catch (const mdds::invalid_arg_error&)
                {
                    thrown = true;
                }
                VCHECK(thrown, "vectors of different lengths have to be refused");
                count("refused vectors");
            }
        }
        walk(r, c, m, g);
    }
}

} // namespace

int main(int argc, char** argv)
{
    return drive(argc, argv, {{"coll", 10, run}});
}
