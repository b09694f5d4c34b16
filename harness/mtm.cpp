// multi_type_matrix against a plain table of tagged values.
#include "common.hpp"
#include <deque>
#include <list>
#include <mdds/multi_type_vector/types.hpp>
#include <mdds/multi_type_vector/macro.hpp>
#include <mdds/multi_type_vector/block_funcs.hpp>
#include <mdds/multi_type_vector/standard_element_blocks.hpp>

using namespace vh;
namespace mtv = mdds::mtv;

struct MStr // a string type of the user's own
{
    std::string s;
    MStr() = default;
    MStr(const std::string& x) : s(x)
    {}
    MStr(const char* p, std::size_t n) : s(p, n)
    {}
    bool operator==(const MStr&) const = default;
};
namespace mdds { namespace mtv {
using mstr_block = default_element_block<element_type_user_start, MStr>;
} }
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(MStr, mdds::mtv::element_type_user_start, MStr(), mdds::mtv::mstr_block)

#include <mdds/multi_type_matrix.hpp>

namespace {

#if VH_PART == 0
using Traits = mdds::mtm::std_string_traits;
#elif VH_PART == 1
struct Traits
{
    using integer_element_block = mtv::int64_element_block;
    using string_element_block = mtv::string_element_block;
};
#elif VH_PART == 2
struct Traits
{
    using integer_element_block = mtv::int16_element_block;
    using string_element_block = mtv::mstr_block;
};
#else
struct Traits
{
    using integer_element_block = mtv::int64_element_block;
    using string_element_block = mtv::mstr_block;
};
#endif

using M = mdds::multi_type_matrix<Traits>;
using Str = M::string_type;
using Int = M::integer_type;
using Pos = M::position_type;
using CPos = M::const_position_type;
using SP = M::size_pair_type;
namespace mtm = mdds::mtm;

struct Cell
{
    int k = 0; // 0 empty, 1 boolean, 2 numeric, 3 string, 4 integer
    int v = 0;
    bool operator==(const Cell&) const = default;
};

const std::string& raw(const std::string& s)
{
    return s;
}
[[maybe_unused]] const std::string& raw(const MStr& s)
{
    return s.s;
}

bool vb(int v)
{
    return v & 1;
}
double vd(int v)
{
    switch (v % 7)
    {
        case 0:
            return 0.0;
        case 1:
            return v;
        case 2:
            return -v;
        default:
            return v + 0.25;
    }
}
Str vs(int v)
{
    return Str(v % 5 == 0 ? std::string() : v % 3 ? "s" + std::to_string(v) : "a longer string value " + std::to_string(v));
}
Int vi(int v)
{
    if constexpr (sizeof(Int) == 2)
        return Int(v % 9 == 0 ? 0 : v % 2 ? v : -v);
    else if constexpr (sizeof(Int) == 4)
        return v % 9 == 0 ? 0 : v % 4 == 1 ? std::numeric_limits<Int>::max() - v : v % 4 == 2 ? std::numeric_limits<Int>::min() + v : v;
    else
        return v % 9 == 0 ? 0 : v % 4 == 1 ? (Int(1) << 53) + v * 2 + 1 : v % 4 == 2 ? std::numeric_limits<Int>::min() + v : v;
}

mtm::element_t type_of(int k)
{
    switch (k)
    {
        case 0:
            return mtm::element_empty;
        case 1:
            return mtm::element_boolean;
        case 2:
            return mtm::element_numeric;
        case 3:
            return mtm::element_string;
        default:
            return mtm::element_integer;
    }
}

struct Table
{
    std::size_t rows = 0, cols = 0;
    std::vector<Cell> c; // column by column
    Table() = default;
    Table(std::size_t r, std::size_t n, Cell v = {}) : rows(r), cols(n), c(r * n, v)
    {}
    Cell& at(std::size_t r, std::size_t n)
    {
        return c[n * rows + r];
    }
    Cell at(std::size_t r, std::size_t n) const
    {
        return c[n * rows + r];
    }
    bool operator==(const Table&) const = default;
};

// calls f with a vector of the values of one type
template<typename F>
void with_array(const std::vector<Cell>& a, int k, F f)
{
    auto build = [&]<typename T>(auto fn, std::type_identity<T>) {
        if (a.size() % 3 == 1)
        {
            std::list<T> l;
            for (auto& c : a)
                l.push_back(fn(c.v));
            f(l.begin(), l.end());
        }
        else
        {
            std::vector<T> l;
            for (auto& c : a)
                l.push_back(fn(c.v));
            f(l.begin(), l.end());
        }
    };
    switch (k)
    {
        case 1:
            return build(vb, std::type_identity<bool>());
        case 2:
            return build(vd, std::type_identity<double>());
        case 3:
            return build(vs, std::type_identity<Str>());
        default:
            return build(vi, std::type_identity<Int>());
    }
}

bool elem_is(const M& x, std::size_t r, std::size_t c, Cell m)
{
    switch (m.k)
    {
        case 0:
            return true;
        case 1:
            return x.get<bool>(r, c) == vb(m.v);
        case 2:
            return x.get<double>(r, c) == vd(m.v);
        case 3:
            return x.get<Str>(r, c) == vs(m.v) && x.get_string(r, c) == vs(m.v);
        default:
            return x.get<Int>(r, c) == vi(m.v);
    }
}

double num(Cell m)
{
    return m.k == 1 ? vb(m.v) : m.k == 2 ? vd(m.v) : m.k == 4 ? double(vi(m.v)) : 0.0;
}
Int integer(Cell m)
{
    return m.k == 1 ? Int(vb(m.v)) : m.k == 2 ? Int(vd(m.v)) : m.k == 4 ? vi(m.v) : Int(0);
}
bool boolean(Cell m)
{
    return m.k == 1 ? vb(m.v) : m.k == 2 ? vd(m.v) != 0.0 : m.k == 4 ? vi(m.v) != 0 : false;
}

u64 hash(const Table& m)
{
    u64 h = hcomb(m.rows, m.cols);
    for (auto& c : m.c)
        h = hcomb(h, c.k * 4096 + c.v);
    return h;
}

template<typename F>
bool throws_string(F f)
{
    try
    {
        (void)f();
    }
    catch (const mdds::general_error&)
    {
        return true;
    }
    return false;
}

struct Fixture
{
    Rng& r;
    struct Slot
    {
        std::unique_ptr<M> x;
        Table m;
        bool valid = true;
    };
    std::vector<Slot> s;

    Cell cell(int k = -1)
    {
        return Cell{k < 0 ? int(r.below(5)) : k, int(r.below(200))};
    }
    std::size_t dim()
    {
        return r.pick<std::size_t>({1, 1, 2, 3, 3, 4, 5, 7, 10});
    }

    void set_at(M& x, std::size_t rr, std::size_t c, Cell v)
    {
        switch (v.k)
        {
            case 0:
                return x.set_empty(rr, c);
            case 1:
                return x.set(rr, c, vb(v.v));
            case 2:
                return x.set(rr, c, vd(v.v));
            case 3:
                return x.set(rr, c, vs(v.v));
            default:
                return x.set(rr, c, vi(v.v));
        }
    }
    Pos set_pos(M& x, const Pos& p, Cell v)
    {
        switch (v.k)
        {
            case 0:
                return x.set_empty(p);
            case 1:
                return x.set(p, vb(v.v));
            case 2:
                return x.set(p, vd(v.v));
            case 3:
                return x.set(p, vs(v.v));
            default:
                return x.set(p, vi(v.v));
        }
    }

    void check(const M& x, const Table& m, const char* what)
    {
        auto sz = x.size();
        VCHECK(sz.row == m.rows && sz.column == m.cols, what, ": size is ", sz.row, " x ", sz.column, ", expected ", m.rows, " x ", m.cols);
        VCHECK((sz == SP{m.rows, m.cols}), what, ": size pair");
        VCHECK(x.empty() == (m.rows == 0), what, ": empty()");
        bool numeric = m.rows > 0;
        for (std::size_t c = 0; c < m.cols; ++c)
            for (std::size_t q = 0; q < m.rows; ++q)
            {
                Cell e = m.at(q, c);
                VCHECK(x.get_type(q, c) == type_of(e.k), what, ": type at ", q, ",", c, " is ", x.get_type(q, c), ", expected ", type_of(e.k));
                VCHECK(elem_is(x, q, c, e), what, ": value at ", q, ",", c, ", expected number ", e.v);
                VCHECK(x.get_numeric(q, c) == num(e), what, ": get_numeric at ", q, ",", c);
                VCHECK(x.get_integer(q, c) == integer(e), what, ": get_integer at ", q, ",", c);
                VCHECK(x.get_boolean(q, c) == boolean(e), what, ": get_boolean at ", q, ",", c);
                if (e.k == 0 || e.k == 3)
                    numeric = false;
            }
        VCHECK(x.numeric() == numeric, what, ": numeric()");
        if (m.rows && r.chance(20))
        {
            std::size_t q = r.below(m.rows), c = r.below(m.cols);
            if (m.at(q, c).k != 3)
            {
                VCHECK(throws_string([&] { return x.get_string(q, c); }), what, ": get_string of another type has to throw");
                VCHECK(throws_string([&] { return x.get_string(x.position(q, c)); }), what, ": get_string(position) of another type has to throw");
            }
        }
        if (m.c.size() > 1)
            seen(hash(m));
    }

    M build(const Table& m)
    {
        if (!m.rows)
            return M();
        M x(m.rows, m.cols);
        std::vector<std::size_t> o(m.c.size());
        for (std::size_t i = 0; i < o.size(); ++i)
            o[i] = i;
        for (std::size_t i = o.size(); i > 1; --i)
            std::swap(o[i - 1], o[r.below(i)]);
        for (auto i : o)
            if (m.c[i].k)
                set_at(x, i % m.rows, i / m.rows, m.c[i]);
        return x;
    }

    void check_eq(const M& x, const Table& m)
    {
        M y = build(m);
        VCHECK(x == y && y == x, "a matrix with the same elements is not equal");
        if (!m.rows)
            return;
        Table d = m;
        std::size_t i = r.below(d.c.size());
        Cell old = d.c[i];
        d.c[i].k = (old.k + 1 + int(r.below(4))) % 5;
        M z = build(d);
        VCHECK(!(x == z) && x != z, "a matrix with another type at one position is equal");
        if (m.rows != m.cols)
        {
            Table t(m.cols, m.rows);
            t.c = m.c;
            M w = build(t);
            VCHECK(!(x == w), "a matrix of another shape is equal");
        }
        count("equality");
    }

    Table random_table()
    {
        Table m(dim(), dim());
        std::size_t p = 0;
        while (p < m.c.size())
        {
            int k = int(r.below(5));
            std::size_t n = std::min<std::size_t>(m.c.size() - p, 1 + r.skewed(12));
            for (; n; --n)
                m.c[p++] = cell(k);
        }
        return m;
    }

    void construct(Slot& t)
    {
        switch (r.below(5))
        {
            case 0:
                op("default constructor");
                t.x = std::make_unique<M>();
                t.m = Table();
                break;
            case 1:
            {
                t.m = Table(dim(), dim());
                op("new ", t.m.rows, " x ", t.m.cols);
                t.x = std::make_unique<M>(t.m.rows, t.m.cols);
                break;
            }
            case 2:
            {
                Cell v = cell(int(r.range(1, 4)));
                t.m = Table(dim(), dim(), v);
                op("new ", t.m.rows, " x ", t.m.cols, " of value ", v.k, ":", v.v);
                switch (v.k)
                {
                    case 1:
                        t.x = std::make_unique<M>(t.m.rows, t.m.cols, vb(v.v));
                        break;
                    case 2:
                        t.x = std::make_unique<M>(t.m.rows, t.m.cols, vd(v.v));
                        break;
                    case 3:
                        t.x = std::make_unique<M>(t.m.rows, t.m.cols, vs(v.v));
                        break;
                    default:
                        t.x = std::make_unique<M>(t.m.rows, t.m.cols, vi(v.v));
                }
                break;
            }
            case 3:
            {
                int k = int(r.range(1, 4));
                Table m(dim(), dim());
                for (auto& c : m.c)
                    c = cell(k);
                op("new ", m.rows, " x ", m.cols, " from values of type ", k);
                with_array(m.c, k, [&](auto b, auto e) { t.x = std::make_unique<M>(m.rows, m.cols, b, e); });
                t.m = m;
                std::vector<Cell> wrong(m.c.size() + (r.chance(50) || m.c.size() < 2 ? 1 : -1), m.c[0]);
                bool thrown = false;
                with_array(wrong, k, [&](auto b, auto e) {
                    try
                    {
                        M bad(m.rows, m.cols, b, e);
                    }
                    catch (const mdds::invalid_arg_error&)
                    {
                        thrown = true;
                    }
                });
                VCHECK(thrown, "a wrong number of initial values has to be refused");
                break;
            }
            default:
            {
                Table m = random_table();
                op("new ", m.rows, " x ", m.cols, " set element by element");
                t.x = std::make_unique<M>(build(m));
                t.m = m;
            }
        }
        t.valid = true;
        check(*t.x, t.m, "new");
    }

    // positions from start on, in column-major order
    void write(Table& m, std::size_t start, const std::vector<Cell>& a)
    {
        for (std::size_t i = 0; i < a.size(); ++i)
            m.c[start + i] = a[i];
    }

    void step(Slot& t)
    {
        M& x = *t.x;
        Table& m = t.m;
        if (!m.rows)
        {
            if (r.chance(50))
                return construct(t);
            switch (r.below(4))
            {
                case 0:
                    op("clear an empty matrix");
                    x.clear();
                    break;
                case 1:
                    op("transpose an empty matrix");
                    x.transpose();
                    break;
                case 2:
                    op("copy between empty matrices");
                    x.copy(M());
                    x.copy(M(2, 2, 1.5));
                    break;
                default:
                    resize(t);
            }
            return check(x, m, "after step");
        }
        std::size_t n = m.c.size(), p = r.below(n), q = p % m.rows, c = p / m.rows;
        switch (r.below(16))
        {
            case 0:
            case 1:
            {
                Cell v = cell();
                op("set ", q, ",", c, " to ", v.k, ":", v.v);
                set_at(x, q, c, v);
                m.c[p] = v;
                break;
            }
            case 2:
            case 3:
            {
                // a walk of updates by position objects
                Pos pos = r.chance(50) ? x.position(q, c) : x.position(x.position(r.below(m.rows), r.below(m.cols)), q, c);
                int k = int(r.range(1, 8));
                for (int i = 0; i < k; ++i)
                {
                    Cell v = cell();
                    op("set(position) ", p % m.rows, ",", p / m.rows, " to ", v.k, ":", v.v);
                    pos = set_pos(x, pos, v);
                    m.c[p] = v;
                    auto mp = x.matrix_position(pos);
                    VCHECK(mp.row == p % m.rows && mp.column == p / m.rows, "the returned position is ", mp.row, ",", mp.column);
                    VCHECK(x.get_type(pos) == type_of(v.k), "the type at the returned position");
                    if (r.chance(50))
                    {
                        pos = M::next_position(pos);
                        if (++p >= n)
                        {
                            VCHECK(pos == x.end_position(), "next_position() of the last element");
                            break;
                        }
                    }
                    else
                    {
                        p = r.below(n);
                        pos = x.position(pos, p % m.rows, p / m.rows);
                    }
                }
                break;
            }
            case 4:
            case 5:
            {
                int k = int(r.range(1, 4));
                std::vector<Cell> a(1 + r.skewed(n - p - 1));
                for (auto& v : a)
                    v = cell(k);
                bool by_pos = r.chance(50);
                op("set ", a.size(), " values of type ", k, " from ", q, ",", c, by_pos ? " by position" : "");
                with_array(a, k, [&](auto b, auto e) {
                    if (by_pos)
                    {
                        Pos pos = x.set(x.position(q, c), b, e);
                        auto mp = x.matrix_position(pos);
                        VCHECK(mp.row == q && mp.column == c, "the returned position is ", mp.row, ",", mp.column);
                    }
                    else
                        x.set(q, c, b, e);
                });
                write(m, p, a);
                break;
            }
            case 6:
            {
                int k = int(r.range(1, 4));
                std::vector<Cell> a(r.range(1, m.rows + 3));
                for (auto& v : a)
                    v = cell(k);
                op("set_column ", c, " to ", a.size(), " values of type ", k);
                with_array(a, k, [&](auto b, auto e) { x.set_column(c, b, e); });
                a.resize(std::min(a.size(), m.rows));
                write(m, c * m.rows, a);
                break;
            }
            case 7:
            {
                std::size_t len = r.range(1, n - p);
                op("set_empty ", q, ",", c, " length ", len);
                x.set_empty(q, c, len);
                write(m, p, std::vector<Cell>(len));
                break;
            }
            case 8:
                if (r.chance(50))
                {
                    op("set_column_empty ", c);
                    x.set_column_empty(c);
                    write(m, c * m.rows, std::vector<Cell>(m.rows));
                }
                else
                {
                    op("set_row_empty ", q);
                    x.set_row_empty(q);
                    for (std::size_t i = 0; i < m.cols; ++i)
                        m.at(q, i) = Cell();
                }
                break;
            case 9:
            {
                op("transpose");
                M& ret = x.transpose();
                VCHECK(&ret == &x, "transpose() returns the matrix");
                Table o(m.cols, m.rows);
                for (std::size_t i = 0; i < m.rows; ++i)
                    for (std::size_t j = 0; j < m.cols; ++j)
                        o.at(j, i) = m.at(i, j);
                m = o;
                break;
            }
            case 10:
            {
                Slot& u = s[r.below(s.size())];
                if (!u.valid)
                    break;
                op("copy from a ", u.m.rows, " x ", u.m.cols, " matrix into ", m.rows, " x ", m.cols);
                x.copy(*u.x);
                for (std::size_t j = 0; j < std::min(m.cols, u.m.cols); ++j)
                    for (std::size_t i = 0; i < std::min(m.rows, u.m.rows); ++i)
                        m.at(i, j) = u.m.at(i, j);
                count("copy(matrix)");
                break;
            }
            case 11:
            {
                int k = int(r.range(1, 4));
                std::size_t rr = r.range(1, m.rows), cc = r.range(1, m.cols);
                bool bad_count = false, bad_size = false;
                std::size_t len = rr * cc;
                if (r.chance(20))
                {
                    bad_count = true;
                    len += r.chance(50) || len < 2 ? 1 : -1;
                }
                else if (r.chance(20))
                {
                    bad_size = true;
                    if (r.chance(50))
                        rr = m.rows + 1;
                    else
                        cc = m.cols + 1;
                    len = rr * cc;
                }
                std::vector<Cell> a(len);
                for (auto& v : a)
                    v = cell(k);
                op("copy ", len, " values of type ", k, " to ", rr, " x ", cc);
                bool thrown = false;
                with_array(a, k, [&](auto b, auto e) {
                    try
                    {
                        x.copy(rr, cc, b, e);
                    }
                    catch (const mdds::size_error&)
                    {
                        thrown = true;
                    }
                });
                VCHECK(thrown == (bad_count || bad_size), "copy() of an array refused: ", thrown);
                if (!thrown)
                    for (std::size_t i = 0; i < len; ++i)
                        m.at(i % rr, i / rr) = a[i];
                break;
            }
            case 12:
            case 13:
                resize(t);
                break;
            case 14:
                refused(t);
                break;
            default:
                if (r.chance(20))
                {
                    op("clear");
                    x.clear();
                    m = Table();
                }
        }
        check(x, m, "after step");
    }

    void resize(Slot& t)
    {
        M& x = *t.x;
        std::size_t rr = r.chance(5) ? 0 : dim(), cc = r.chance(5) ? 0 : dim();
        Cell v = r.chance(50) ? Cell() : cell(int(r.range(1, 4)));
        op("resize to ", rr, " x ", cc, " value ", v.k, ":", v.v);
        switch (v.k)
        {
            case 0:
                x.resize(rr, cc);
                break;
            case 1:
                x.resize(rr, cc, vb(v.v));
                break;
            case 2:
                x.resize(rr, cc, vd(v.v));
                break;
            case 3:
                x.resize(rr, cc, vs(v.v));
                break;
            default:
                x.resize(rr, cc, vi(v.v));
        }
        if (!rr || !cc)
            rr = cc = 0;
        Table o(rr, cc, v);
        for (std::size_t j = 0; j < std::min(cc, t.m.cols); ++j)
            for (std::size_t i = 0; i < std::min(rr, t.m.rows); ++i)
                o.at(i, j) = t.m.at(i, j);
        t.m = o;
        count("resize");
    }

    void refused(Slot& t)
    {
        M& x = *t.x;
        Table& m = t.m;
        bool oor = false;
        std::size_t q = r.below(m.rows + 2), c = m.cols + r.below(3);
        int kind = int(r.below(7));
        Cell v = cell();
        std::vector<Cell> a;
        int k = int(r.range(1, 4));
        op("an access outside of the matrix: ", kind, " at ", q, ",", c);
        try
        {
            switch (kind)
            {
                case 0:
                    set_at(x, q, c, v);
                    break;
                case 1:
                {
                    q = r.below(m.rows), c = r.below(m.cols);
                    std::size_t left = m.c.size() - (c * m.rows + q);
                    x.set_empty(q, c, left + 1 + r.below(3));
                    break;
                }
                case 2:
                    (void)x.get_type(q, c);
                    break;
                case 3:
                    (void)x.get<double>(q, c);
                    break;
                case 4:
                    x.set_column_empty(c);
                    break;
                case 5:
                    a.assign(r.range(1, 4), cell(k));
                    with_array(a, k, [&](auto b, auto e) { x.set(q, c, b, e); });
                    break;
                default:
                    q = r.below(m.rows), c = r.below(m.cols);
                    a.assign(m.c.size() - (c * m.rows + q) + 1 + r.below(3), cell(k));
                    with_array(a, k, [&](auto b, auto e) { x.set(q, c, b, e); });
            }
        }
        catch (const std::out_of_range&)
        {
            oor = true;
        }
        VCHECK(oor, "an access outside of the matrix has to throw out_of_range");
        bool ge = false;
        try
        {
            x.set_empty(0, 0, 0);
        }
        catch (const mdds::general_error&)
        {
            ge = true;
        }
        VCHECK(ge, "set_empty() with length 0 has to be refused");
        count("refused");
    }

    void whole(Slot& t)
    {
        Slot& u = s[r.below(s.size())];
        switch (r.below(6))
        {
            case 0:
                if (!t.valid || !u.valid)
                    break;
                op("swap");
                t.x->swap(*u.x);
                if (&t != &u)
                    std::swap(t.m, u.m);
                break;
            case 1:
                if (!u.valid)
                    break;
                op("copy-assign");
                *t.x = *u.x;
                t.m = u.m;
                t.valid = true;
                break;
            case 2:
                if (!u.valid || &t == &u)
                    break;
                op("copy-construct");
                t.x = std::make_unique<M>(*u.x);
                t.m = u.m;
                t.valid = true;
                break;
            case 3:
                if (!u.valid || &t == &u)
                    break;
                op("move-assign");
                *t.x = std::move(*u.x);
                t.m = u.m;
                t.valid = true;
                u.valid = false;
                break;
            case 4:
                if (!u.valid || &t == &u)
                    break;
                op("move-construct");
                t.x = std::make_unique<M>(std::move(*u.x));
                t.m = u.m;
                t.valid = true;
                u.valid = false;
                break;
            default:
                if (t.valid)
                {
                    op("self-assign");
                    M& y = *t.x;
                    *t.x = y;
                    t.x->copy(y);
                }
        }
    }

    void check_all()
    {
        for (auto& t : s)
            if (t.valid)
                check(*t.x, t.m, "matrix");
    }

    void start()
    {
        s.resize(r.range(1, 3));
        for (auto& t : s)
            construct(t);
    }

    void pick_step()
    {
        Slot& t = s[r.below(s.size())];
        if (!t.valid)
        {
            // a moved-from matrix can be given a new content
            op("clear a moved-from matrix");
            t.x->clear();
            t.m = Table();
            t.valid = true;
        }
        if (r.chance(12))
            whole(t);
        else
            step(t);
    }

    void run()
    {
        start();
        int n = int(r.range(3, 30));
        for (int i = 0; i < n; ++i)
        {
            pick_step();
            check_all();
            if (r.chance(10))
            {
                Slot& t = s[r.below(s.size())];
                if (t.valid)
                    check_eq(*t.x, t.m);
            }
        }
    }

    // ------------------------------------------------------------ walks and positions
    // compares one walked node with the expected cells; returns their number
    static void node_is(const M::element_block_node_type& n, const std::vector<Cell>& e, std::size_t from)
    {
        VCHECK(n.size > 0, "a walk reports a block of size 0");
        VCHECK(from + n.size <= e.size(), "a walk goes beyond its range: ", from, " + ", n.size, " of ", e.size());
        for (std::size_t i = 0; i < n.size; ++i)
            VCHECK(n.type == type_of(e[from + i].k), "a walked block of type ", n.type, " covers an element of type ", type_of(e[from + i].k));
        std::size_t i = 0;
        auto each = [&](auto b, auto end, auto fn) {
            for (; b != end; ++b, ++i)
                VCHECK(i < n.size && *b == fn(e[from + i].v), "element ", i, " of a walked block of ", n.size, " differs");
            VCHECK(i == n.size, "a walked block has ", i, " elements, not ", n.size);
        };
        switch (n.type)
        {
            case mtm::element_empty:
                VCHECK(!n.data, "an empty block has data");
                break;
            case mtm::element_boolean:
                each(n.begin<M::boolean_block_type>(), n.end<M::boolean_block_type>(), vb);
                break;
            case mtm::element_numeric:
                each(n.begin<M::numeric_block_type>(), n.end<M::numeric_block_type>(), vd);
                break;
            case mtm::element_string:
                each(n.begin<M::string_block_type>(), n.end<M::string_block_type>(), vs);
                break;
            default:
                each(n.begin<M::integer_block_type>(), n.end<M::integer_block_type>(), vi);
        }
        count("walked blocks");
    }

    static std::vector<Cell> region(const Table& m, SP a, SP b)
    {
        std::vector<Cell> e;
        for (std::size_t j = a.column; j <= b.column; ++j)
            for (std::size_t i = a.row; i <= b.row; ++i)
                e.push_back(m.at(i, j));
        return e;
    }

    struct One
    {
        const std::vector<Cell>* e;
        std::size_t n = 0;
        void operator()(const M::element_block_node_type& d)
        {
            node_is(d, *e, n);
            n += d.size;
        }
    };
    struct Two
    {
        const std::vector<Cell>* e1;
        const std::vector<Cell>* e2;
        std::size_t n = 0;
        void operator()(const M::element_block_node_type& a, const M::element_block_node_type& b)
        {
            VCHECK(a.size == b.size, "two blocks of a parallel walk have sizes ", a.size, " and ", b.size);
            node_is(a, *e1, n);
            node_is(b, *e2, n);
            n += a.size;
        }
    };

    template<typename F>
    void refuse(const char* what, F f)
    {
        bool thrown = false;
        try
        {
            f();
        }
        catch (const mdds::size_error&)
        {
            thrown = true;
        }
        VCHECK(thrown, what, " has to be refused");
        count("walk.refused");
    }

    void positions(M& x, const Table& m)
    {
        const M& cx = x;
        Pos p = m.rows ? x.position(0, 0) : x.end_position();
        CPos cp = m.rows ? cx.position(0, 0) : cx.end_position();
        for (std::size_t i = 0; i < m.c.size(); ++i)
        {
            std::size_t q = i % m.rows, c = i / m.rows;
            Cell e = m.c[i];
            VCHECK(p != x.end_position() && cp != cx.end_position(), "the end position comes early");
            auto a = x.matrix_position(p), b = cx.matrix_position(cp);
            VCHECK(a.row == q && a.column == c && b == a, "next_position() arrives at ", a.row, ",", a.column, ", not at ", q, ",", c);
            std::size_t hq = r.below(m.rows), hc = r.below(m.cols);
            CPos y = r.chance(50) ? cx.position(q, c) : cx.position(cx.position(hq, hc), q, c);
            Pos z = r.chance(50) ? x.position(q, c) : x.position(x.position(hq, hc), q, c);
            VCHECK(y == cp && z == p, "position() of ", q, ",", c);
            VCHECK(cx.get_type(y) == type_of(e.k) && cx.get_numeric(y) == num(e) && cx.get_integer(y) == integer(e) && cx.get_boolean(y) == boolean(e),
                "values by position at ", q, ",", c);
            if (e.k == 3)
                VCHECK(cx.get_string(y) == vs(e.v) && raw(cx.get_string(z)) == raw(vs(e.v)), "string by position at ", q, ",", c);
            p = M::next_position(p);
            cp = M::next_position(cp);
        }
        VCHECK(p == x.end_position() && cp == cx.end_position(), "next_position() of the last element has to be the end position");
        count("positions", m.c.size());
    }

    SP corner(const Table& m)
    {
        return SP(r.below(m.rows), r.below(m.cols));
    }

    void walks(const M& x, const Table& m, const M& y, const Table& o)
    {
        if (r.chance(50))
        {
            One f = x.walk(One{&m.c});
            VCHECK(f.n == m.c.size(), "walk() covers ", f.n, " of ", m.c.size());
        }
        if (m.rows == o.rows && m.cols == o.cols)
        {
            Two f = x.walk(Two{&m.c, &o.c}, y);
            VCHECK(f.n == m.c.size(), "parallel walk() covers ", f.n, " of ", m.c.size());
            count("walk.parallel");
        }
        else
        {
            Two f{&m.c, &o.c};
            refuse("a parallel walk of different sizes", [&] { x.walk(f, y); });
        }
        if (!m.rows)
        {
            std::vector<Cell> none;
            refuse("a walk from 0,0 in an empty matrix", [&] { x.walk(One{&none}, SP(0, 0), SP(0, 0)); });
            return;
        }
        for (int k = 0; k < 4; ++k)
        {
            SP a = corner(m), b = corner(m);
            if (a.row > b.row)
                std::swap(a.row, b.row);
            if (a.column > b.column)
                std::swap(a.column, b.column);
            op("walk ", a.row, ",", a.column, " to ", b.row, ",", b.column, " of ", m.rows, " x ", m.cols);
            auto e = region(m, a, b);
            One f = x.walk(One{&e}, a, b);
            VCHECK(f.n == e.size(), "walk() of a range covers ", f.n, " of ", e.size());
            count("walk.range");
            if (o.rows > b.row && o.cols > b.column)
            {
                auto e2 = region(o, a, b);
                Two g = x.walk(Two{&e, &e2}, y, a, b);
                VCHECK(g.n == e.size(), "parallel walk() of a range covers ", g.n, " of ", e.size());
                count("walk.range.parallel");
            }
            else if (o.rows)
            {
                std::vector<Cell> none;
                refuse("a parallel walk beyond the other matrix", [&] { x.walk(Two{&none, &none}, y, a, b); });
            }
            std::vector<Cell> none;
            SP c = b;
            if (r.chance(50))
                c.row = m.rows + r.below(2);
            else
                c.column = m.cols + r.below(2);
            refuse("a walk beyond the matrix", [&] { x.walk(One{&none}, a, c); });
            refuse("a parallel walk beyond the matrix", [&] { x.walk(Two{&none, &none}, x, a, c); });
            if (a.row != b.row || a.column != b.column)
            {
                refuse("a walk from lower right to upper left", [&] { x.walk(One{&none}, b, a); });
                refuse("a parallel walk from lower right to upper left", [&] { x.walk(Two{&none, &none}, x, b, a); });
            }
        }
    }

    void run_walk()
    {
        start();
        int n = int(r.range(1, 8));
        for (int i = 0; i < n; ++i)
        {
            for (int k = int(r.range(1, 5)); k; --k)
                pick_step();
            Slot& t = s[r.below(s.size())];
            Slot& u = s[r.below(s.size())];
            if (!t.valid || !u.valid)
                continue;
            positions(*t.x, t.m);
            walks(*t.x, t.m, *u.x, u.m);
            if (t.m.rows)
            {
                Table o = random_table();
                if (r.chance(70))
                {
                    o = t.m;
                    for (auto& c : o.c)
                        if (r.chance(40))
                            c = cell();
                }
                M y = build(o);
                walks(*t.x, t.m, y, o);
            }
            check_all();
        }
    }
};

} // namespace

int main(int argc, char** argv)
{
    return drive(argc, argv, {
        {"mtm_content", 10, [](Rng& r) { Fixture{r, {}}.run(); }},
        {"mtm_walk", 10, [](Rng& r) { Fixture{r, {}}.run_walk(); }},
    });
}
