// Monitor for the position updates of multi_type_vector: with any number of blocks, every loop unrolling factor (scalar, SSE2,
// AVX2) and with OpenMP, every block's position is the sum of the sizes before it.
#include "common.hpp"
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#ifdef _OPENMP
#include <omp.h>
#endif
#ifndef VH_PART
#define VH_PART 0
#endif

using namespace vh;
namespace mtv = mdds::mtv;
using F = mtv::lu_factor_t;

namespace {

template<F Lu>
struct Tr : mtv::standard_element_blocks_traits
{
    static constexpr F loop_unrolling = Lu;
};

template<typename V>
struct Fixture
{
    Rng& r;
    V v;
    // one cell: kind (0 empty, 1 int, 2 double, 3 string) and value
    using Cell = std::pair<int, int>;
    std::vector<Cell> m;

    explicit Fixture(Rng& rr) : r(rr)
    {}

    static std::string str(int i)
    {
        return "s" + std::to_string(i);
    }

    void check(const char* when)
    {
        VCHECK(v.size() == m.size(), when, ": size ", v.size(), " expected ", m.size());
        std::size_t pos = 0, blocks = 0;
        u64 h = 0;
        for (auto it = v.cbegin(); it != v.cend(); ++it, ++blocks)
        {
            VCHECK(pos < m.size(), when, ": blocks go on after the last position");
            std::size_t e = pos;
            while (e < m.size() && m[e].first == m[pos].first)
                ++e;
            VCHECK(it->position == pos, when, ": block ", blocks, " starts at ", it->position, ", the blocks before it end at ", pos);
            VCHECK(it->size == e - pos, when, ": block ", blocks, " has size ", it->size, " expected ", e - pos);
            int k = it->type == mtv::element_type_empty ? 0 : it->type == mtv::element_type_int32 ? 1 : it->type == mtv::element_type_double ? 2 : it->type == mtv::element_type_string ? 3 : -1;
            VCHECK(k == m[pos].first, when, ": type of block ", blocks);
            h = hcomb(h, e - pos);
            pos = e;
        }
        VCHECK(pos == m.size() && blocks == v.block_size(), when, ": ", blocks, " blocks end at ", pos);
        count("blocks-checked", blocks);
        for (int i = 0; i < 8 && !m.empty(); ++i)
        {
            std::size_t p = i == 0 ? m.size() - 1 : r.below(m.size());
            switch (m[p].first)
            {
                case 0:
                    VCHECK(v.is_empty(p), when, ": position ", p, " must be empty");
                    break;
                case 1:
                    VCHECK(v.template get<std::int32_t>(p) == m[p].second, when, ": value at ", p);
                    break;
                case 2:
                    VCHECK(v.template get<double>(p) == m[p].second, when, ": value at ", p);
                    break;
                default:
                    VCHECK(v.template get<std::string>(p) == str(m[p].second), when, ": value at ", p);
            }
        }
        if (blocks > 2)
            seen(hcomb(h, blocks));
    }

    template<typename Fn>
    void with(int kind, std::size_t n, int val, Fn f)
    {
        if (kind == 1)
            f(std::vector<std::int32_t>(n, val));
        else if (kind == 2)
            f(std::vector<double>(n, val));
        else
            f(std::vector<std::string>(n, str(val)));
    }

    void run(const char* name)
    {
        int blocks = r.chance(20) ? int(r.below(6)) : r.chance(80) ? int(r.below(90)) : int(r.below(600));
        op("container: ", name, ", ", blocks, " blocks");
        int last = -1;
        for (int b = 0; b < blocks; ++b)
        {
            int k = int(r.below(4));
            if (k == last)
                k = (k + 1) % 4;
            last = k;
            std::size_t n = r.chance(80) ? 1 : 1 + r.below(4);
            for (std::size_t i = 0; i < n; ++i)
            {
                int val = int(r.below(1000));
                if (k == 0)
                    v.push_back_empty();
                else
                    with(k, 1, val, [&](auto a) { v.push_back(a[0]); });
                m.push_back({k, k ? val : 0});
            }
        }
        check("after building");
        int steps = 2 + int(r.below(10));
        for (int s = 0; s < steps; ++s)
        {
            std::size_t n = m.size();
            // anywhere; at the front, where all blocks move; or near the end, where hardly any does
            std::size_t p = !n ? 0 : r.chance(40) ? r.below(n) : r.chance(60) ? r.below(std::min<std::size_t>(n, 6)) : n - 1 - r.below(std::min<std::size_t>(n, 40));
            std::size_t len = 1 + r.skewed(r.chance(10) ? 70 : 5);
            int kind = 1 + int(r.below(3)), val = int(r.below(1000));
            switch (r.below(n ? 6 : 1))
            {
                case 0:
                    op("push_back kind=", kind);
                    with(kind, 1, val, [&](auto a) { v.push_back(a[0]); });
                    m.push_back({kind, val});
                    break;
                case 1:
                case 2:
                    op("insert pos=", p, " n=", len, " kind=", kind);
                    with(kind, len, val, [&](auto a) { v.insert(p, a.begin(), a.end()); });
                    m.insert(m.begin() + p, len, Cell{kind, val});
                    break;
                case 3:
                    op("insert_empty pos=", p, " n=", len);
                    v.insert_empty(p, len);
                    m.insert(m.begin() + p, len, Cell{0, 0});
                    break;
                case 4:
                {
                    std::size_t e = std::min(n - 1, p + len - 1);
                    op("erase ", p, "..", e);
                    v.erase(p, e);
                    m.erase(m.begin() + p, m.begin() + e + 1);
                    break;
                }
                case 5:
                {
                    std::size_t e = std::min(n - 1, p + len - 1);
                    op("set pos=", p, " n=", e - p + 1, " kind=", kind);
                    with(kind, e - p + 1, val, [&](auto a) { v.set(p, a.begin(), a.end()); });
                    for (std::size_t i = p; i <= e; ++i)
                        m[i] = {kind, val};
                    break;
                }
            }
            check("after step");
            count("position-updates");
        }
        count(std::string("setting-") + name);
    }
};

#define CASE(i, ns, lu)                                                                                                \
    case i:                                                                                                            \
        Fixture<mtv::ns::multi_type_vector<Tr<F::lu>>>(r).run(#ns "-" #lu);                                            \
        break;

void run(Rng& r)
{
#ifdef _OPENMP
    omp_set_num_threads(1 + int(r.below(4)));
#endif
#if VH_PART == 0 && defined(__AVX2__)
    if (!__builtin_cpu_supports("avx2"))
    {
        count("no-avx2-here");
        return;
    }
    switch (r.below(3))
    {
        CASE(0, soa, avx2_x64)
        CASE(1, soa, avx2_x64_lu4)
        CASE(2, soa, avx2_x64_lu8)
    }
#elif VH_PART == 0
    switch (r.below(5))
    {
        CASE(0, soa, none)
        CASE(1, soa, lu4)
        CASE(2, soa, lu8)
        CASE(3, soa, lu16)
        CASE(4, soa, lu32)
    }
#elif VH_PART == 1
    switch (r.below(4))
    {
        CASE(0, soa, sse2_x64)
        CASE(1, soa, sse2_x64_lu4)
        CASE(2, soa, sse2_x64_lu8)
        CASE(3, soa, sse2_x64_lu16)
    }
#else
    switch (r.below(5))
    {
        CASE(0, aos, none)
        CASE(1, aos, lu4)
        CASE(2, aos, lu8)
        CASE(3, aos, lu16)
        CASE(4, aos, lu32)
    }
#endif
}

} // namespace

int main(int argc, char** argv)
{
    return drive(argc, argv, {{"mtv_unroll", 5, run}});
}
