// sorted_string_map against a linear scan of its entries; delayed_delete_vector against std::vector.
#include "common.hpp"
#include <mdds/sorted_string_map.hpp>
#include <mdds/global.hpp>
#include <mdds/multi_type_vector/types.hpp>
#include <mdds/multi_type_vector/delayed_delete_vector.hpp>

using namespace vh;

namespace {

enum class Color
{
    none,
    red,
    green,
    blue,
    pink
};

template<typename V>
V mkv(int x);
template<>
int mkv<int>(int x)
{
    return x;
}
template<>
Color mkv<Color>(int x)
{
    return Color(x % 5);
}
template<>
std::string mkv<std::string>(int x)
{
    return x == 0 ? std::string() : std::string(std::size_t(x % 30), 'q') + std::to_string(x);
}
template<>
Tracked mkv<Tracked>(int x)
{
    return Tracked(x);
}
template<>
bool mkv<bool>(int x)
{
    return x & 1;
}
template<>
std::int8_t mkv<std::int8_t>(int x)
{
    return std::int8_t(x);
}

struct Never
{
};

template<typename V, template<typename> class Finder>
struct SsmFixture
{
    using map = mdds::sorted_string_map<V, Finder>;
    using entry = typename map::entry_type;
    Rng& r;
    explicit SsmFixture(Rng& r_) : r(r_)
    {}

    std::string key(int style)
    {
        std::string k;
        std::size_t n = r.skewed(style == 3 ? 60 : 6);
        for (std::size_t i = 0; i < n; ++i)
            switch (style)
            {
                case 0:
                    k += char('a' + r.below(2));
                    break;
                case 1:
                    k += char(r.below(3) * 127);
                    break;
                case 2:
                    k += char(r.below(256));
                    break;
                default:
                    k += char('a' + r.below(26));
            }
        return k;
    }

    void run()
    {
        {
            int style = int(r.below(4));
            std::set<std::string> keys;
            int n = int(r.pick({0, 1, 2, 5, 20, 100}));
            for (int i = 0; i < n; ++i)
                keys.insert(key(style));
            std::vector<std::string> sorted(keys.begin(), keys.end());
            int nvals = int(r.pick({3, 1000}));
            std::vector<int> ids;
            std::vector<entry> es;
            for (auto& k : sorted)
            {
                ids.push_back(1 + int(r.below(u64(nvals))));
                es.push_back(entry{k, mkv<V>(ids.back())});
            }
            // the null value may or may not be the value of an entry
            int nullid = r.chance(30) && n ? ids[r.below(ids.size())] : 0;
            op("map of ", sorted.size(), " entries, null value ", nullid);
            map t0(std::span<const entry>(es), mkv<V>(nullid));
            map copy(t0);
            const map& t = r.chance(70) ? t0 : copy;
            VCHECK(t.size() == sorted.size(), "size");
            const std::vector<entry>& ref = es;
            auto probe = [&](const std::string& k) {
                op("find ", jesc(k));
                auto i = keys.find(k);
                const V& got = t.find(std::string_view(k));
                if (i == keys.end())
                {
                    VCHECK(got == mkv<V>(nullid), "find of an absent key '", jesc(k), "' must give the null value");
                    count("absent");
                }
                else
                {
                    auto at = std::size_t(std::distance(keys.begin(), i));
                    VCHECK(&got == &ref[at].value, "find('", jesc(k), "') must give the value of that entry");
                    count("present");
                }
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
                VCHECK(&t.find(k.data(), k.size()) == &got, "both find overloads agree");
#pragma GCC diagnostic pop
            };
            for (auto& k : sorted)
            {
                probe(k);
                std::string x = k;
                x += char(r.below(256));
                probe(x);
                if (!k.empty())
                {
                    probe(k.substr(0, k.size() - 1));
                    x = k;
                    x[r.below(x.size())] = char(r.below(256));
                    probe(x);
                }
            }
            for (int i = 0; i < 20; ++i)
                probe(key(style));
            probe("");
            auto rev = [&](const V& v) {
                std::string_view k = t.find_key(v);
                std::set<std::string> cand;
                for (std::size_t i = 0; i < es.size(); ++i)
                    if (es[i].value == v)
                        cand.insert(sorted[i]);
                if (cand.empty())
                {
                    VCHECK(k.empty() && k.data() == nullptr, "find_key of an absent value must be empty");
                    count("reverse-absent");
                }
                else
                {
                    VCHECK(cand.count(std::string(k)), "find_key returned '", jesc(std::string(k)), "', which has another value");
                    count("reverse-present");
                }
            };
            for (int id : ids)
            {
                op("find_key v", id);
                rev(mkv<V>(id));
            }
            for (int i = 0; i < 10; ++i)
                rev(mkv<V>(int(r.below(u64(nvals + 5)))));
            u64 h = 3;
            for (std::size_t i = 0; i < sorted.size(); ++i)
                h = hcomb(h, hstr(sorted[i]) + u64(ids[i]));
            if (n)
                seen(h);
        }
        expect_no_live("sorted_string_map destroyed");
    }
};

// std::hash for the hash-based finder comes with these value types
void run_ssm(Rng& r)
{
    switch (r.below(6))
    {
        case 0:
            return SsmFixture<int, mdds::ssmap::linear_key_finder>(r).run();
        case 1:
            return SsmFixture<int, mdds::ssmap::hash_key_finder>(r).run();
        case 2:
            return SsmFixture<std::string, mdds::ssmap::hash_key_finder>(r).run();
        case 3:
            return SsmFixture<Color, mdds::ssmap::linear_key_finder>(r).run();
        case 4:
            return SsmFixture<Tracked, mdds::ssmap::linear_key_finder>(r).run();
        default:
            return SsmFixture<Color, mdds::ssmap::hash_key_finder>(r).run();
    }
}

template<typename V>
struct DdvFixture
{
    using vec = mdds::mtv::delayed_delete_vector<V>;
    Rng& r;
    int next = 1;
    explicit DdvFixture(Rng& r_) : r(r_)
    {}

    template<typename T>
    void check(T& t, const std::vector<int>& m, const char* what)
    {
        const T& c = t;
        VCHECK(c.size() == m.size(), what, ": size ", c.size(), " expected ", m.size());
        VCHECK(std::size_t(c.end() - c.begin()) == m.size(), what, ": range of const iterators");
        VCHECK(std::size_t(t.rend() - t.rbegin()) == m.size() && std::size_t(c.rend() - c.rbegin()) == m.size(), what, ": range of reverse iterators");
        auto it = t.begin();
        auto ri = c.rbegin();
        u64 h = m.size();
        for (std::size_t i = 0; i < m.size(); ++i, ++it, ++ri)
        {
            VCHECK(*it == mkv<V>(m[i]), what, ": element ", i);
            VCHECK(c[i] == mkv<V>(m[i]) && t.at(i) == mkv<V>(m[i]) && c.at(i) == mkv<V>(m[i]), what, ": element ", i, " by position");
            VCHECK(*ri == mkv<V>(m[m.size() - 1 - i]), what, ": element ", i, " from the end");
            h = hcomb(h, u64(m[i]));
        }
        bool thrown = false;
        try
        {
            t.at(m.size());
        }
        catch (const std::out_of_range&)
        {
            thrown = true;
        }
        VCHECK(thrown, what, ": at(size()) must throw");
        if constexpr (!std::is_same_v<V, bool>)
            if (!m.empty())
                VCHECK(c.data() == &c[0] && t.data() == &*t.begin(), what, ": data()");
        if (m.size())
            seen(h);
    }

    void step(vec& t, std::vector<int>& m)
    {
        switch (r.below(14))
        {
            case 0:
            case 1:
            case 2:
            {
                int v = next++;
                op("push_back v", v);
                if (r.chance(50))
                {
                    const V x = mkv<V>(v);
                    t.push_back(x);
                }
                else if (r.chance(50))
                    t.push_back(mkv<V>(v));
                else
                    t.emplace_back(mkv<V>(v));
                m.push_back(v);
                break;
            }
            case 3:
            case 4:
            case 5:
            case 6:
                if (!m.empty())
                {
                    std::size_t p = r.chance(75) ? 0 : r.below(m.size());
                    op("erase ", p);
                    auto it = t.erase(t.begin() + std::ptrdiff_t(p));
                    VCHECK(it == t.begin() + std::ptrdiff_t(p), "erase returns the position after the erased element");
                    m.erase(m.begin() + std::ptrdiff_t(p));
                    count(p ? "erase-inner" : "erase-front");
                }
                break;
            case 7:
            {
                std::size_t a = r.below(m.size() + 1), b = a + r.below(m.size() - a + 1);
                op("erase ", a, "..", b);
                auto it = t.erase(t.begin() + std::ptrdiff_t(a), t.begin() + std::ptrdiff_t(b));
                VCHECK(it == t.begin() + std::ptrdiff_t(a), "erase of a range returns the position after it");
                m.erase(m.begin() + std::ptrdiff_t(a), m.begin() + std::ptrdiff_t(b));
                break;
            }
            case 8:
            {
                std::size_t p = r.below(m.size() + 1);
                int v = next++;
                op("insert ", p, " v", v);
                const V x = mkv<V>(v);
                auto it = t.insert(t.begin() + std::ptrdiff_t(p), x);
                VCHECK(it == t.begin() + std::ptrdiff_t(p), "insert returns the position of the new element");
                m.insert(m.begin() + std::ptrdiff_t(p), v);
                break;
            }
            case 9:
            {
                std::size_t p = r.below(m.size() + 1);
                std::vector<V> vs;
                std::vector<int> ids;
                for (int i = int(r.below(4)); i > 0; --i)
                {
                    ids.push_back(next);
                    vs.push_back(mkv<V>(next++));
                }
                op("insert ", p, " ", ids.size(), " values");
                t.insert(t.begin() + std::ptrdiff_t(p), vs.begin(), vs.end());
                m.insert(m.begin() + std::ptrdiff_t(p), ids.begin(), ids.end());
                break;
            }
            case 10:
            {
                std::size_t n = r.below(m.size() + 4);
                op("resize ", n);
                t.resize(n);
                std::size_t old = m.size();
                m.resize(n);
                for (std::size_t i = old; i < n; ++i)
                {
                    m[i] = next++;
                    t[i] = mkv<V>(m[i]);
                }
                break;
            }
            case 11:
                op("reserve/shrink");
                if (r.chance(50))
                {
                    t.reserve(m.size() + 10);
                    VCHECK(t.capacity() >= m.size() + 10, "reserve");
                }
                else
                    t.shrink_to_fit();
                break;
            case 12:
            {
                std::vector<V> vs;
                std::vector<int> ids;
                for (int i = int(r.below(5)); i > 0; --i)
                {
                    ids.push_back(next);
                    vs.push_back(mkv<V>(next++));
                }
                op("assign ", ids.size(), " values");
                t.assign(vs.begin(), vs.end());
                m = ids;
                break;
            }
            default:
                if (!m.empty())
                {
                    std::size_t p = r.below(m.size());
                    m[p] = next++;
                    op("set ", p, " v", m[p]);
                    t[p] = mkv<V>(m[p]);
                }
        }
    }

    void run()
    {
        {
            vec t;
            std::vector<int> m;
            if (r.chance(30))
            {
                t = vec(std::size_t(3), mkv<V>(5));
                m.assign(3, 5);
            }
            check(t, m, "new");
            int steps = int(r.pick({5, 30, 80}));
            for (int s = 0; s < steps; ++s)
            {
                if (!r.chance(12))
                    step(t, m);
                else
                {
                    switch (r.below(4))
                    {
                        case 0:
                        {
                            op("swap");
                            vec o;
                            std::vector<int> om;
                            for (int i = int(r.below(8)); i > 0; --i)
                                step(o, om);
                            o.swap(t);
                            check(o, m, "swapped");
                            check(t, om, "swapped");
                            step(o, m);
                            step(t, om);
                            check(t, om, "used after swap");
                            t.swap(o);
                            break;
                        }
                        case 1:
                        {
                            op("copy");
                            vec c(t);
                            auto cm = m;
                            VCHECK(c == t, "a copy is equal");
                            step(c, cm);
                            check(c, cm, "mutated copy");
                            VCHECK((c == t) == (cm.size() == m.size() && std::equal(c.begin(), c.end(), t.begin())), "equality");
                            c = t;
                            check(c, m, "copy-assigned");
                            break;
                        }
                        case 2:
                        {
                            op("move");
                            vec c(std::move(t));
                            check(c, m, "move-constructed");
                            VCHECK(t.size() == 0, "a moved-from vector is empty, size ", t.size());
                            t.push_back(mkv<V>(3));
                            VCHECK(t.size() == 1 && t[0] == mkv<V>(3), "a moved-from vector can be used");
                            t = std::move(c);
                            break;
                        }
                        default:
                            op("self-swap");
                            t.swap(t);
                    }
                    count("whole-container-ops");
                }
                check(t, m, "after step");
            }
        }
        expect_no_live("delayed_delete_vector destroyed");
    }
};

void run_ddv(Rng& r)
{
    switch (r.below(5))
    {
        case 0:
            return DdvFixture<int>(r).run();
        case 1:
            return DdvFixture<std::string>(r).run();
        case 2:
            return DdvFixture<Tracked>(r).run();
        case 3:
            return DdvFixture<bool>(r).run();
        default:
            return DdvFixture<std::int8_t>(r).run();
    }
}

} // namespace

int main(int argc, char** argv)
{
    return drive(argc, argv, {{"ssm", 1, run_ssm}, {"ddv", 1, run_ddv}});
}
