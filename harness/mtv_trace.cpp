// Monitor for the method tracing of multi_type_vector (SoA): every public call is reported exactly once, with the
// right method, kind, instance and arguments; nested calls are not; and tracing changes nothing.
#define MDDS_MULTI_TYPE_VECTOR_TRACE 1
#include "common.hpp"
#include <mdds/multi_type_vector/soa/main.hpp>
#include <optional>
#include <typeinfo>

using namespace vh;
namespace mtv = mdds::mtv;

namespace {

struct Rec
{
    mtv::trace_method_t type;
    const void* inst;
    std::string name, args;
    bool place; // has a file and a line
};

struct Log
{
    std::vector<Rec> recs;
    std::set<const void*> alive;
    bool muted = false;
    static Log& get()
    {
        static Log l;
        return l;
    }
    void put(const mtv::trace_method_properties_t& p)
    {
        if (muted)
            return;
        VCHECK(p.function_name && *p.function_name, "a trace record without a function name");
        if (p.type == mtv::trace_method_t::constructor)
            VCHECK(alive.insert(p.instance).second, "constructor reported for an instance that already lives");
        else
            VCHECK(alive.count(p.instance), p.function_name, " reported for an instance that does not live");
        if (p.type == mtv::trace_method_t::destructor)
            alive.erase(p.instance);
        recs.push_back({p.type, p.instance, p.function_name, p.function_args, p.filepath && *p.filepath && p.line_number > 0});
        count("trace-records");
    }
};

template<bool Cow>
struct Base : mtv::standard_element_blocks_traits
{
    static constexpr bool enable_cow = Cow;
};
template<bool Cow>
struct Traced : Base<Cow>
{
    static void trace(const mtv::trace_method_properties_t& p)
    {
        Log::get().put(p);
    }
};
template<bool Cow>
struct Silent : Base<Cow>
{};

using mt = mtv::trace_method_t;

template<bool Cow>
struct Fixture
{
    static constexpr int N = 3;
    using TV = mtv::soa::multi_type_vector<Traced<Cow>>;
    using SV = mtv::soa::multi_type_vector<Silent<Cow>>;

    Rng& r;
    std::unique_ptr<TV> a[N];
    std::unique_ptr<SV> b[N];

    explicit Fixture(Rng& rr) : r(rr)
    {}

    struct Arg
    {
        const char* name; // name fixed by the documentation, or nullptr
        std::size_t val;
    };

    // Splits "x=1; y=2" on the top level (iterators print as a parenthesised list).
    static std::vector<std::pair<std::string, std::string>> parse(const std::string& s)
    {
        std::vector<std::pair<std::string, std::string>> out;
        std::size_t i = 0;
        int depth = 0;
        std::string cur;
        auto flush = [&] {
            if (cur.empty())
                return;
            auto e = cur.find('=');
            out.emplace_back(cur.substr(0, e), e == std::string::npos ? "" : cur.substr(e + 1));
            cur.clear();
        };
        for (; i < s.size(); ++i)
        {
            if (s[i] == '(' || s[i] == '{')
                ++depth;
            if (s[i] == ')' || s[i] == '}')
                --depth;
            if (!depth && s.compare(i, 2, "; ") == 0)
            {
                flush();
                ++i;
                continue;
            }
            cur += s[i];
        }
        flush();
        return out;
    }

    struct Outcome
    {
        u64 h = 0;
        bool operator==(const Outcome&) const = default;
    };

    template<typename F>
    static Outcome guarded(F f)
    {
        try
        {
            return {f()};
        }
        catch (const std::exception& e)
        {
            return {hcomb(0xdead, hstr(typeid(e).name()))};
        }
    }

    template<typename V>
    static u64 hash(const V& v)
    {
        Log::get().muted = true;
        u64 h = hcomb(v.size(), v.block_size());
        for (auto it = v.cbegin(); it != v.cend(); ++it)
            h = hcomb(hcomb(h, it->position), hcomb(it->size, u64(it->type)));
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            switch (v.get_type(i))
            {
                case mtv::element_type_int32:
                    h = hcomb(h, v.template get<std::int32_t>(i));
                    break;
                case mtv::element_type_double:
                    h = hcomb(h, u64(v.template get<double>(i) * 16));
                    break;
                case mtv::element_type_string:
                    h = hcomb(h, hstr(v.template get<std::string>(i)));
                    break;
                default:
                    h = hcomb(h, 7);
            }
        }
        Log::get().muted = false;
        return h;
    }

    // Runs f on the traced and on the silent vector; f must make exactly one public call of the given instance.
    template<typename F>
    void call(int i, const char* name, mt type, std::size_t nargs, std::vector<Arg> args, F f)
    {
        Log& l = Log::get();
        op(i, ": ", name, " ", [&] { std::string s; for (auto& x : args) s += std::to_string(x.val) + " "; return s; }());
        l.recs.clear();
        const void* inst = a[i].get();
        Outcome oa = guarded([&] { return f(*a[i], a); });
        check(inst, name, type, nargs, args);
        Outcome ob = guarded([&] { return f(*b[i], b); });
        VCHECK(oa == ob, name, ": the outcome differs between a traced and an untraced vector");
        count(std::string("call.") + name);
    }

    void check(const void* inst, const std::string& name, mt type, std::size_t nargs, const std::vector<Arg>& args)
    {
        auto& recs = Log::get().recs;
        VCHECK(!recs.empty(), name, ": the call is not reported");
        const Rec& x = recs[0];
        VCHECK(x.inst == inst, name, ": reported for another instance");
        VCHECK(x.name == name, name, ": reported as ", x.name);
        VCHECK(x.type == type, name, ": reported as a method of kind ", int(x.type), " instead of ", int(type));
        VCHECK(x.place, name, ": reported without its place");
        std::size_t mine = std::count_if(recs.begin(), recs.end(), [&](const Rec& y) { return y.inst == inst; });
        VCHECK(mine == 1, name, ": one call is reported ", mine, " times");
        auto got = parse(x.args);
        VCHECK(got.size() >= nargs, name, ": ", got.size(), " arguments reported instead of at least ", nargs, ": ", x.args);
        for (const Arg& w : args)
        {
            bool hit = std::any_of(got.begin(), got.end(), [&](auto& g) {
                return g.second == std::to_string(w.val) && (!w.name || g.first == w.name);
            });
            VCHECK(hit, name, ": argument value ", w.val, " is not reported: ", x.args);
        }
        seen(hcomb(hstr(name), hcomb(u64(type), hstr(x.args))));
    }

    void compare()
    {
        for (int i = 0; i < N; ++i)
            VCHECK(hash(*a[i]) == hash(*b[i]), "the content of vector ", i, " differs with and without tracing");
    }

    // construct vector i anew
    template<typename Mk>
    void construct(int i, std::size_t nargs, std::vector<Arg> args, Mk mk)
    {
        Log& l = Log::get();
        op(i, ": construct");
        if (a[i])
        {
            const void* old = a[i].get();
            l.recs.clear();
            a[i].reset();
            check(old, "~multi_type_vector", mt::destructor, 0, {});
            count("call.~multi_type_vector");
        }
        b[i].reset();
        l.recs.clear();
        a[i] = mk(std::type_identity<TV>(), a);
        check(a[i].get(), "multi_type_vector", mt::constructor, nargs, args);
        b[i] = mk(std::type_identity<SV>(), b);
        count("call.multi_type_vector");
    }

    void construct_any(int i)
    {
        std::size_t n = r.skewed(40);
        int j = (i + 1) % N;
        switch (a[j] ? r.below(7) : r.below(4))
        {
            case 0:
                construct(i, 0, {}, []<typename V>(std::type_identity<V>, auto&) { return std::make_unique<V>(); });
                break;
            case 1:
                construct(i, 1, {{"init_size", n}}, [&]<typename V>(std::type_identity<V>, auto&) { return std::make_unique<V>(n); });
                break;
            case 2:
                construct(i, 2, {{"init_size", n}}, [&]<typename V>(std::type_identity<V>, auto&) {
                    return std::make_unique<V>(n, std::string("s"));
                });
                break;
            case 3:
            {
                std::vector<double> vals(n, 1.5);
                construct(i, 3, {{"init_size", n}}, [&]<typename V>(std::type_identity<V>, auto&) {
                    return std::make_unique<V>(n, vals.begin(), vals.end());
                });
                break;
            }
            case 4:
                construct(i, 1, {}, [&]<typename V>(std::type_identity<V>, auto& w) { return std::make_unique<V>(*w[j]); });
                break;
            case 5:
            {
                bool mv = r.chance(50);
                construct(i, 1, {}, [&]<typename V>(std::type_identity<V>, auto&) {
                    typename V::event_func e;
                    return mv ? std::make_unique<V>(std::move(e)) : std::make_unique<V>(e);
                });
                break;
            }
            case 6:
                construct(i, 1, {}, [&]<typename V>(std::type_identity<V>, auto& w) {
                    auto p = std::make_unique<V>(std::move(*w[j]));
                    return p;
                });
                // the moved-from one starts over
                construct(j, 0, {}, []<typename V>(std::type_identity<V>, auto&) { return std::make_unique<V>(); });
                break;
        }
    }

    // A hint that is valid right now, obtained without being recorded.
    template<typename V>
    static auto hint(V& v, std::size_t k)
    {
        Log& l = Log::get();
        l.muted = true;
        struct Un
        {
            ~Un()
            {
                Log::get().muted = false;
            }
        } un;
        if constexpr (Cow)
        {
            // the only source of iterators is a mutation that changes nothing here
            return v.release_range(0, 0);
        }
        else
        {
            auto it = v.begin();
            for (k = v.block_size() ? k % v.block_size() : 0; k; --k)
                ++it;
            return it;
        }
    }

    void value_step(int i)
    {
        std::size_t n = a_size(i);
        std::size_t p = n && !r.chance(8) ? r.below(n) : n + r.below(3);
        std::size_t len = 1 + r.below(5), k = r.below(50);
        int kind = int(r.below(3));
        auto with = [&](auto f) {
            if (kind == 0)
                f(std::int32_t(r.below(50)));
            else if (kind == 1)
                f(double(r.below(50)) / 4);
            else
                f(std::string(r.below(30), 'q'));
        };
        bool h = n && r.chance(40) && (!Cow);
        with([&](auto val) {
            using T = decltype(val);
            std::vector<T> vals(len, val);
            switch (r.below(6))
            {
                case 0:
                    if (h)
                        call(i, "set", mt::mutator_with_pos_hint, 3, {{"pos", p}}, [&](auto& v, auto&) {
                            auto it = hint(v, k);
                            return iter2(v, v.set(it, p, val));
                        });
                    else
                        call(i, "set", mt::mutator, 2, {{"pos", p}}, [&](auto& v, auto&) { return iter2(v, v.set(p, val)); });
                    break;
                case 1:
                    if (h)
                        call(i, "set", mt::mutator_with_pos_hint, 4, {{"pos", p}}, [&](auto& v, auto&) {
                            auto it = hint(v, k);
                            return iter2(v, v.set(it, p, vals.begin(), vals.end()));
                        });
                    else
                        call(i, "set", mt::mutator, 3, {{"pos", p}}, [&](auto& v, auto&) {
                            return iter2(v, v.set(p, vals.begin(), vals.end()));
                        });
                    break;
                case 2:
                    if (h)
                        call(i, "insert", mt::mutator_with_pos_hint, 4, {{"pos", p}}, [&](auto& v, auto&) {
                            auto it = hint(v, k);
                            return iter2(v, v.insert(it, p, vals.begin(), vals.end()));
                        });
                    else
                        call(i, "insert", mt::mutator, 3, {{"pos", p}}, [&](auto& v, auto&) {
                            return iter2(v, v.insert(p, vals.begin(), vals.end()));
                        });
                    break;
                case 3:
                    if (r.chance(50))
                        call(i, "push_back", mt::mutator, 1, {}, [&](auto& v, auto&) { return iter2(v, v.push_back(val)); });
                    else
                        call(i, "push_back", mt::mutator, 1, {}, [&](auto& v, auto&) {
                            T tmp(val);
                            return iter2(v, v.push_back(std::move(tmp)));
                        });
                    break;
                case 4:
                    call(i, "emplace_back", mt::mutator, 1, {}, [&](auto& v, auto&) {
                        return iter2(v, v.template emplace_back<T>(val));
                    });
                    break;
                case 5:
                {
                    // release needs an element of the right type
                    if (!n || p >= n)
                        break;
                    Log::get().muted = true;
                    bool ok = a[i]->get_type(p) == TV::get_element_type(val);
                    Log::get().muted = false;
                    if (!ok)
                        break;
                    switch (r.below(3))
                    {
                        case 0:
                            call(i, "release", mt::mutator, 1, {{"pos", p}}, [&](auto& v, auto&) {
                                return hval(v.template release<T>(p));
                            });
                            break;
                        case 1:
                            call(i, "release", mt::mutator, 2, {{"pos", p}}, [&](auto& v, auto&) {
                                T out{};
                                u64 x = iter2(v, v.release(p, out));
                                return hcomb(x, hval(out));
                            });
                            break;
                        case 2:
                            if constexpr (!Cow)
                                call(i, "release", mt::mutator_with_pos_hint, 3, {{"pos", p}}, [&](auto& v, auto&) {
                                    auto it = hint(v, k);
                                    T out{};
                                    u64 x = iter2(v, v.release(it, p, out));
                                    return hcomb(x, hval(out));
                                });
                            break;
                    }
                    break;
                }
            }
        });
    }

    static u64 hval(std::int32_t x)
    {
        return x;
    }
    static u64 hval(double x)
    {
        return u64(x * 16);
    }
    static u64 hval(const std::string& x)
    {
        return hstr(x);
    }

    // Position of a returned iterator: the block's first element, or the size for the end.
    template<typename V, typename It>
    static u64 iter2(const V& v, It it)
    {
        Log::get().muted = true;
        u64 n = v.size(), h = n;
        typename V::const_iterator ci(it);
        if (ci != v.cend())
            h = it->position;
        Log::get().muted = false;
        return hcomb(n, h);
    }

    std::size_t a_size(int i)
    {
        Log::get().muted = true;
        std::size_t n = a[i]->size();
        Log::get().muted = false;
        return n;
    }

    void range_step(int i)
    {
        std::size_t n = a_size(i), k = r.below(50);
        std::size_t p = n ? r.below(n) : 0, q = n ? p + r.below(std::min<std::size_t>(n - p, 6)) : 0;
        if (r.chance(6))
            q = n + r.below(3);
        if (r.chance(6))
            std::swap(p, q); // refused when the two differ
        std::size_t len = 1 + r.below(4);
        int j = (i + 1 + int(r.below(N - 1))) % N;
        std::size_t m = a_size(j), dp = m ? r.below(m) : 0;
        bool h = n && !Cow && r.chance(40);
        switch (r.below(9))
        {
            case 0:
                if (h)
                    call(i, "set_empty", mt::mutator_with_pos_hint, 3, {{nullptr, p}, {nullptr, q}}, [&](auto& v, auto&) {
                        auto it = hint(v, k);
                        return iter2(v, v.set_empty(it, p, q));
                    });
                else
                    call(i, "set_empty", mt::mutator, 2, {{nullptr, p}, {nullptr, q}}, [&](auto& v, auto&) {
                        return iter2(v, v.set_empty(p, q));
                    });
                break;
            case 1:
                call(i, "erase", mt::mutator, 2, {{nullptr, p}, {nullptr, q}}, [&](auto& v, auto&) {
                    v.erase(p, q);
                    return 0;
                });
                break;
            case 2:
                if (h)
                    call(i, "insert_empty", mt::mutator_with_pos_hint, 3, {{"pos", p}, {nullptr, len}}, [&](auto& v, auto&) {
                        auto it = hint(v, k);
                        return iter2(v, v.insert_empty(it, p, len));
                    });
                else
                    call(i, "insert_empty", mt::mutator, 2, {{"pos", p}, {nullptr, len}}, [&](auto& v, auto&) {
                        return iter2(v, v.insert_empty(p, len));
                    });
                break;
            case 3:
                if (h)
                    call(i, "release_range", mt::mutator_with_pos_hint, 3, {{nullptr, p}, {nullptr, q}}, [&](auto& v, auto&) {
                        auto it = hint(v, k);
                        return iter2(v, v.release_range(it, p, q));
                    });
                else
                    call(i, "release_range", mt::mutator, 2, {{nullptr, p}, {nullptr, q}}, [&](auto& v, auto&) {
                        return iter2(v, v.release_range(p, q));
                    });
                break;
            case 4:
                if (h)
                    call(
                        i, "transfer", mt::mutator_with_pos_hint, 5, {{nullptr, p}, {nullptr, q}, {nullptr, dp}},
                        [&](auto& v, auto& w) {
                            auto it = hint(v, k);
                            return iter2(v, v.transfer(it, p, q, *w[j], dp));
                        });
                else
                    call(i, "transfer", mt::mutator, 4, {{nullptr, p}, {nullptr, q}, {nullptr, dp}}, [&](auto& v, auto& w) {
                        return iter2(v, v.transfer(p, q, *w[j], dp));
                    });
                break;
            case 5:
                call(i, "swap", mt::mutator, 4, {{nullptr, p}, {nullptr, q}, {nullptr, dp}}, [&](auto& v, auto& w) {
                    v.swap(p, q, *w[j], dp);
                    return 0;
                });
                break;
            case 6:
            {
                std::size_t ns = r.skewed(40);
                call(i, "resize", mt::mutator, 1, {{nullptr, ns}}, [&](auto& v, auto&) {
                    v.resize(ns);
                    return 0;
                });
                break;
            }
            case 7:
                call(i, "push_back_empty", mt::mutator, 0, {}, [&](auto& v, auto&) { return iter2(v, v.push_back_empty()); });
                break;
            case 8:
                call(i, "shrink_to_fit", mt::mutator, 0, {}, [&](auto& v, auto&) {
                    v.shrink_to_fit();
                    return 0;
                });
                break;
        }
    }

    void whole_step(int i)
    {
        int j = (i + 1 + int(r.below(N - 1))) % N;
        switch (r.below(8))
        {
            case 0:
                call(i, "swap", mt::mutator, 1, {}, [&](auto& v, auto& w) {
                    v.swap(*w[j]);
                    return 0;
                });
                break;
            case 1:
                call(i, "operator=", mt::mutator, 1, {}, [&](auto& v, auto& w) {
                    v = *w[j];
                    return 0;
                });
                break;
            case 2:
                call(i, "operator=", mt::mutator, 1, {}, [&](auto& v, auto& w) {
                    v = std::move(*w[j]);
                    return 0;
                });
                construct(j, 0, {}, []<typename V>(std::type_identity<V>, auto&) { return std::make_unique<V>(); });
                break;
            case 3:
                if (r.chance(40))
                    call(i, "clear", mt::mutator, 0, {}, [&](auto& v, auto&) {
                        v.clear();
                        return 0;
                    });
                else if (r.chance(30))
                    call(i, "release", mt::mutator, 0, {}, [&](auto& v, auto&) {
                        v.release();
                        return 0;
                    });
                break;
            case 4:
                call(i, "operator==", mt::accessor, 1, {}, [&](auto& v, auto& w) { return u64(v == *w[j]); });
                break;
            case 5:
                call(i, "detach", mt::mutator, 0, {}, [&](auto& v, auto&) {
                    v.detach();
                    return 0;
                });
                break;
            case 6:
            {
                // a clone is not reported as constructed; its other calls are
                call(i, "clone", mt::accessor, 0, {}, [&](auto& v, auto&) {
                    using V = std::remove_reference_t<decltype(v)>;
                    auto* c = new V(v.clone());
                    std::size_t before = Log::get().recs.size();
                    Log::get().alive.insert(c);
                    u64 h = hash(*c);
                    delete c;
                    if constexpr (std::is_same_v<V, TV>)
                        VCHECK(
                            Log::get().recs.size() == before + 1 && Log::get().recs.back().inst == c,
                            "destruction of a clone is not reported");
                    Log::get().alive.erase(c);
                    return h;
                });
                break;
            }
            case 7:
                construct_any(i);
                break;
        }
    }

    void access_step(int i)
    {
        std::size_t n = a_size(i), k = r.below(50);
        std::size_t p = n && !r.chance(8) ? r.below(n) : n + r.below(3);
        switch (r.below(16))
        {
            case 0:
                call(i, "size", mt::accessor, 0, {}, [&](auto& v, auto&) { return v.size(); });
                break;
            case 1:
                call(i, "block_size", mt::accessor, 0, {}, [&](auto& v, auto&) { return v.block_size(); });
                break;
            case 2:
                call(i, "empty", mt::accessor, 0, {}, [&](auto& v, auto&) { return u64(v.empty()); });
                break;
            case 3:
                call(i, "get_type", mt::accessor, 1, {{"pos", p}}, [&](auto& v, auto&) { return u64(v.get_type(p)); });
                break;
            case 4:
                call(i, "is_empty", mt::accessor, 1, {{"pos", p}}, [&](auto& v, auto&) { return u64(v.is_empty(p)); });
                break;
            case 5:
            {
                if (p >= n)
                    break;
                Log::get().muted = true;
                bool ok = a[i]->get_type(p) == mtv::element_type_double;
                Log::get().muted = false;
                if (!ok)
                    break;
                if (r.chance(50))
                    call(i, "get", mt::accessor, 1, {{"pos", p}}, [&](auto& v, auto&) { return hval(v.template get<double>(p)); });
                else
                    call(i, "get", mt::accessor, 2, {{"pos", p}}, [&](auto& v, auto&) {
                        double x = 0;
                        v.get(p, x);
                        return hval(x);
                    });
                break;
            }
            case 6:
                call(i, "position", mt::accessor, 1, {{"pos", p}}, [&](auto& v, auto&) {
                    auto q = std::as_const(v).position(p);
                    return hcomb(q.second, q.first->position);
                });
                break;
            case 7:
                if constexpr (!Cow)
                    call(i, "position", mt::accessor, 1, {{"pos", p}}, [&](auto& v, auto&) {
                        auto q = v.position(p);
                        return hcomb(q.second, q.first->position);
                    });
                break;
            case 8:
                if (n)
                    call(i, "position", mt::accessor_with_pos_hint, 2, {{"pos", p}}, [&](auto& v, auto&) {
                        Log::get().muted = true;
                        auto it = v.cbegin();
                        for (std::size_t s = k % v.block_size(); s; --s)
                            ++it;
                        Log::get().muted = false;
                        auto q = std::as_const(v).position(it, p);
                        return hcomb(q.second, q.first->position);
                    });
                break;
            case 9:
                if constexpr (!Cow)
                    if (n)
                        call(i, "position", mt::accessor_with_pos_hint, 2, {{"pos", p}}, [&](auto& v, auto&) {
                            auto it = hint(v, k);
                            auto q = v.position(it, p);
                            return hcomb(q.second, q.first->position);
                        });
                break;
            case 10:
                simple(i, "cbegin", [](auto& v) { (void)v.cbegin(); });
                simple(i, "cend", [](auto& v) { (void)v.cend(); });
                break;
            case 11:
                simple(i, "crbegin", [](auto& v) { (void)v.crbegin(); });
                simple(i, "crend", [](auto& v) { (void)v.crend(); });
                break;
            case 12:
                simple(i, "begin", [](auto& v) { (void)std::as_const(v).begin(); });
                simple(i, "end", [](auto& v) { (void)std::as_const(v).end(); });
                break;
            case 13:
                simple(i, "rbegin", [](auto& v) { (void)std::as_const(v).rbegin(); });
                simple(i, "rend", [](auto& v) { (void)std::as_const(v).rend(); });
                break;
            case 14:
                if constexpr (!Cow)
                {
                    simple(i, "begin", [](auto& v) { (void)v.begin(); });
                    simple(i, "end", [](auto& v) { (void)v.end(); });
                    simple(i, "rbegin", [](auto& v) { (void)v.rbegin(); });
                    simple(i, "rend", [](auto& v) { (void)v.rend(); });
                }
                break;
            case 15:
                simple(i, "event_handler", [](auto& v) { (void)v.event_handler(); });
                simple(i, "event_handler", [](auto& v) { (void)std::as_const(v).event_handler(); });
                break;
        }
    }

    template<typename F>
    void simple(int i, const char* name, F f)
    {
        call(i, name, mt::accessor, 0, {}, [&](auto& v, auto&) {
            f(v);
            return 0;
        });
    }

    void run()
    {
        Log::get().alive.clear();
        Log::get().recs.clear();
        for (int i = N - 1; i >= 0; --i)
            construct_any(i);
        int steps = 10 + int(r.below(40));
        for (int s = 0; s < steps; ++s)
        {
            int i = int(r.below(N));
            switch (r.below(8))
            {
                case 0:
                case 1:
                case 2:
                    value_step(i);
                    break;
                case 3:
                case 4:
                    range_step(i);
                    break;
                case 5:
                    whole_step(i);
                    break;
                default:
                    access_step(i);
            }
            if (s % 4 == 0)
                compare();
        }
        compare();
        for (int i = 0; i < N; ++i)
        {
            const void* old = a[i].get();
            Log::get().recs.clear();
            a[i].reset();
            check(old, "~multi_type_vector", mt::destructor, 0, {});
            b[i].reset();
        }
        VCHECK(Log::get().alive.empty(), "an instance reported as constructed is never reported as destroyed");
    }
};

} // namespace

int main(int argc, char** argv)
{
    return drive(argc, argv, {{"mtv_trace", 1, [](Rng& r) {
        dispatch_types<Fixture<false>, Fixture<true>>(r, [&]<typename F>() { F(r).run(); });
    }}});
}
