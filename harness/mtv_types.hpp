// Element types, traits and event registry shared by the multi_type_vector monitors.
#pragma once
#include "common.hpp"

#include <mdds/multi_type_vector/types.hpp>
#include <mdds/multi_type_vector/delayed_delete_vector.hpp>
#include <mdds/multi_type_vector/macro.hpp>
#include <mdds/multi_type_vector/util.hpp>
#include <mdds/multi_type_vector/block_funcs.hpp>

#include <deque>
#include <list>

#ifdef VH_NO_STD_BLOCKS
#define MDDS_MTV_USE_STANDARD_ELEMENT_BLOCKS 0
namespace mdds { namespace mtv {
using vbool_block = default_element_block<70, bool, VH_NO_STD_BLOCKS>;
using vint_block = default_element_block<71, std::int32_t, VH_NO_STD_BLOCKS>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(bool, 70, false, vbool_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(std::int32_t, 71, 0, vint_block)
}} // namespace mdds::mtv
#else
#include <mdds/multi_type_vector/standard_element_blocks.hpp>
#endif

namespace vh {

namespace mtv = mdds::mtv;

// Objects owned by managed blocks: their own ledger, since they have to be destroyed promptly.
struct ObjBase
{
    i64 v;
    static std::unordered_set<const void*>& live()
    {
        static std::unordered_set<const void*> s;
        return s;
    }
    static i64& throw_after()
    {
        static i64 n = -1;
        return n;
    }
    explicit ObjBase(i64 x) : v(x)
    {
        live().insert(this);
    }
    ObjBase(const ObjBase& o) : v(o.v)
    {
        if (!live().count(&o))
            violation("copied an object that is not alive");
        if (throw_after() >= 0 && throw_after()-- == 0)
            throw std::runtime_error("injected");
        live().insert(this);
    }
    ObjBase& operator=(const ObjBase&) = delete;
    ~ObjBase()
    {
        if (!live().erase(this))
            violation("managed object destroyed twice");
    }
    bool operator==(const ObjBase& o) const
    {
        return v == o.v;
    }
};

struct VA : Tracked
{
    using Tracked::Tracked;
};
struct VB : Tracked
{
    using Tracked::Tracked;
};
struct VC : Tracked
{
    using Tracked::Tracked;
};
struct MA : ObjBase
{
    using ObjBase::ObjBase;
};
struct MB : ObjBase
{
    using ObjBase::ObjBase;
};
struct MC : ObjBase
{
    using ObjBase::ObjBase;
};
struct NA : ObjBase // noncopyable block, cloneable by value
{
    using ObjBase::ObjBase;
};
struct NB : ObjBase
{
    using ObjBase::ObjBase;
};
struct NC : ObjBase
{
    using ObjBase::ObjBase;
};
struct NX : ObjBase // noncopyable block without a way to clone
{
    using ObjBase::ObjBase;
};

using VA_block = mtv::default_element_block<60, VA, mtv::delayed_delete_vector>;
using VB_block = mtv::default_element_block<61, VB, std::vector>;
using VC_block = mtv::default_element_block<62, VC, std::deque>;
using MA_block = mtv::managed_element_block<63, MA, mtv::delayed_delete_vector>;
using MB_block = mtv::managed_element_block<64, MB, std::vector>;
using MC_block = mtv::managed_element_block<65, MC, std::deque>;
using NA_block = mtv::noncopyable_managed_element_block<66, NA, mtv::delayed_delete_vector>;
using NB_block = mtv::noncopyable_managed_element_block<67, NB, std::vector>;
using NC_block = mtv::noncopyable_managed_element_block<68, NC, std::deque>;
using NX_block = mtv::noncopyable_managed_element_block<69, NX, mtv::delayed_delete_vector>;

MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(VA, 60, VA(), VA_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(VB, 61, VB(), VB_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(VC, 62, VC(), VC_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(MA, 63, nullptr, MA_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(MB, 64, nullptr, MB_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(MC, 65, nullptr, MC_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(NA, 66, nullptr, NA_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(NB, 67, nullptr, NB_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(NC, 68, nullptr, NC_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(NX, 69, nullptr, NX_block)

} // namespace vh

namespace vh {
// The state of a cloner is visible in what it returns: the monitors check that one cloner per block saw the
// values in stored order.
struct CloneLog
{
    struct Ev
    {
        int cloner;
        i64 v;
    };
    static std::vector<Ev>& log()
    {
        static std::vector<Ev> l;
        return l;
    }
    static int& next()
    {
        static int n = 0;
        return n;
    }
    static i64& throw_after()
    {
        static i64 n = -1;
        return n;
    }
};
template<typename T>
struct CloneBase
{
    int id = CloneLog::next()++;
    T* operator()(const T* p)
    {
        if (CloneLog::throw_after() >= 0 && CloneLog::throw_after()-- == 0)
            throw std::runtime_error("injected");
        CloneLog::log().push_back({id, p->v});
        return new T(p->v);
    }
};
} // namespace vh

namespace mdds { namespace mtv {
template<>
struct clone_value<vh::NA*> : vh::CloneBase<vh::NA>
{};
template<>
struct clone_value<vh::NB*> : vh::CloneBase<vh::NB>
{};
template<>
struct clone_value<vh::NC*> : vh::CloneBase<vh::NC>
{};
}} // namespace mdds::mtv

namespace vh {

// How the monitors create and read elements of a kind.
template<typename B>
struct ValKind
{
    using Blk = B;
    using T = typename B::value_type;
    static constexpr bool managed = false;
    static constexpr bool copyable = true;
    static constexpr bool cloneable = true;
    static T make(i64 x)
    {
        if constexpr (std::is_same_v<T, std::string>)
            return (x & 1 ? "a long enough string to be on the heap " : "s") + std::to_string(x);
        else if constexpr (std::is_same_v<T, bool>)
            return x & 1;
        else
            return T(static_cast<int>(x));
    }
    static i64 norm(i64 x)
    {
        if constexpr (std::is_same_v<T, bool>)
            return x & 1;
        else
            return x;
    }
    static i64 val(const T& t)
    {
        if constexpr (std::is_same_v<T, std::string>)
        {
            if (t.empty())
                return -1;
            std::size_t p = t.size();
            while (p && std::isdigit(static_cast<unsigned char>(t[p - 1])))
                --p;
            return std::stoll(t.substr(p));
        }
        else if constexpr (std::is_base_of_v<Tracked, T>)
        {
            Ledger::use(&t);
            if (t.moved)
                return -99999;
            return t.v;
        }
        else
            return static_cast<i64>(t);
    }
    static const void* ptr(const T&)
    {
        return nullptr;
    }
    static void drop(const T&)
    {}
    static T empty()
    {
        T t;
        mdds_mtv_empty(t);
        return t;
    }
    static void mdds_mtv_empty(T& t)
    {
        if constexpr (std::is_same_v<T, std::string>)
            t = std::string();
        else if constexpr (std::is_same_v<T, bool>)
            t = false;
        else
            t = T(0);
    }
};

template<typename B, bool Copyable, bool Cloneable>
struct MgdKind
{
    using Blk = B;
    using T = typename B::value_type;
    using O = std::remove_pointer_t<T>;
    static constexpr bool managed = true;
    static constexpr bool copyable = Copyable;
    static constexpr bool cloneable = Cloneable;
    static T make(i64 x)
    {
        return new O(x);
    }
    static i64 norm(i64 x)
    {
        return x;
    }
    static i64 val(T t)
    {
        if (!t)
            return -88888;
        if (!ObjBase::live().count(t))
            violation("container refers to an object that is not alive");
        return t->v;
    }
    static const void* ptr(T t)
    {
        return static_cast<const ObjBase*>(t);
    }
    static void drop(T t)
    {
        delete t;
    }
    static T empty()
    {
        return nullptr;
    }
};

// Records block events per event handler and block type. (The address of a block is no identity: set() may
// replace the storage of a block without an event, and says so.)
struct EvReg
{
    static std::map<int, std::map<mtv::element_t, int>>& reg()
    {
        static std::map<int, std::map<mtv::element_t, int>> r;
        return r;
    }
    static bool& strict()
    {
        static bool b = false;
        return b;
    }
    static u64& acquired()
    {
        static u64 n = 0;
        return n;
    }
    static u64& released()
    {
        static u64 n = 0;
        return n;
    }
};

struct Ev
{
    int id = 0;
    Ev() = default;
    explicit Ev(int i) : id(i)
    {}
    void element_block_acquired(const mtv::base_element_block* b)
    {
        ++EvReg::acquired();
        if (EvReg::strict())
        {
            if (!b)
                violation("element_block_acquired() called with a null block");
            // the block has to be usable inside of the callback
            if (mtv::get_block_type(*b) == mtv::element_type_empty)
                violation("element_block_acquired() called with a block of the empty type");
            ++EvReg::reg()[id][mtv::get_block_type(*b)];
        }
    }
    void element_block_released(const mtv::base_element_block* b)
    {
        ++EvReg::released();
        if (EvReg::strict())
        {
            if (!b)
                violation("element_block_released() called with a null block");
            if (mtv::get_block_type(*b) == mtv::element_type_empty)
                violation("element_block_released() called with a block of the empty type");
            --EvReg::reg()[id][mtv::get_block_type(*b)];
        }
    }
};

template<typename... K>
struct Kinds
{
    static constexpr int n = sizeof...(K);
    using Funcs = mtv::element_block_funcs<typename K::Blk...>;

    // call f with the kind number i
    template<typename F>
    static void with(int i, F f)
    {
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            ((static_cast<int>(I) == i ? (f.template operator()<K>(), 0) : 0), ...);
        }(std::make_index_sequence<sizeof...(K)>());
    }
    static int of_type(mtv::element_t t)
    {
        int i = 0, r = -1;
        ((t == K::Blk::block_type ? (r = i, ++i) : ++i), ...);
        return r;
    }
    static bool copyable(int i)
    {
        bool a[] = {K::copyable...};
        return a[i];
    }
    static bool cloneable(int i)
    {
        bool a[] = {K::cloneable...};
        return a[i];
    }
    static bool managed(int i)
    {
        bool a[] = {K::managed...};
        return a[i];
    }
    static mtv::element_t type(int i)
    {
        mtv::element_t a[] = {K::Blk::block_type...};
        return a[i];
    }
};

template<typename Ks, mtv::lu_factor_t Lu, bool Cow = false>
struct MyTraits : mtv::default_traits
{
    using event_func = Ev;
    static constexpr mtv::lu_factor_t loop_unrolling = Lu;
    static constexpr bool enable_cow = Cow;
    using block_funcs = typename Ks::Funcs;
};

} // namespace vh
