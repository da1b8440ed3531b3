#pragma once
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>

#include "Kokkos_Array.hpp"
#include "Kokkos_Macros.hpp"
#include "Kokkos_Pair.hpp"
#include "kshim_runtime.hpp"

namespace Kokkos {

// ------------------------------------------------------------------ spaces
class Serial;
#if defined(KSHIM_UNIFIED)
#    define KSHIM_SPLIT 0
#else
#    define KSHIM_SPLIT 1
#endif

struct HostSpace;
struct SharedHostPinnedSpace;
struct SharedSpace;
#if KSHIM_SPLIT
struct DeviceSpace;
class Device_;
#endif

class Serial
{
public:
    using execution_space = Serial;
    using memory_space = HostSpace;
    using array_layout_tag = void;
    using size_type = std::size_t;
    static char const* name()
    {
        return "Serial";
    }
    void fence(std::string const& = "") const
    {
        kshim::fence();
    }
    static int concurrency()
    {
        return 1;
    }
    void print_configuration(std::ostream&, bool = false) const {}
};
#if KSHIM_SPLIT
// an accelerator with its own memory and asynchronous kernel launches
class Device_
{
public:
    using execution_space = Device_;
    using memory_space = DeviceSpace;
    using size_type = std::size_t;
    static char const* name()
    {
        return "Device";
    }
    void fence(std::string const& = "") const
    {
        kshim::fence();
    }
    static int concurrency()
    {
        return 1;
    }
};
#endif
using DefaultHostExecutionSpace = Serial;

struct HostSpace
{
    using memory_space = HostSpace;
    using execution_space = Serial;
    using size_type = std::size_t;
    static constexpr int kshim_id = 0;
    static constexpr char const* name()
    {
        return "Host";
    }
};
#if KSHIM_SPLIT
struct DeviceSpace
{
    using memory_space = DeviceSpace;
    using execution_space = Device_;
    using size_type = std::size_t;
    static constexpr int kshim_id = 1;
    static constexpr char const* name()
    {
        return "Device";
    }
};
// memory visible from both sides
struct SharedHostPinnedSpace
{
    using memory_space = SharedHostPinnedSpace;
    using execution_space = Device_;
    using size_type = std::size_t;
    static constexpr int kshim_id = 2;
    static constexpr char const* name()
    {
        return "HostPinned";
    }
};
struct SharedSpace
{
    using memory_space = SharedSpace;
    using execution_space = Device_;
    using size_type = std::size_t;
    static constexpr int kshim_id = 2;
    static constexpr char const* name()
    {
        return "Shared";
    }
};
using DefaultExecutionSpace = Device_;
#else
struct SharedHostPinnedSpace : HostSpace
{
    using memory_space = HostSpace;
};
struct SharedSpace : HostSpace
{
    using memory_space = HostSpace;
};
using DefaultExecutionSpace = Serial;
#endif
struct AnonymousSpace
{
    using memory_space = AnonymousSpace;
    using execution_space = DefaultExecutionSpace;
    using size_type = std::size_t;
    static constexpr int kshim_id = 2;
};

template <class Exec, class Mem>
struct Device
{
    using execution_space = Exec;
    using memory_space = Mem;
    using device_type = Device;
};

namespace Impl {
template <class T, class = void>
struct has_kshim_id : std::false_type
{
};
template <class T>
struct has_kshim_id<T, std::void_t<decltype(T::kshim_id)>> : std::true_type
{
};
template <class S>
struct host_mirror_space_of
{
    using type = HostSpace;
};
#if KSHIM_SPLIT
template <>
struct host_mirror_space_of<SharedHostPinnedSpace>
{
    using type = SharedHostPinnedSpace;
};
template <>
struct host_mirror_space_of<SharedSpace>
{
    using type = SharedSpace;
};
#endif
} // namespace Impl

template <class T>
struct is_memory_space : Impl::has_kshim_id<T>
{
};
template <class T>
struct is_execution_space : std::bool_constant<std::is_same_v<T, Serial> || std::is_same_v<T, DefaultExecutionSpace>>
{
};
template <class T>
inline constexpr bool is_execution_space_v = is_execution_space<T>::value;
template <class T>
inline constexpr bool is_memory_space_v = is_memory_space<T>::value;

template <class AccessSpace, class MemorySpace>
struct SpaceAccessibility
{
    static constexpr int a = AccessSpace::memory_space::kshim_id;
    static constexpr int m = MemorySpace::memory_space::kshim_id;
    static constexpr bool accessible = a == m || m == 2 || a == 2;
    static constexpr bool assignable = a == m;
    static constexpr bool deepcopy = true;
};

// ------------------------------------------------------------------ traits
enum MemoryTraitsFlags : unsigned { Unmanaged = 0x01, RandomAccess = 0x02, Atomic = 0x04, Restrict = 0x08, Aligned = 0x10 };
template <unsigned T = 0>
struct MemoryTraits
{
    using memory_traits = MemoryTraits;
    static constexpr unsigned impl_value = T;
    static constexpr bool is_unmanaged = (T & Unmanaged) != 0;
    static constexpr bool is_random_access = (T & RandomAccess) != 0;
    static constexpr bool is_atomic = (T & Atomic) != 0;
    static constexpr bool is_restrict = (T & Restrict) != 0;
    static constexpr bool is_aligned = (T & Aligned) != 0;
};
using MemoryManaged = MemoryTraits<0>;
using MemoryUnmanaged = MemoryTraits<Unmanaged>;
using MemoryRandomAccess = MemoryTraits<Unmanaged | RandomAccess>;

inline constexpr std::size_t KSHIM_NODIM = ~std::size_t(0);
namespace Impl {
struct LayoutBase
{
    static constexpr unsigned max_rank = 8;
    std::size_t dimension[8] = {KSHIM_NODIM, KSHIM_NODIM, KSHIM_NODIM, KSHIM_NODIM, KSHIM_NODIM, KSHIM_NODIM, KSHIM_NODIM, KSHIM_NODIM};
};
} // namespace Impl
struct LayoutLeft : Impl::LayoutBase
{
    using array_layout = LayoutLeft;
    LayoutLeft() = default;
    template <class... I>
        requires(sizeof...(I) >= 1 && (std::is_convertible_v<I, std::size_t> && ...))
    explicit constexpr LayoutLeft(I... i)
    {
        std::size_t const t[] = {static_cast<std::size_t>(i)...};
        for (unsigned k = 0; k < sizeof...(I); ++k) dimension[k] = t[k];
    }
    friend bool operator==(LayoutLeft const& a, LayoutLeft const& b)
    {
        return std::memcmp(a.dimension, b.dimension, sizeof a.dimension) == 0;
    }
    friend bool operator!=(LayoutLeft const& a, LayoutLeft const& b)
    {
        return !(a == b);
    }
};
struct LayoutRight : Impl::LayoutBase
{
    using array_layout = LayoutRight;
    LayoutRight() = default;
    template <class... I>
        requires(sizeof...(I) >= 1 && (std::is_convertible_v<I, std::size_t> && ...))
    explicit constexpr LayoutRight(I... i)
    {
        std::size_t const t[] = {static_cast<std::size_t>(i)...};
        for (unsigned k = 0; k < sizeof...(I); ++k) dimension[k] = t[k];
    }
    friend bool operator==(LayoutRight const& a, LayoutRight const& b)
    {
        return std::memcmp(a.dimension, b.dimension, sizeof a.dimension) == 0;
    }
    friend bool operator!=(LayoutRight const& a, LayoutRight const& b)
    {
        return !(a == b);
    }
};
struct LayoutStride : Impl::LayoutBase
{
    using array_layout = LayoutStride;
    std::size_t stride[8] = {0, 0, 0, 0, 0, 0, 0, 0};
    LayoutStride() = default;
    friend bool operator==(LayoutStride const& a, LayoutStride const& b)
    {
        return std::memcmp(a.dimension, b.dimension, sizeof a.dimension) == 0 && std::memcmp(a.stride, b.stride, sizeof a.stride) == 0;
    }
    friend bool operator!=(LayoutStride const& a, LayoutStride const& b)
    {
        return !(a == b);
    }
};

struct ALL_t
{
    constexpr ALL_t const& operator()() const
    {
        return *this;
    }
    constexpr bool operator==(ALL_t const&) const
    {
        return true;
    }
};
inline constexpr ALL_t ALL {};

// view_alloc
namespace Impl {
struct WithoutInitializing_t
{
};
struct SequentialHostInit_t
{
};
struct ViewCtorProp
{
    std::string label;
    bool init = true;
};
inline void apply(ViewCtorProp& p, std::string const& s) { p.label = s; }
inline void apply(ViewCtorProp& p, char const* s) { p.label = s; }
inline void apply(ViewCtorProp& p, WithoutInitializing_t const&) { p.init = false; }
template <class T>
    requires(!std::is_convertible_v<T, std::string>)
inline void apply(ViewCtorProp&, T const&)
{
}
} // namespace Impl
inline constexpr Impl::WithoutInitializing_t WithoutInitializing {};
inline constexpr Impl::SequentialHostInit_t SequentialHostInit {};
template <class... A>
Impl::ViewCtorProp view_alloc(A const&... a)
{
    Impl::ViewCtorProp p;
    (Impl::apply(p, a), ...);
    return p;
}
template <class... A>
Impl::ViewCtorProp view_wrap(A const&... a)
{
    return view_alloc(a...);
}

// ------------------------------------------------------------------ data type analysis
namespace Impl {
template <class T>
struct DT
{
    using value_type = T;
    static constexpr unsigned rank = 0, rank_dynamic = 0;
    template <std::size_t I>
    static constexpr std::size_t static_extent()
    {
        return 1;
    }
    template <class U>
    using rebind = U;
};
template <class T>
struct DT<T*>
{
    using base = DT<T>;
    using value_type = typename base::value_type;
    static constexpr unsigned rank = base::rank + 1, rank_dynamic = base::rank_dynamic + 1;
    template <class U>
    using rebind = typename base::template rebind<U>*;
};
template <class T, std::size_t N>
struct DT<T[N]>
{
    using base = DT<T>;
    using value_type = typename base::value_type;
    static constexpr unsigned rank = base::rank + 1, rank_dynamic = base::rank_dynamic;
    template <class U>
    using rebind = typename base::template rebind<U>[N];
};
template <class T>
struct StripStatic
{
    static void get(std::size_t*) {}
};
template <class T, std::size_t N>
struct StripStatic<T[N]>
{
    static void get(std::size_t* p)
    {
        *p = N;
        StripStatic<T>::get(p + 1);
    }
};
template <class V, unsigned R>
struct MakeDT
{
    using type = typename MakeDT<V, R - 1>::type*;
};
template <class V>
struct MakeDT<V, 0>
{
    using type = V;
};

template <class T>
struct is_layout : std::false_type
{
};
template <>
struct is_layout<LayoutLeft> : std::true_type
{
};
template <>
struct is_layout<LayoutRight> : std::true_type
{
};
template <>
struct is_layout<LayoutStride> : std::true_type
{
};
template <class T>
struct is_memtraits : std::false_type
{
};
template <unsigned T>
struct is_memtraits<MemoryTraits<T>> : std::true_type
{
};
template <class T>
struct space_of
{
    using type = typename T::memory_space;
};
template <class... P>
struct Props
{
    using layout = void;
    using space = void;
    using traits = void;
};
template <class H, class... T>
struct Props<H, T...>
{
    using rest = Props<T...>;
    static constexpr bool is_l = is_layout<H>::value;
    static constexpr bool is_t = is_memtraits<H>::value;
    using layout = std::conditional_t<is_l, H, typename rest::layout>;
    using traits = std::conditional_t<is_t, H, typename rest::traits>;
    template <class X, bool L>
    struct sp
    {
        using type = typename rest::space;
    };
    template <class X>
    struct sp<X, false>
    {
        using type = typename X::memory_space;
    };
    using space = typename sp<H, (is_l || is_t || std::is_void_v<H>)>::type;
};
template <class T, class D>
using default_to = std::conditional_t<std::is_void_v<T>, D, T>;
} // namespace Impl

template <class DataType, class... P>
struct ViewTraits
{
private:
    using dt = Impl::DT<DataType>;
    using props = Impl::Props<P...>;

public:
    using data_type = DataType;
    using value_type = typename dt::value_type;
    using const_value_type = std::add_const_t<value_type>;
    using non_const_value_type = std::remove_const_t<value_type>;
    using const_data_type = typename dt::template rebind<const_value_type>;
    using non_const_data_type = typename dt::template rebind<non_const_value_type>;
    using memory_space = Impl::default_to<typename props::space, typename DefaultExecutionSpace::memory_space>;
    using execution_space = typename memory_space::execution_space;
    using device_type = Device<execution_space, memory_space>;
    using array_layout = Impl::default_to<typename props::layout, std::conditional_t<std::is_same_v<memory_space, HostSpace>, LayoutRight, LayoutLeft>>;
    using memory_traits = Impl::default_to<typename props::traits, MemoryTraits<0>>;
    using host_mirror_space = typename Impl::host_mirror_space_of<memory_space>::type;
    using size_type = std::size_t;
    using scalar_array_type = DataType;
    using const_scalar_array_type = const_data_type;
    using non_const_scalar_array_type = non_const_data_type;
    struct dimension
    {
        static constexpr unsigned rank = dt::rank;
        static constexpr unsigned rank_dynamic = dt::rank_dynamic;
    };
    static constexpr unsigned rank = dt::rank;
    static constexpr unsigned rank_dynamic = dt::rank_dynamic;
    static constexpr bool is_managed = !memory_traits::is_unmanaged;
};

template <class DataType, class... P>
class View;

template <class T>
struct is_view : std::false_type
{
};
template <class D, class... P>
struct is_view<View<D, P...>> : std::true_type
{
};
template <class D, class... P>
struct is_view<View<D, P...> const> : std::true_type
{
};
template <class T>
inline constexpr bool is_view_v = is_view<T>::value;

namespace Impl {
struct Alloc
{
    kshim::AllocInfo info;
    ~Alloc()
    {
        if (info.managed && info.base) {
            kshim::unregistered(&info);
            ::operator delete(info.base, std::align_val_t(64));
        }
    }
};
template <class L>
struct layout_kind;
template <>
struct layout_kind<LayoutLeft>
{
    static constexpr int v = 0;
};
template <>
struct layout_kind<LayoutRight>
{
    static constexpr int v = 1;
};
template <>
struct layout_kind<LayoutStride>
{
    static constexpr int v = 2;
};
template <class A>
inline constexpr bool is_all_v = std::is_same_v<std::remove_cvref_t<A>, ALL_t>;
template <class A>
inline constexpr bool is_index_v = std::is_convertible_v<A, std::size_t> && !is_all_v<A>;
template <class A>
inline constexpr bool is_range_v = is_all_v<A> || !is_index_v<A>;
} // namespace Impl

template <class DataType, class... P>
class View : public ViewTraits<DataType, P...>
{
public:
    using traits = ViewTraits<DataType, P...>;
    using typename traits::array_layout;
    using typename traits::memory_space;
    using typename traits::memory_traits;
    using typename traits::value_type;
    using data_type = typename traits::data_type;
    using element_type = value_type;
    using reference_type = value_type&;
    using pointer_type = value_type*;
    using type = View;
    using const_type = View<typename traits::const_data_type, array_layout, memory_space, memory_traits>;
    using non_const_type = View<typename traits::non_const_data_type, array_layout, memory_space, memory_traits>;
    using host_mirror_type = View<typename traits::non_const_data_type, array_layout, typename traits::host_mirror_space::memory_space>;
    using HostMirror = host_mirror_type;
    using uniform_type = View;

    static constexpr unsigned Rank = traits::rank;
    static constexpr unsigned rank_ = traits::rank;
    struct rank_t
    {
        static constexpr unsigned value = traits::rank;
        constexpr operator unsigned() const
        {
            return value;
        }
        constexpr unsigned operator()() const
        {
            return value;
        }
    };
    static constexpr rank_t rank {};
    static constexpr unsigned rank_dynamic = traits::rank_dynamic;

private:
    template <class D2, class... P2>
    friend class View;
    template <class D2, class... P2, class... A>
    friend auto subview(View<D2, P2...> const&, A const&... a);

    std::shared_ptr<Impl::Alloc> m_alloc;
    value_type* m_ptr = nullptr;
    std::size_t m_ext[8] = {1, 1, 1, 1, 1, 1, 1, 1};
    std::size_t m_str[8] = {0, 0, 0, 0, 0, 0, 0, 0};

    void set_extents(std::size_t const* n, unsigned cnt)
    {
        for (unsigned i = 0; i < 8; ++i) m_ext[i] = 1;
        std::size_t stat[8] = {1, 1, 1, 1, 1, 1, 1, 1};
        collect_static(stat);
        for (unsigned i = 0; i < rank_; ++i) {
            if (i < rank_dynamic) {
                m_ext[i] = i < cnt && n[i] != KSHIM_NODIM ? n[i] : 0;
            } else {
                m_ext[i] = stat[i - rank_dynamic];
            }
        }
    }
    template <class T>
    struct peel
    {
        using type = T;
    };
    template <class T>
    struct peel<T*>
    {
        using type = typename peel<T>::type;
    };
    static void collect_static(std::size_t* p)
    {
        using D = std::remove_cv_t<DataType>;
        collect<D>(p);
    }
    template <class D>
    static void collect(std::size_t* p)
    {
        if constexpr (std::is_array_v<D>) {
            *p = std::extent_v<D>;
            collect<std::remove_extent_t<D>>(p + 1);
        }
        // double*[2] : array of pointers: the static extents come first in the C++ type
    }
    void set_strides(array_layout const* l = nullptr)
    {
        if constexpr (Impl::layout_kind<array_layout>::v == 1) {
            std::size_t s = 1;
            for (int i = int(rank_) - 1; i >= 0; --i) {
                m_str[i] = s;
                s *= m_ext[i];
            }
        } else if constexpr (Impl::layout_kind<array_layout>::v == 0) {
            std::size_t s = 1;
            for (unsigned i = 0; i < rank_; ++i) {
                m_str[i] = s;
                s *= m_ext[i];
            }
        } else {
            if (l) {
                for (unsigned i = 0; i < rank_; ++i) m_str[i] = l->stride[i];
            } else {
                std::size_t s = 1;
                for (unsigned i = 0; i < rank_; ++i) {
                    m_str[i] = s;
                    s *= m_ext[i];
                }
            }
        }
    }
    void allocate(std::string const& label, bool init)
    {
        m_alloc = std::make_shared<Impl::Alloc>();
        std::size_t const n = span();
        m_alloc->info.bytes = n * sizeof(value_type);
        m_alloc->info.label = label;
        m_alloc->info.space = memory_space::kshim_id;
        m_alloc->info.base = static_cast<char*>(::operator new(n ? n * sizeof(value_type) : 64, std::align_val_t(64)));
        if (init) {
            std::memset(static_cast<void*>(m_alloc->info.base), 0, n * sizeof(value_type));
        } else {
            std::memset(static_cast<void*>(m_alloc->info.base), 0xFF, n * sizeof(value_type));
        }
        m_ptr = reinterpret_cast<value_type*>(m_alloc->info.base);
        kshim::registered(&m_alloc->info);
    }
    [[noreturn]] void oob(std::size_t const* idx, unsigned n) const
    {
        std::string s = "out of bounds access to '" + label() + "': (";
        for (unsigned i = 0; i < n; ++i) s += (i ? "," : "") + std::to_string(static_cast<long long>(idx[i]));
        s += ") with extents (";
        for (unsigned i = 0; i < rank_; ++i) s += (i ? "," : "") + std::to_string(m_ext[i]);
        s += ")";
        kshim::fail(s);
    }
    void check_space() const
    {
        if (KSHIM_SPLIT && kshim::check_spaces) {
            int const sp = memory_space::kshim_id;
            bool const k = kshim::in_kernel();
            if ((k && sp == 0) || (!k && sp == 1)) {
                bad_space(k);
            }
        }
    }
    [[noreturn]] void bad_space(bool k) const
    {
        kshim::fail(std::string(k ? "a device kernel accesses the host array '" : "host code accesses the device array '") + label() + "'");
    }

public:
    View() = default;
    View(View const&) = default;
    View(View&&) noexcept = default;
    View& operator=(View const&) = default;
    View& operator=(View&&) noexcept = default;
    ~View() = default;

    template <class... I>
        requires(
                (std::is_convertible_v<I, std::size_t> && ...) && !(std::is_pointer_v<I> || ...)
                && (sizeof...(I) == ViewTraits<DataType, P...>::rank_dynamic || sizeof...(I) == ViewTraits<DataType, P...>::rank))
    explicit View(std::string const& label, I... i)
    {
        std::size_t n[8] = {static_cast<std::size_t>(i)...};
        set_extents(n, sizeof...(I));
        set_strides();
        allocate(label, true);
    }
    template <class... I>
        requires(
                (std::is_convertible_v<I, std::size_t> && ...)
                && (sizeof...(I) == ViewTraits<DataType, P...>::rank_dynamic || sizeof...(I) == ViewTraits<DataType, P...>::rank))
    explicit View(Impl::ViewCtorProp const& prop, I... i)
    {
        std::size_t n[8] = {static_cast<std::size_t>(i)...};
        set_extents(n, sizeof...(I));
        set_strides();
        allocate(prop.label, prop.init);
    }
    explicit View(std::string const& label, array_layout const& l)
    {
        set_extents(l.dimension, rank_);
        set_strides(&l);
        allocate(label, true);
    }
    explicit View(Impl::ViewCtorProp const& prop, array_layout const& l)
    {
        set_extents(l.dimension, rank_);
        set_strides(&l);
        allocate(prop.label, prop.init);
    }
    template <class... I>
        requires((std::is_convertible_v<I, std::size_t> && ...) && !std::is_same_v<value_type, void>)
    explicit View(value_type* p, I... i)
    {
        std::size_t n[8] = {static_cast<std::size_t>(i)...};
        set_extents(n, sizeof...(I));
        set_strides();
        m_alloc = std::make_shared<Impl::Alloc>();
        m_alloc->info.base = reinterpret_cast<char*>(const_cast<std::remove_const_t<value_type>*>(p));
        m_alloc->info.bytes = span() * sizeof(value_type);
        m_alloc->info.label = "unmanaged";
        m_alloc->info.space = memory_space::kshim_id;
        m_alloc->info.managed = false;
        m_ptr = p;
    }
    View(value_type* p, array_layout const& l)
    {
        set_extents(l.dimension, rank_);
        set_strides(&l);
        m_alloc = std::make_shared<Impl::Alloc>();
        m_alloc->info.base = reinterpret_cast<char*>(const_cast<std::remove_const_t<value_type>*>(p));
        m_alloc->info.bytes = span() * sizeof(value_type);
        m_alloc->info.label = "unmanaged";
        m_alloc->info.space = memory_space::kshim_id;
        m_alloc->info.managed = false;
        m_ptr = p;
    }

    template <class D2, class... P2>
    static constexpr bool convertible_from()
    {
        using T2 = ViewTraits<D2, P2...>;
        if constexpr (T2::rank != traits::rank) {
            return false;
        } else {
            return std::is_convertible_v<typename T2::value_type (*)[], value_type (*)[]>
                   && SpaceAccessibility<memory_space, typename T2::memory_space>::accessible
                   && (T2::memory_space::kshim_id == memory_space::kshim_id || memory_space::kshim_id == 0 || memory_space::kshim_id == 1)
                   && (std::is_same_v<typename T2::array_layout, array_layout> || traits::rank <= 1 || std::is_same_v<array_layout, LayoutStride>
                       || std::is_same_v<typename T2::array_layout, LayoutStride>);
        }
    }

    template <class D2, class... P2>
        requires(View<DataType, P...>::template convertible_from<D2, P2...>())
    View(View<D2, P2...> const& o)
    {
        assign(o);
    }
    template <class D2, class... P2>
        requires(View<DataType, P...>::template convertible_from<D2, P2...>())
    View& operator=(View<D2, P2...> const& o)
    {
        assign(o);
        return *this;
    }

private:
    template <class D2, class... P2>
    void assign(View<D2, P2...> const& o)
    {
        m_alloc = o.m_alloc;
        m_ptr = o.m_ptr;
        for (int i = 0; i < 8; ++i) {
            m_ext[i] = o.m_ext[i];
            m_str[i] = o.m_str[i];
        }
        // a strided view can only become LayoutLeft/Right when its strides are of that kind
        if constexpr (Impl::layout_kind<array_layout>::v == 0 && rank_ > 1) {
            if (m_str[0] != 1 && m_ptr && span() > 0) kshim::fail("View assignment: strides incompatible with LayoutLeft (" + label() + ")");
        }
        if constexpr (Impl::layout_kind<array_layout>::v == 1 && rank_ > 1) {
            if (m_str[rank_ - 1] != 1 && m_ptr && span() > 0) kshim::fail("View assignment: strides incompatible with LayoutRight (" + label() + ")");
        }
        std::size_t stat[8] = {1, 1, 1, 1, 1, 1, 1, 1};
        collect_static(stat);
    }

public:
    template <class... I>
        requires((std::is_convertible_v<I, std::size_t> && ...) && sizeof...(I) <= 8)
    value_type& operator()(I... i) const
    {
        static_assert(sizeof...(I) >= rank_, "rank mismatch in View access");
        std::size_t const idx[sizeof...(I) + 1] = {static_cast<std::size_t>(i)..., 0};
        std::size_t off = 0;
        for (unsigned k = 0; k < rank_; ++k) {
            if (idx[k] >= m_ext[k]) [[unlikely]] {
                oob(idx, sizeof...(I));
            }
            off += idx[k] * m_str[k];
        }
        if (m_ptr == nullptr) [[unlikely]] {
            kshim::fail("access to an unallocated view");
        }
        check_space();
        if (kshim::tracing) [[unlikely]] {
            kshim::trace_access(const_cast<void*>(static_cast<void const*>(m_ptr + off)), sizeof(value_type), m_alloc ? &m_alloc->info : nullptr);
        }
        return m_ptr[off];
    }
    template <class I>
        requires(std::is_convertible_v<I, std::size_t> && ViewTraits<DataType, P...>::rank == 1)
    value_type& operator[](I i) const
    {
        return (*this)(i);
    }
    template <class... I>
    value_type& access(I... i) const
    {
        return (*this)(i...);
    }
    // raw access for the harness: no space check, no trace
    template <class... I>
    value_type& kshim_at(I... i) const
    {
        std::size_t const idx[sizeof...(I) + 1] = {static_cast<std::size_t>(i)..., 0};
        std::size_t off = 0;
        for (unsigned k = 0; k < rank_; ++k) {
            if (idx[k] >= m_ext[k]) oob(idx, sizeof...(I));
            off += idx[k] * m_str[k];
        }
        return m_ptr[off];
    }

    value_type* data() const
    {
        return m_ptr;
    }
    template <class I>
    constexpr std::size_t extent(I const& r) const
    {
        return static_cast<unsigned>(r) < 8 ? m_ext[static_cast<unsigned>(r)] : 1;
    }
    template <class I>
    constexpr int extent_int(I const& r) const
    {
        return static_cast<int>(extent(r));
    }
    static constexpr std::size_t static_extent(unsigned)
    {
        return 0;
    }
    template <class I>
    constexpr std::size_t stride(I const& r) const
    {
        return m_str[static_cast<unsigned>(r)];
    }
    constexpr std::size_t stride_0() const
    {
        return m_str[0];
    }
    constexpr std::size_t stride_1() const
    {
        return m_str[1];
    }
    std::size_t size() const
    {
        std::size_t s = 1;
        for (unsigned i = 0; i < rank_; ++i) s *= m_ext[i];
        return s;
    }
    std::size_t span() const
    {
        if (size() == 0) return 0;
        std::size_t s = 1;
        for (unsigned i = 0; i < rank_; ++i) s += (m_ext[i] - 1) * m_str[i];
        return s;
    }
    bool span_is_contiguous() const
    {
        return span() == size();
    }
    std::string label() const
    {
        return m_alloc ? m_alloc->info.label : std::string();
    }
    bool is_allocated() const
    {
        return m_ptr != nullptr;
    }
    long use_count() const
    {
        return m_alloc.use_count();
    }
    array_layout layout() const
    {
        array_layout l;
        for (unsigned i = 0; i < rank_; ++i) l.dimension[i] = m_ext[i];
        if constexpr (Impl::layout_kind<array_layout>::v == 2) {
            for (unsigned i = 0; i < rank_; ++i) l.stride[i] = m_str[i];
        }
        return l;
    }
    kshim::AllocInfo const* kshim_alloc() const
    {
        return m_alloc ? &m_alloc->info : nullptr;
    }

    template <class D2, class... P2>
    void kshim_set(std::shared_ptr<Impl::Alloc> const& a, value_type* p, std::size_t const* e, std::size_t const* s, unsigned n)
    {
        m_alloc = a;
        m_ptr = p;
        for (unsigned i = 0; i < 8; ++i) {
            m_ext[i] = i < n ? e[i] : 1;
            m_str[i] = i < n ? s[i] : 0;
        }
    }
    template <class V2>
    void kshim_allocate_like(V2 const& v)
    {
        for (unsigned i = 0; i < 8; ++i) m_ext[i] = v.extent(i);
        if constexpr (Impl::layout_kind<array_layout>::v == 2) {
            for (unsigned i = 0; i < rank_; ++i) m_str[i] = v.stride(i);
        } else {
            set_strides();
        }
        allocate(v.label(), true);
    }
    std::shared_ptr<Impl::Alloc> const& kshim_shared() const
    {
        return m_alloc;
    }
};

template <class D1, class... P1, class D2, class... P2>
bool operator==(View<D1, P1...> const& a, View<D2, P2...> const& b)
{
    if constexpr (View<D1, P1...>::rank_ != View<D2, P2...>::rank_) {
        return false;
    } else {
        if (static_cast<void const*>(a.data()) != static_cast<void const*>(b.data()) || a.span() != b.span()) return false;
        for (unsigned i = 0; i < View<D1, P1...>::rank_; ++i)
            if (a.extent(i) != b.extent(i)) return false;
        return true;
    }
}
template <class D1, class... P1, class D2, class... P2>
bool operator!=(View<D1, P1...> const& a, View<D2, P2...> const& b)
{
    return !(a == b);
}

// ------------------------------------------------------------------ subview
namespace Impl {
template <class A>
void range_of(A const& a, std::size_t ext, std::size_t& b, std::size_t& e)
{
    if constexpr (is_all_v<A>) {
        b = 0;
        e = ext;
    } else if constexpr (is_index_v<A>) {
        b = static_cast<std::size_t>(a);
        e = b + 1;
    } else {
        b = static_cast<std::size_t>(a.first);
        e = static_cast<std::size_t>(a.second);
    }
}
template <class L, class... A>
struct sub_layout
{
    static constexpr bool r[] = {is_range_v<A>..., true};
    static constexpr unsigned n = sizeof...(A);
    static constexpr unsigned count()
    {
        unsigned c = 0;
        for (unsigned i = 0; i < n; ++i) c += r[i];
        return c;
    }
    static constexpr bool leading() // ranges first, then indices
    {
        bool idx = false;
        for (unsigned i = 0; i < n; ++i) {
            if (!r[i]) idx = true;
            else if (idx) return false;
        }
        return true;
    }
    static constexpr bool trailing()
    {
        bool rg = false;
        for (unsigned i = 0; i < n; ++i) {
            if (r[i]) rg = true;
            else if (rg) return false;
        }
        return true;
    }
    using type = std::conditional_t<
            (count() == 0) || (std::is_same_v<L, LayoutLeft> && leading()) || (std::is_same_v<L, LayoutRight> && trailing()),
            L,
            LayoutStride>;
};
} // namespace Impl

template <class D, class... P, class... A>
auto subview(View<D, P...> const& v, A const&... a)
{
    using V = View<D, P...>;
    static_assert(sizeof...(A) == V::rank_, "subview: wrong number of arguments");
    constexpr unsigned nr = ((Impl::is_range_v<A> ? 1u : 0u) + ... + 0u);
    using R = View<
            typename Impl::MakeDT<typename V::value_type, nr>::type,
            typename Impl::sub_layout<typename V::array_layout, A...>::type,
            typename V::memory_space,
            typename V::memory_traits>;
    std::size_t ext[8], str[8];
    unsigned d = 0, o = 0;
    std::size_t off = 0;
    (
            [&](auto const& arg) {
                using Arg = std::remove_cvref_t<decltype(arg)>;
                std::size_t b = 0, e = 0;
                Impl::range_of(arg, v.extent(d), b, e);
                if (b > e || e > v.extent(d)) {
                    kshim::fail(
                            "subview out of bounds of '" + v.label() + "': dimension " + std::to_string(d) + " [" + std::to_string(static_cast<long long>(b)) + ","
                            + std::to_string(static_cast<long long>(e)) + ") of extent " + std::to_string(v.extent(d)));
                }
                off += b * v.stride(d);
                if constexpr (Impl::is_range_v<Arg>) {
                    ext[o] = e - b;
                    str[o] = v.stride(d);
                    ++o;
                }
                ++d;
            }(a),
            ...);
    R r;
    r.template kshim_set<D>(v.kshim_shared(), v.data() ? v.data() + off : nullptr, ext, str, nr);
    return r;
}
template <class V, class... A>
using Subview = decltype(subview(std::declval<V>(), std::declval<A>()...));

} // namespace Kokkos
