// Stand-in for Kokkos used by the explorers: same interface (the part the code uses and a margin
// around it), with every scheduling decision taken by the explorer (see kshim_runtime.hpp).
#pragma once
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iosfwd>
#include <initializer_list>
#include <ostream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include "Kokkos_Abort.hpp"
#include "Kokkos_Array.hpp"
#include "Kokkos_Assert.hpp"
#include "Kokkos_Clamp.hpp"
#include "Kokkos_Complex.hpp"
#include "Kokkos_Macros.hpp"
#include "Kokkos_MathematicalConstants.hpp"
#include "Kokkos_MathematicalFunctions.hpp"
#include "Kokkos_MinMax.hpp"
#include "Kokkos_NumericTraits.hpp"
#include "Kokkos_Pair.hpp"
#include "Kokkos_Printf.hpp"
#include "Kokkos_Swap.hpp"
#include "Kokkos_View.hpp"
#include "kshim_runtime.hpp"

namespace Kokkos {

// ------------------------------------------------------------------ initialisation
struct InitializationSettings
{
};
inline void initialize(int&, char**)
{
    kshim::life_begin();
}
inline void initialize(InitializationSettings const& = {})
{
    kshim::life_begin();
}
inline void finalize()
{
    kshim::fence();
    kshim::life_end();
}
inline bool is_initialized()
{
    return kshim::life_on(false);
}
inline bool is_finalized()
{
    return kshim::life_on(true);
}
class ScopeGuard
{
public:
    template <class... A>
    explicit ScopeGuard(A&&...)
    {
        kshim::life_begin();
    }
    ~ScopeGuard() noexcept(false)
    {
        if (std::uncaught_exceptions() == 0) {
            kshim::fence();
        } else {
            try {
                kshim::fence();
            } catch (...) {
            }
        }
        kshim::life_end();
    }
    ScopeGuard(ScopeGuard const&) = delete;
    ScopeGuard& operator=(ScopeGuard const&) = delete;
};
inline void fence(std::string const& = "")
{
    kshim::fence();
}
inline void print_configuration(std::ostream&, bool = false) {}
namespace Profiling {
inline void pushRegion(std::string const&) {}
inline void popRegion() {}
class ScopedRegion
{
public:
    explicit ScopedRegion(std::string const&) {}
};
} // namespace Profiling

// ------------------------------------------------------------------ policies
enum class Iterate { Default, Left, Right };
template <unsigned N, Iterate O = Iterate::Default, Iterate I = Iterate::Default>
struct Rank
{
    static constexpr unsigned rank = N;
};
template <class T>
struct IndexType
{
    using type = T;
};
struct Static
{
};
struct Dynamic
{
};
template <class T>
struct Schedule
{
};

namespace Impl {
template <class T>
struct is_rank : std::false_type
{
};
template <unsigned N, Iterate O, Iterate I>
struct is_rank<Rank<N, O, I>> : std::true_type
{
};
template <class T>
struct index_type_of
{
    using type = void;
};
template <class T>
struct index_type_of<IndexType<T>>
{
    using type = T;
};
template <class T>
    requires(std::is_integral_v<T>)
struct index_type_of<T>
{
    using type = T;
};
template <class D, class... P>
struct find_index
{
    using type = D;
};
template <class D, class H, class... P>
struct find_index<D, H, P...>
{
    using h = typename index_type_of<H>::type;
    using type = std::conditional_t<std::is_void_v<h>, typename find_index<D, P...>::type, h>;
};
template <class... P>
struct find_rank
{
    static constexpr unsigned value = 0;
};
template <class H, class... P>
struct find_rank<H, P...>
{
    static constexpr unsigned compute()
    {
        if constexpr (is_rank<H>::value) {
            return H::rank;
        } else {
            return find_rank<P...>::value;
        }
    }
    static constexpr unsigned value = compute();
};
} // namespace Impl

template <class... P>
class RangePolicy
{
public:
    using index_type = typename Impl::find_index<std::int64_t, P...>::type;
    using member_type = index_type;
    using execution_space = DefaultExecutionSpace;
    static constexpr unsigned rank = 1;
    RangePolicy() : m_b(0), m_e(0) {}
    template <class A, class B>
        requires(std::is_convertible_v<A, index_type> && std::is_convertible_v<B, index_type>)
    RangePolicy(A b, B e) : m_b(static_cast<index_type>(b))
                          , m_e(static_cast<index_type>(e))
    {
        if (m_e < m_b) {
            m_e = m_b;
        }
    }
    template <class S, class A, class B>
        requires(is_execution_space_v<S>)
    RangePolicy(S const&, A b, B e) : RangePolicy(b, e)
    {
    }
    index_type begin() const
    {
        return m_b;
    }
    index_type end() const
    {
        return m_e;
    }

private:
    index_type m_b, m_e;
};

template <class... P>
class MDRangePolicy
{
public:
    using index_type = typename Impl::find_index<std::int64_t, P...>::type;
    using array_index_type = std::int64_t;
    static constexpr unsigned rank = Impl::find_rank<P...>::value;
    using point_type = Array<index_type, rank>;
    using tile_type = Array<index_type, rank>;
    using execution_space = DefaultExecutionSpace;

    MDRangePolicy(point_type const& b, point_type const& e, tile_type const& = tile_type {}) : m_lower(b), m_upper(e) {}
    template <class LT, std::size_t LN, class UT, std::size_t UN>
    MDRangePolicy(Array<LT, LN> const& b, Array<UT, UN> const& e)
    {
        static_assert(LN == rank && UN == rank);
        for (unsigned i = 0; i < rank; ++i) {
            m_lower[i] = static_cast<index_type>(b[i]);
            m_upper[i] = static_cast<index_type>(e[i]);
        }
    }
    template <class LT, std::size_t LN, class UT, std::size_t UN>
    MDRangePolicy(LT const (&b)[LN], UT const (&e)[UN])
    {
        static_assert(LN == rank && UN == rank);
        for (unsigned i = 0; i < rank; ++i) {
            m_lower[i] = static_cast<index_type>(b[i]);
            m_upper[i] = static_cast<index_type>(e[i]);
        }
    }
    template <class LT, std::size_t LN, class UT, std::size_t UN, class TT, std::size_t TN>
    MDRangePolicy(LT const (&b)[LN], UT const (&e)[UN], TT const (&)[TN]) : MDRangePolicy(b, e)
    {
    }
    template <class S>
        requires(is_execution_space_v<S>)
    MDRangePolicy(S const&, point_type const& b, point_type const& e) : m_lower(b)
                                                                     , m_upper(e)
    {
    }
    point_type m_lower, m_upper;
};

// ------------------------------------------------------------------ iteration
namespace Impl {

template <class Policy>
struct Space
{
    static constexpr unsigned R = Policy::rank;
    using I = typename Policy::index_type;
    long lo[R], n[R];
    long total = 1;

    explicit Space(Policy const& p)
    {
        for (unsigned d = 0; d < R; ++d) {
            if constexpr (requires { p.m_lower; }) {
                lo[d] = static_cast<long>(p.m_lower[d]);
                n[d] = static_cast<long>(p.m_upper[d]) - lo[d];
            } else {
                lo[d] = static_cast<long>(p.begin());
                n[d] = static_cast<long>(p.end()) - lo[d];
            }
            if (n[d] < 0) {
                n[d] = 0;
            }
            total *= n[d];
        }
    }
    // the pos-th iteration of the chosen order -> flat identifier (dimension 0 fastest)
    long pick(long pos) const
    {
        switch (kshim::cfg().order) {
        case kshim::Order::left:
            return pos;
        case kshim::Order::left_reversed:
            return total - 1 - pos;
        case kshim::Order::right:
        case kshim::Order::right_reversed: {
            long q = kshim::cfg().order == kshim::Order::right ? pos : total - 1 - pos;
            long idx[R];
            for (int d = static_cast<int>(R) - 1; d >= 0; --d) {
                idx[d] = q % n[d];
                q /= n[d];
            }
            long f = 0;
            for (int d = static_cast<int>(R) - 1; d >= 0; --d) {
                f = f * n[d] + idx[d];
            }
            return f;
        }
        case kshim::Order::interleaved: {
            long const half = (total + 1) / 2;
            return pos < half ? 2 * pos : 2 * (pos - half) + 1;
        }
        }
        return pos;
    }
    template <class F, class... X>
    void call(F const& f, long id, X&&... x) const
    {
        call_impl(f, id, std::make_index_sequence<R> {}, std::forward<X>(x)...);
    }
    template <class F, std::size_t... K, class... X>
    void call_impl(F const& f, long id, std::index_sequence<K...>, X&&... x) const
    {
        I idx[R];
        long q = id;
        for (unsigned d = 0; d < R; ++d) {
            idx[d] = static_cast<I>(lo[d] + q % n[d]);
            q /= n[d];
        }
        if constexpr (requires { Policy::kshim_team; }) {
            f(typename Policy::member_type {static_cast<int>(idx[0]), static_cast<int>(n[0])}, std::forward<X>(x)...);
        } else {
            f(idx[K]..., std::forward<X>(x)...);
        }
    }
};

template <class P, class F>
void run_for(std::string const& label, P const& p, F const& f)
{
    kshim::KernelScope s;
    Space<P> const sp(p);
    bool const tr = kshim::tracing;
    if (tr) {
        kshim::trace_begin_kernel(label);
    }
    for (long q = 0; q < sp.total; ++q) {
        long const id = sp.pick(q);
        if (tr) {
            kshim::trace_begin_iteration(id);
        }
        sp.call(f, id);
        if (tr) {
            kshim::trace_end_iteration();
        }
    }
    if (tr) {
        kshim::trace_end_kernel();
    }
}
} // namespace Impl

template <class P, class F>
    requires(!std::is_integral_v<P>)
void parallel_for(std::string const& label, P const& p, F const& f)
{
    kshim::launch(label, [label, p, f] { Impl::run_for(label, p, f); });
}
template <class N, class F>
    requires(std::is_integral_v<N>)
void parallel_for(std::string const& label, N n, F const& f)
{
    parallel_for(label, RangePolicy<IndexType<std::int64_t>>(0, n), f);
}
template <class P, class F>
    requires(!std::is_integral_v<P> && !std::is_convertible_v<P, std::string>)
void parallel_for(P const& p, F const& f)
{
    parallel_for(std::string("unnamed"), p, f);
}
template <class N, class F>
    requires(std::is_integral_v<N>)
void parallel_for(N n, F const& f)
{
    parallel_for(std::string("unnamed"), n, f);
}

// ------------------------------------------------------------------ reducers
#define KSHIM_REDUCER(NAME, INIT, JOIN) \
    template <class Scalar, class Space = HostSpace> \
    struct NAME \
    { \
        using reducer = NAME; \
        using value_type = std::remove_cv_t<Scalar>; \
        using result_view_type = View<value_type, Space>; \
        value_type* p; \
        std::shared_ptr<Impl::Alloc> keep; \
        bool from_view = false; \
        explicit NAME(value_type& v) : p(&v) {} \
        template <class... Q> \
        explicit NAME(View<Scalar, Q...> const& v) : p(v.data()) \
                                                  , keep(v.kshim_shared()) \
                                                  , from_view(true) \
        { \
        } \
        static void init(value_type& v) \
        { \
            v = INIT; \
        } \
        static void join(value_type& d, value_type const& s) \
        { \
            JOIN; \
        } \
    }; \
    template <class T, class... Q> \
    NAME(View<T, Q...> const&) -> NAME<T, typename View<T, Q...>::memory_space>; \
    template <class T> \
    NAME(T&) -> NAME<T, HostSpace>;

KSHIM_REDUCER(Sum, reduction_identity<value_type>::sum(), d += s)
KSHIM_REDUCER(Prod, reduction_identity<value_type>::prod(), d *= s)
KSHIM_REDUCER(Min, reduction_identity<value_type>::min(), if (s < d) d = s)
KSHIM_REDUCER(Max, reduction_identity<value_type>::max(), if (s > d) d = s)
KSHIM_REDUCER(LAnd, reduction_identity<value_type>::land(), d = d && s)
KSHIM_REDUCER(LOr, reduction_identity<value_type>::lor(), d = d || s)
KSHIM_REDUCER(BAnd, reduction_identity<value_type>::band(), d = d & s)
KSHIM_REDUCER(BOr, reduction_identity<value_type>::bor(), d = d | s)

template <class S>
struct MinMaxScalar
{
    S min_val, max_val;
};
template <class Scalar, class Space = HostSpace>
struct MinMax
{
    using reducer = MinMax;
    using value_type = MinMaxScalar<std::remove_cv_t<Scalar>>;
    value_type* p;
    std::shared_ptr<Impl::Alloc> keep;
    bool from_view = false;
    explicit MinMax(value_type& v) : p(&v) {}
    static void init(value_type& v)
    {
        v.min_val = reduction_identity<Scalar>::min();
        v.max_val = reduction_identity<Scalar>::max();
    }
    static void join(value_type& d, value_type const& s)
    {
        if (s.min_val < d.min_val) d.min_val = s.min_val;
        if (s.max_val > d.max_val) d.max_val = s.max_val;
    }
};
template <class S, class I>
struct ValLocScalar
{
    S val;
    I loc;
};
template <class S, class I, class Space = HostSpace>
struct MinLoc
{
    using reducer = MinLoc;
    using value_type = ValLocScalar<S, I>;
    value_type* p;
    std::shared_ptr<Impl::Alloc> keep;
    bool from_view = false;
    explicit MinLoc(value_type& v) : p(&v) {}
    static void init(value_type& v)
    {
        v.val = reduction_identity<S>::min();
        v.loc = I {};
    }
    static void join(value_type& d, value_type const& s)
    {
        if (s.val < d.val) d = s;
    }
};
template <class S, class I, class Space = HostSpace>
struct MaxLoc
{
    using reducer = MaxLoc;
    using value_type = ValLocScalar<S, I>;
    value_type* p;
    std::shared_ptr<Impl::Alloc> keep;
    bool from_view = false;
    explicit MaxLoc(value_type& v) : p(&v) {}
    static void init(value_type& v)
    {
        v.val = reduction_identity<S>::max();
        v.loc = I {};
    }
    static void join(value_type& d, value_type const& s)
    {
        if (s.val > d.val) d = s;
    }
};

namespace Impl {
template <class T>
concept Reducer = requires { typename std::remove_cvref_t<T>::reducer; };
template <class T>
auto as_reducer(T&& t)
{
    using U = std::remove_cvref_t<T>;
    if constexpr (Reducer<U>) {
        return t;
    } else if constexpr (is_view_v<U>) {
        return Sum<typename U::value_type, typename U::memory_space>(t);
    } else {
        return Sum<U>(t);
    }
}

template <class P, class F, class... R>
void run_reduce(std::string const& label, P const& p, F const& f, R const&... r)
{
    kshim::KernelScope s;
    Space<P> const sp(p);
    bool const tr = kshim::tracing;
    if (tr) {
        kshim::trace_begin_kernel(label);
    }
    std::tuple<typename R::value_type...> total;
    std::apply([&](auto&... v) { (R::init(v), ...); }, total);
    long const nc = std::max(1, kshim::cfg().chunks);
    std::vector<std::tuple<typename R::value_type...>> parts;
    for (long c = 0; c < nc; ++c) {
        std::tuple<typename R::value_type...> part;
        std::apply([&](auto&... v) { (R::init(v), ...); }, part);
        long const b = sp.total * c / nc, e = sp.total * (c + 1) / nc;
        for (long q = b; q < e; ++q) {
            long const id = sp.pick(q);
            if (tr) {
                kshim::trace_begin_iteration(id);
            }
            std::apply([&](auto&... v) { sp.call(f, id, v...); }, part);
            if (tr) {
                kshim::trace_end_iteration();
            }
        }
        parts.push_back(part);
    }
    if (tr) {
        kshim::trace_end_kernel();
    }
    if (nc == 1) {
        total = parts[0];
    } else {
        // partial results joined as a tree, starting with identities
        for (auto const& part : parts) {
            [&]<std::size_t... K>(std::index_sequence<K...>) { (R::join(std::get<K>(total), std::get<K>(part)), ...); }(std::index_sequence_for<R...> {});
        }
    }
    [&]<std::size_t... K>(std::index_sequence<K...>) { ((*r.p = std::get<K>(total)), ...); }(std::index_sequence_for<R...> {});
}
template <class P, class F, class... R>
void dispatch_reduce(std::string const& label, P const& p, F const& f, R const&... r)
{
    auto body = [label, p, f, r...] { run_reduce(label, p, f, r...); };
    if ((r.from_view && ...)) {
        kshim::launch(label, body); // asynchronous
    } else {
        kshim::fence();
        if (kshim::in_kernel()) {
            kshim::fail("kernel '" + label + "' launched from inside a kernel");
        }
        body();
    }
}
} // namespace Impl

template <class P, class F, class... R>
    requires(!std::is_integral_v<P> && sizeof...(R) >= 1 && !std::is_convertible_v<P, std::string>)
void parallel_reduce(std::string const& label, P const& p, F const& f, R&&... r)
{
    Impl::dispatch_reduce(label, p, f, Impl::as_reducer(std::forward<R>(r))...);
}
template <class N, class F, class... R>
    requires(std::is_integral_v<N> && sizeof...(R) >= 1)
void parallel_reduce(std::string const& label, N n, F const& f, R&&... r)
{
    Impl::dispatch_reduce(label, RangePolicy<IndexType<std::int64_t>>(0, n), f, Impl::as_reducer(std::forward<R>(r))...);
}
template <class P, class F, class... R>
    requires(!std::is_convertible_v<P, std::string> && !std::is_integral_v<P> && sizeof...(R) >= 1)
void parallel_reduce(P const& p, F const& f, R&&... r)
{
    parallel_reduce(std::string("unnamed"), p, f, std::forward<R>(r)...);
}

// ------------------------------------------------------------------ scan
namespace Impl {
template <class F>
struct scan_value;
template <class C, class I, class V>
struct scan_value<void (C::*)(I, V&, bool) const>
{
    using type = V;
};
template <class C, class I, class V>
struct scan_value<void (C::*)(I, V&, bool const) const volatile>
{
    using type = V;
};

template <class P, class F, class V>
void run_scan(std::string const& label, P const& p, F const& f, V* result)
{
    kshim::KernelScope s;
    Space<P> const sp(p);
    bool const tr = kshim::tracing;
    if (tr) {
        kshim::trace_begin_kernel(label);
    }
    long const nc = std::max(1, kshim::cfg().chunks);
    std::vector<V> sums(nc, V {});
    auto const one = [&](long id, V& v, bool fin) {
        if (tr) {
            kshim::trace_begin_iteration(id);
        }
        sp.call(f, id, v, fin);
        if (tr) {
            kshim::trace_end_iteration();
        }
    };
    if (nc > 1) {
        for (long c = 0; c < nc; ++c) {
            V v {};
            for (long q = sp.total * c / nc; q < sp.total * (c + 1) / nc; ++q) {
                one(q, v, false);
            }
            sums[c] = v;
        }
    }
    // final pass: the chunks in ascending or descending order
    bool const down = kshim::cfg().order == kshim::Order::left_reversed || kshim::cfg().order == kshim::Order::right_reversed;
    V last {};
    for (long cc = 0; cc < nc; ++cc) {
        long const c = down ? nc - 1 - cc : cc;
        V v {};
        for (long d = 0; d < c; ++d) {
            v += sums[d];
        }
        for (long q = sp.total * c / nc; q < sp.total * (c + 1) / nc; ++q) {
            one(q, v, true);
        }
        if (c == nc - 1) {
            last = v;
        }
    }
    if (tr) {
        kshim::trace_end_kernel();
    }
    if (result) {
        *result = last;
    }
}
} // namespace Impl
template <class P, class F>
    requires(!std::is_integral_v<P>)
void parallel_scan(std::string const& label, P const& p, F const& f)
{
    using V = typename Impl::scan_value<decltype(&F::operator())>::type;
    kshim::launch(label, [label, p, f] { Impl::run_scan<P, F, V>(label, p, f, nullptr); });
}
template <class P, class F, class T>
    requires(!std::is_integral_v<P>)
void parallel_scan(std::string const& label, P const& p, F const& f, T& result)
{
    using V = typename Impl::scan_value<decltype(&F::operator())>::type;
    kshim::fence();
    V v {};
    Impl::run_scan<P, F, V>(label, p, f, &v);
    if constexpr (is_view_v<T>) {
        *result.data() = v;
    } else {
        result = v;
    }
}
template <class N, class F>
    requires(std::is_integral_v<N>)
void parallel_scan(std::string const& label, N n, F const& f)
{
    parallel_scan(label, RangePolicy<IndexType<std::int64_t>>(0, n), f);
}

// ------------------------------------------------------------------ mirrors and copies
template <class V>
using kshim_mirror_t = typename V::host_mirror_type;

template <class D, class... P>
auto create_mirror(View<D, P...> const& v)
{
    using V = View<D, P...>;
    using M = typename V::host_mirror_type;
    M m;
    m.kshim_allocate_like(v);
    return m;
}
template <class D, class... P>
auto create_mirror_view(View<D, P...> const& v)
{
    using V = View<D, P...>;
    using M = typename V::host_mirror_type;
    if constexpr (
            std::is_same_v<typename M::memory_space, typename V::memory_space> && std::is_same_v<typename M::data_type, typename V::data_type>
            && std::is_same_v<typename M::array_layout, typename V::array_layout>) {
        return M(v);
    } else {
        return create_mirror(v);
    }
}
template <class A, class D, class... P>
    requires(std::is_same_v<A, Impl::ViewCtorProp> || is_memory_space_v<A>)
auto create_mirror_view(A const&, View<D, P...> const& v)
{
    return create_mirror_view(v);
}

namespace Impl {
template <class V1, class V2>
void copy_elements(V1 const& dst, V2 const& src)
{
    static_assert(V1::rank_ == V2::rank_);
    constexpr unsigned R = V1::rank_;
    for (unsigned i = 0; i < R; ++i) {
        if (dst.extent(i) != src.extent(i)) {
            kshim::fail("deep_copy between '" + src.label() + "' and '" + dst.label() + "': extents differ");
        }
    }
    if (static_cast<void const*>(dst.data()) == static_cast<void const*>(src.data()) && dst.span() == src.span()) {
        return;
    }
    std::size_t const n = dst.size();
    std::vector<typename V1::non_const_value_type> tmp;
    tmp.reserve(n);
    std::size_t idx[8] = {};
    auto walk = [&](auto&& g) {
        for (auto& k : idx) {
            k = 0;
        }
        for (std::size_t q = 0; q < n; ++q) {
            g();
            for (unsigned d = 0; d < R; ++d) {
                if (++idx[d] < dst.extent(d)) {
                    break;
                }
                idx[d] = 0;
            }
        }
    };
    auto offset = [&](auto const& v) {
        std::size_t off = 0;
        for (unsigned d = 0; d < R; ++d) {
            off += idx[d] * v.stride(d);
        }
        return off;
    };
    walk([&] { tmp.push_back(src.data()[offset(src)]); });
    std::size_t q = 0;
    walk([&] { dst.data()[offset(dst)] = tmp[q++]; });
}
} // namespace Impl

template <class D1, class... P1, class D2, class... P2>
void deep_copy(View<D1, P1...> const& dst, View<D2, P2...> const& src)
{
    static_assert(!std::is_const_v<typename View<D1, P1...>::value_type>, "deep_copy needs a non-const destination");
    if (kshim::in_kernel()) {
        kshim::fail("deep_copy from inside a kernel");
    }
    ++kshim::n_copies;
    kshim::fence();
    Impl::copy_elements(dst, src);
}
template <class D1, class... P1, class T>
    requires(std::is_convertible_v<T, typename View<D1, P1...>::value_type> && !is_view_v<T>)
void deep_copy(View<D1, P1...> const& dst, T const& value)
{
    if (kshim::in_kernel()) {
        kshim::fail("deep_copy from inside a kernel");
    }
    kshim::fence();
    using V = View<D1, P1...>;
    constexpr unsigned R = V::rank_;
    std::size_t idx[8] = {};
    std::size_t const n = dst.size();
    for (std::size_t q = 0; q < n; ++q) {
        std::size_t off = 0;
        for (unsigned d = 0; d < R; ++d) {
            off += idx[d] * dst.stride(d);
        }
        dst.data()[off] = value;
        for (unsigned d = 0; d < R; ++d) {
            if (++idx[d] < dst.extent(d)) {
                break;
            }
            idx[d] = 0;
        }
    }
}
template <class T, class D2, class... P2>
    requires(std::is_arithmetic_v<T> && View<D2, P2...>::rank_ == 0)
void deep_copy(T& dst, View<D2, P2...> const& src)
{
    kshim::fence();
    dst = *src.data();
}
template <class S, class V, class T>
    requires(is_execution_space_v<S> && is_view_v<V>)
void deep_copy(S const&, V const& v, T const& t)
{
    deep_copy(v, t);
}
template <class D, class... P>
auto create_mirror_view_and_copy(HostSpace const&, View<D, P...> const& v)
{
    auto m = create_mirror_view(v);
    deep_copy(m, v);
    return m;
}

// ------------------------------------------------------------------ atomics (kernels are explored sequentially)
template <class T>
void atomic_add(T* p, std::type_identity_t<T> v)
{
    *p += v;
}
template <class T>
T atomic_fetch_add(T* p, std::type_identity_t<T> v)
{
    T o = *p;
    *p += v;
    return o;
}
template <class T>
void atomic_max(T* p, std::type_identity_t<T> v)
{
    if (v > *p) *p = v;
}
template <class T>
void atomic_min(T* p, std::type_identity_t<T> v)
{
    if (v < *p) *p = v;
}

} // namespace Kokkos

#include "Kokkos_Team.hpp"
