#pragma once
#include <cstddef>
#include <tuple>
#include <type_traits>
#include <utility>
#include "kshim_runtime.hpp"
namespace Kokkos {
template <class T, std::size_t N>
struct Array
{
    T m_internal_implementation_private_member_data[N];

    using value_type = T;
    using size_type = std::size_t;
    using reference = T&;
    using const_reference = T const&;
    using pointer = T*;
    using const_pointer = T const*;
    using iterator = T*;
    using const_iterator = T const*;

    static constexpr std::size_t size()
    {
        return N;
    }
    static constexpr bool empty()
    {
        return false;
    }
    static constexpr std::size_t max_size()
    {
        return N;
    }
    template <class I>
    constexpr T& operator[](I i)
    {
        chk(i);
        return m_internal_implementation_private_member_data[i];
    }
    template <class I>
    constexpr T const& operator[](I i) const
    {
        chk(i);
        return m_internal_implementation_private_member_data[i];
    }
    constexpr T* data()
    {
        return m_internal_implementation_private_member_data;
    }
    constexpr T const* data() const
    {
        return m_internal_implementation_private_member_data;
    }
    constexpr T* begin() { return data(); }
    constexpr T const* begin() const { return data(); }
    constexpr T* end() { return data() + N; }
    constexpr T const* end() const { return data() + N; }
    friend constexpr bool operator==(Array const& a, Array const& b)
    {
        for (std::size_t i = 0; i < N; ++i)
            if (!(a.m_internal_implementation_private_member_data[i] == b.m_internal_implementation_private_member_data[i])) return false;
        return true;
    }
    friend constexpr bool operator!=(Array const& a, Array const& b)
    {
        return !(a == b);
    }

private:
    template <class I>
    static constexpr void chk(I i)
    {
        if (!std::is_constant_evaluated()) {
            if (!(static_cast<long long>(i) >= 0 && static_cast<long long>(i) < static_cast<long long>(N))) {
                kshim::fail("index " + std::to_string(static_cast<long long>(i)) + " out of the bounds of a Kokkos::Array of size " + std::to_string(N));
            }
        }
    }
};
template <class T>
struct Array<T, 0>
{
    using value_type = T;
    static constexpr std::size_t size()
    {
        return 0;
    }
    static constexpr bool empty()
    {
        return true;
    }
    constexpr T* data()
    {
        return nullptr;
    }
    constexpr T const* data() const
    {
        return nullptr;
    }
    T& operator[](std::size_t)
    {
        kshim::fail("access to an element of an empty Kokkos::Array");
    }
    T const& operator[](std::size_t) const
    {
        kshim::fail("access to an element of an empty Kokkos::Array");
    }
    constexpr T* begin() const { return nullptr; }
    constexpr T* end() const { return nullptr; }
};
template <class T, class... Us>
Array(T, Us...) -> Array<T, 1 + sizeof...(Us)>;

template <class T, std::size_t N>
constexpr T* begin(Array<T, N>& a)
{
    return a.data();
}
template <class T, std::size_t N>
constexpr T const* begin(Array<T, N> const& a)
{
    return a.data();
}
template <class T, std::size_t N>
constexpr T* end(Array<T, N>& a)
{
    return a.data() + N;
}
template <class T, std::size_t N>
constexpr T const* end(Array<T, N> const& a)
{
    return a.data() + N;
}
template <std::size_t I, class T, std::size_t N>
constexpr T& get(Array<T, N>& a)
{
    return a[I];
}
template <std::size_t I, class T, std::size_t N>
constexpr T const& get(Array<T, N> const& a)
{
    return a[I];
}
template <std::size_t I, class T, std::size_t N>
constexpr T&& get(Array<T, N>&& a)
{
    return std::move(a[I]);
}
template <class T, std::size_t N>
constexpr Array<T, N> to_array(T const (&a)[N])
{
    Array<T, N> r {};
    for (std::size_t i = 0; i < N; ++i) r[i] = a[i];
    return r;
}
} // namespace Kokkos
template <class T, std::size_t N>
struct std::tuple_size<Kokkos::Array<T, N>> : std::integral_constant<std::size_t, N>
{
};
template <std::size_t I, class T, std::size_t N>
struct std::tuple_element<I, Kokkos::Array<T, N>>
{
    using type = T;
};
