#pragma once
#include <utility>
namespace Kokkos {
template <class A, class B>
struct pair
{
    using first_type = A;
    using second_type = B;
    A first {};
    B second {};
    constexpr pair() = default;
    constexpr pair(A const& a, B const& b) : first(a), second(b) {}
    template <class U, class V>
    constexpr pair(pair<U, V> const& o) : first(o.first), second(o.second)
    {
    }
    template <class U, class V>
    constexpr pair(std::pair<U, V> const& o) : first(o.first), second(o.second)
    {
    }
    template <class U, class V>
    constexpr pair& operator=(pair<U, V> const& o)
    {
        first = o.first;
        second = o.second;
        return *this;
    }
    std::pair<A, B> to_std_pair() const
    {
        return {first, second};
    }
};
template <class A, class B>
struct pair<A&, B&>
{
    A& first;
    B& second;
    constexpr pair(A& a, B& b) : first(a), second(b) {}
};
template <class A, class B>
pair(A, B) -> pair<A, B>;
template <class A, class B>
constexpr bool operator==(pair<A, B> const& x, pair<A, B> const& y)
{
    return x.first == y.first && x.second == y.second;
}
template <class A, class B>
constexpr bool operator!=(pair<A, B> const& x, pair<A, B> const& y)
{
    return !(x == y);
}
template <class A, class B>
constexpr bool operator<(pair<A, B> const& x, pair<A, B> const& y)
{
    return x.first < y.first || (!(y.first < x.first) && x.second < y.second);
}
template <class A, class B>
constexpr pair<A, B> make_pair(A a, B b)
{
    return pair<A, B>(a, b);
}
} // namespace Kokkos
