#pragma once
#include <utility>
namespace Kokkos {
template <class T>
constexpr void kokkos_swap(T& a, T& b) noexcept
{
    T t(std::move(a));
    a = std::move(b);
    b = std::move(t);
}
} // namespace Kokkos
