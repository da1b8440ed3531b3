#pragma once
#include <limits>
namespace Kokkos {
namespace Experimental {
template <class T> inline constexpr T infinity_v = std::numeric_limits<T>::infinity();
template <class T> inline constexpr T finite_min_v = std::numeric_limits<T>::lowest();
template <class T> inline constexpr T finite_max_v = std::numeric_limits<T>::max();
template <class T> inline constexpr T epsilon_v = std::numeric_limits<T>::epsilon();
template <class T> inline constexpr T norm_min_v = std::numeric_limits<T>::min();
template <class T> inline constexpr T denorm_min_v = std::numeric_limits<T>::denorm_min();
template <class T> inline constexpr T quiet_NaN_v = std::numeric_limits<T>::quiet_NaN();
} // namespace Experimental
template <class T>
struct reduction_identity
{
    static constexpr T sum() { return T(0); }
    static constexpr T prod() { return T(1); }
    static constexpr T max() { return std::numeric_limits<T>::lowest(); }
    static constexpr T min() { return std::numeric_limits<T>::max(); }
    static constexpr T land() { return T(1); }
    static constexpr T lor() { return T(0); }
    static constexpr T bor() { return T(0); }
    static constexpr T band() { return T(~T(0)); }
};
// as in Kokkos: the identities of min and max are the largest and smallest finite numbers
} // namespace Kokkos
