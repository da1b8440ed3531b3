#pragma once
#include <cmath>
#include <cstdlib>
#include <type_traits>
#include "Kokkos_Macros.hpp"
#include "Kokkos_MathematicalConstants.hpp"
namespace Kokkos {
#define KSHIM_M1(F) \
    template <class T> \
        requires std::is_arithmetic_v<T> \
    inline auto F(T x) { using std::F; return F(x); }
#define KSHIM_M2(F) \
    template <class T, class U> \
        requires(std::is_arithmetic_v<T> && std::is_arithmetic_v<U>) \
    inline auto F(T x, U y) { using std::F; return F(x, y); }
KSHIM_M1(abs) KSHIM_M1(fabs) KSHIM_M1(sqrt) KSHIM_M1(cbrt) KSHIM_M1(exp) KSHIM_M1(exp2) KSHIM_M1(expm1) KSHIM_M1(log) KSHIM_M1(log10)
KSHIM_M1(log2) KSHIM_M1(log1p) KSHIM_M1(sin) KSHIM_M1(cos) KSHIM_M1(tan) KSHIM_M1(asin) KSHIM_M1(acos) KSHIM_M1(atan) KSHIM_M1(sinh) KSHIM_M1(cosh)
KSHIM_M1(tanh) KSHIM_M1(asinh) KSHIM_M1(acosh) KSHIM_M1(atanh) KSHIM_M1(erf) KSHIM_M1(erfc) KSHIM_M1(tgamma) KSHIM_M1(lgamma) KSHIM_M1(ceil)
KSHIM_M1(floor) KSHIM_M1(trunc) KSHIM_M1(round) KSHIM_M1(nearbyint) KSHIM_M1(logb) KSHIM_M1(isfinite) KSHIM_M1(isinf) KSHIM_M1(isnan) KSHIM_M1(signbit)
KSHIM_M2(fmod) KSHIM_M2(remainder) KSHIM_M2(fmin) KSHIM_M2(fmax) KSHIM_M2(fdim) KSHIM_M2(pow) KSHIM_M2(atan2) KSHIM_M2(copysign) KSHIM_M2(nextafter)
KSHIM_M2(hypot)
template <class T>
    requires std::is_arithmetic_v<T>
inline auto rsqrt(T x)
{
    return 1 / std::sqrt(x);
}
template <class T, class U, class V>
inline auto fma(T x, U y, V z)
{
    return std::fma(x, y, z);
}
template <class T, class U, class V>
inline auto hypot(T x, U y, V z)
{
    return std::hypot(x, y, z);
}
} // namespace Kokkos
