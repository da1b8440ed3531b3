#pragma once
#include <cstdio>
namespace Kokkos {
template <class... A>
inline void printf(char const* fmt, A... a)
{
    if constexpr (sizeof...(A) == 0) {
        std::fputs(fmt, stdout);
    } else {
        std::printf(fmt, a...);
    }
}
} // namespace Kokkos
