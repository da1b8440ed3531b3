#pragma once
#include "kshim_runtime.hpp"
namespace Kokkos {
[[noreturn]] inline void abort(char const* msg)
{
    kshim::fail(std::string("Kokkos::abort: ") + msg);
}
} // namespace Kokkos
