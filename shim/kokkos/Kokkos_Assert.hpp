#pragma once
#include <cstdio>
#include <cstdlib>
#include "Kokkos_Macros.hpp"
#include "Kokkos_Abort.hpp"
// the real macros expand to a braced block, so that a trailing semicolon is optional
#define KSHIM_STR2(x) #x
#define KSHIM_STR(x) KSHIM_STR2(x)
#define KOKKOS_EXPECTS(...) { if (!bool(__VA_ARGS__)) { ::std::fprintf(stderr, "KOKKOS_EXPECTS failed: %s %s:%d\n", #__VA_ARGS__, __FILE__, __LINE__); ::std::abort(); } }
#define KOKKOS_ENSURES(...) KOKKOS_EXPECTS(__VA_ARGS__)
#define KOKKOS_ASSERT(...) KOKKOS_EXPECTS(__VA_ARGS__)
