#pragma once
#define KOKKOS_VERSION 40501
#define KOKKOS_VERSION_MAJOR 4
#define KOKKOS_VERSION_MINOR 5
#define KOKKOS_VERSION_PATCH 1
#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_DEDUCTION_GUIDE
#define KOKKOS_RELOCATABLE_FUNCTION
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=, *this]
#define KOKKOS_ENABLE_SERIAL
#define KOKKOS_RESTRICT __restrict__
#define KOKKOS_IMPL_DEVICE_FUNCTION
#define KOKKOS_IMPL_HOST_FUNCTION
#define KOKKOS_IF_ON_HOST(CODE) { KSHIM_STRIP CODE }
#define KOKKOS_IF_ON_DEVICE(CODE)
#define KSHIM_STRIP(...) __VA_ARGS__
