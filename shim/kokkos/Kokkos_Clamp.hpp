#pragma once
#include "Kokkos_MinMax.hpp"
