// Hooks through which the explorer drives the user-supplied parts of a simulation.
#pragma once
#include <array>
#include <functional>

#include <kokkos_shortcut.hpp>

namespace hclpp {
class Grid;
class Range;
class Param;
} // namespace hclpp

namespace vsetup {
using namespace hclpp;
extern std::function<void(Range const&, Grid const&, KV_double_3d const&, KV_double_4d const&, KV_double_3d const&, KV_double_4d const&)> init;
extern std::function<void(int, int, Grid const&, KV_double_3d const&, KV_double_4d const&, KV_double_3d const&, KV_double_4d const&)> boundary;
extern std::function<void(std::array<int, 3>, std::array<int, 3>, KVH_double_1d const&, KVH_double_1d const&, KVH_double_1d const&)> grid;
extern std::function<void(Range const&, double, double, KV_double_3d const&, KV_double_3d const&, KV_double_4d const&)> user_step;
extern std::function<bool(Range const&, Grid const&, KV_cdouble_3d const&, KV_cdouble_4d const&, KV_cdouble_3d const&, KV_cdouble_4d const&)> shift;
} // namespace vsetup
