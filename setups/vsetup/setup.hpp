// A problem setup whose parts are supplied by the explorer.
#pragma once

#include <inih/INIReader.hpp>

#include <Kokkos_Core.hpp>
#include <eos.hpp>
#include <grid.hpp>
#include <grid_type.hpp>
#include <kokkos_shortcut.hpp>
#include <ndim.hpp>
#include <range.hpp>
#include <shift_criterion_interface.hpp>
#include <user_step.hpp>

#include "boundary.hpp"
#include "initialization_interface.hpp"
#include "vsetup_hooks.hpp"

namespace hclpp {

class ParamSetup
{
public:
    explicit ParamSetup(INIReader const& /*reader*/) {}
};

template <class Gravity>
class InitializationSetup : public IInitializationProblem
{
public:
    InitializationSetup(EOS const& /*eos*/, ParamSetup const& /*p*/, Gravity const& /*g*/) {}
    void execute(Range const& range, Grid const& grid, KV_double_3d const& rho, KV_double_4d const& u, KV_double_3d const& P, KV_double_4d const& fx) const final
    {
        vsetup::init(range, grid, rho, u, P, fx);
    }
};

template <class Gravity>
class BoundarySetup : public IBoundaryCondition<Gravity>
{
public:
    BoundarySetup(int idim, int iface, EOS const& /*eos*/, ParamSetup const& /*p*/) : IBoundaryCondition<Gravity>(idim, iface) {}
    void execute(Grid const& grid, Gravity const& /*gravity*/, KV_double_3d const& rho, KV_double_4d const& rhou, KV_double_3d const& E, KV_double_4d const& fx) const final
    {
        vsetup::boundary(this->bc_idim(), this->bc_iface(), grid, rho, rhou, E, fx);
    }
};

class GridSetup : public IGridType
{
public:
    explicit GridSetup(Param const& /*param*/) {}
    void execute(std::array<int, 3> ng, std::array<int, 3> nx, KVH_double_1d const& x0, KVH_double_1d const& x1, KVH_double_1d const& x2) const final
    {
        vsetup::grid(ng, nx, x0, x1, x2);
    }
};

class UserStep : public IUserStep
{
public:
    void execute(Range const& range, double t, double dt, KV_double_3d const& rho, KV_double_3d const& E, KV_double_4d const& fx) const final
    {
        if (vsetup::user_step) vsetup::user_step(range, t, dt, rho, E, fx);
    }
};

class UserShiftCriterion : public IShiftCriterion
{
public:
    explicit UserShiftCriterion(ParamSetup const& /*p*/) {}
    [[nodiscard]] auto execute(Range const& range, Grid const& grid, KV_cdouble_3d const& rho, KV_cdouble_4d const& rhou, KV_cdouble_3d const& E, KV_cdouble_4d const& fx) const -> bool final
    {
        return vsetup::shift && vsetup::shift(range, grid, rho, rhou, E, fx);
    }
};

} // namespace hclpp
