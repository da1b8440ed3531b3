// C06: the kernels of the shipped problems.
#include "kernels.hpp"
#include "shipped.hpp"

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        std::vector<std::pair<std::string, std::string>> const files
                = {{"advection_gap", "advection_gap.ini"}, {"advection_sinus", "advection_sinus.ini"}, {"eq_hydro_sphe", "eq_hydro_sphe.ini"}, {"gresho_vortex", "gresho_vortex.ini"},
                   {"heat_nickel", "heat_nickel.ini"}, {"implosion_test", "implosion_test.ini"}, {"kelvin_helmholtz", "kelvin_helmholtz.ini"}, {"rayleigh_taylor", "rayleigh_taylor.ini"},
                   {"rayleigh_taylor3d", "rayleigh_taylor3d.ini"}, {"sedov1d", "sedov1d.ini"}, {"sedov2d", "sedov2d.ini"}, {"sedov3d", "sedov3d_sph.ini"},
                   {"shock_tube", sim::spherical() ? nd == 1 ? "shock_tube1d_sph.ini" : "shock_tube3d_sph.ini" : "shock_tube.ini"},
                   {"shock_wall", sim::radgas() ? "shock_wall_rad.ini" : "shock_wall_pg.ini"}, {"stratified_atm", "stratified_atm.ini"}, {"v1d", nd == 1 ? "v1d_1d.ini" : "v1d_3d.ini"}};
        for (auto const& [setup, ini] : files) {
            if (setup != MY_SETUP) continue;
            Shipped s(ini);
            std::array<int, 3> n {1, 1, 1};
            for (int d = 0; d < nd; ++d) n[static_cast<std::size_t>(d)] = nd == 1 ? 16 : nd == 2 ? 6 : 4;
            bool const moving = setup == "v1d" && nd == 1;
            if (moving) n[0] = 130; // the criterion of its moving grid looks at the 100th cell
            for (int d = 0; d < 3; ++d) s.set("Grid", vh::cat("Nx", d, "_glob"), n[static_cast<std::size_t>(d)]);
            s.set("Output", "iter_frequency", 1);
            s.set("Output", "max_iter", moving ? 2 : 3);
            kernels::explore(x, ini, false, [=](kshim::ExecCfg const& e) {
                v1d::Case prof;
                if (setup == "v1d") prof = profile(s, n);
                Run const r = run(s, setup == "v1d" ? &prof : nullptr, 1, 0, e);
                return kernels::Outcome {r.problem, r.res.snaps};
            }, true);
        }
    });
}
