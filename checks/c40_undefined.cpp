// C40: parts of a run that the problem does not define.
#include "shipped.hpp"

namespace {

struct Part
{
    std::string name, section, key;
    std::vector<std::string> defined_by; // problems which have it
};

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough();
        std::vector<std::pair<std::string, std::string>> const files
                = {{"advection_gap", "advection_gap.ini"}, {"advection_sinus", "advection_sinus.ini"}, {"eq_hydro_sphe", "eq_hydro_sphe.ini"}, {"gresho_vortex", "gresho_vortex.ini"},
                   {"heat_nickel", "heat_nickel.ini"}, {"implosion_test", "implosion_test.ini"}, {"kelvin_helmholtz", "kelvin_helmholtz.ini"}, {"rayleigh_taylor", "rayleigh_taylor.ini"},
                   {"rayleigh_taylor3d", "rayleigh_taylor3d.ini"}, {"sedov1d", "sedov1d.ini"}, {"sedov2d", "sedov2d.ini"}, {"sedov3d", "sedov3d_sph.ini"},
                   {"shock_tube", sim::spherical() ? nd == 1 ? "shock_tube1d_sph.ini" : "shock_tube3d_sph.ini" : "shock_tube.ini"},
                   {"shock_wall", sim::radgas() ? "shock_wall_rad.ini" : "shock_wall_pg.ini"}, {"stratified_atm", "stratified_atm.ini"}, {"v1d", nd == 1 ? "v1d_1d.ini" : "v1d_3d.ini"}};
        std::vector<Part> parts;
        for (int d = 0; d < nd; ++d)
            for (char const* side : {"_left", "_right"}) parts.push_back({vh::cat("boundary ", d, side), "Boundary Condition", vh::cat("BC_X", d, side), {"eq_hydro_sphe", "stratified_atm"}});
        parts.push_back({"grid", "Grid", "type", {"v1d"}});
        parts.push_back({"step", "User step", "user_step", {}});
        parts.push_back({"criterion of the moving grid", "Grid", "shift_grid", {"v1d"}});
        for (auto const& [setup, ini] : files) {
            if (setup != MY_SETUP) continue;
            std::array<int, 3> n {1, 1, 1};
            for (int d = 0; d < nd; ++d) n[static_cast<std::size_t>(d)] = nd == 1 ? 16 : nd == 2 ? 12 : 8;
            for (auto const& part : parts) {
                if (std::ranges::find(part.defined_by, setup) != part.defined_by.end()) continue;
                for (int p = 1; p <= (th ? 8 : 4); ++p)
                    for (int a = 1; a <= p; ++a)
                        for (int b = 1; a * b <= p; ++b) {
                            if (p % (a * b)) continue;
                            std::array<int, 3> const dims {a, b, p / a / b};
                            if ((nd < 2 && dims[1] > 1) || (nd < 3 && dims[2] > 1)) continue;
                            bool fits = true;
                            for (std::size_t d = 0; d < 3; ++d)
                                if (dims[d] > 1 && n[d] / dims[d] < 2) fits = false; // the ghost layers of the shipped files
                            if (!fits) continue;
                            for (int perm = 0; perm < (p > 1 ? 3 : 1); ++perm)
                                for (int freq : {0, 1})
                                    x.run(vh::cat(ini, " asks for its own ", part.name, " on ", a, "x", b, "x", dims[2], " placement ", perm, " outputs ", freq), [=, file = ini, su = setup] {
                                        Shipped s(file);
                                        for (int d = 0; d < 3; ++d) {
                                            s.set("Grid", vh::cat("Nx", d, "_glob"), n[static_cast<std::size_t>(d)]);
                                            s.set("Parallelization", vh::cat("mpi_dims_cart_x", d), dims[static_cast<std::size_t>(d)]);
                                        }
                                        s.set("Output", "iter_frequency", freq);
                                        s.set("Output", "time_frequency", 0);
                                        s.set("Output", "max_iter", 3);
                                        if (s.num("problem.cell_shift", 0) > 0) s.set("Problem", "cell_shift", 2); // small blocks
                                        v1d::Case prof;
                                        if (su == "v1d") prof = profile(s, n);
                                        // the problem itself runs
                                        Run const plain = run(s, su == "v1d" ? &prof : nullptr, p, perm);
                                        if (!plain.problem.empty() || plain.res.snaps.empty()) return vh::violate("the problem does not run", plain.problem);
                                        // parts of the input file that the default values stand for
                                        s.set(part.section, part.key, "UserDefined");
                                        Run const r = run(s, su == "v1d" ? &prof : nullptr, p, perm);
                                        vh::transitions(1);
                                        vh::trace_validated();
                                        if (!alpha::refused(r.res.out)) return vh::violate("not refused by all processes: " + part.name, r.res.out.summary());
                                        for (int q = 0; q < p; ++q)
                                            if (r.res.out.out[static_cast<std::size_t>(q)].empty() && r.res.out.err[static_cast<std::size_t>(q)].empty()) return vh::violate("a process stops without a word: " + part.name, vh::cat("process ", q));
                                        vh::state(vh::Hash() << r.res.out.summary());
                                    });
                        }
            }
        }
    });
}
