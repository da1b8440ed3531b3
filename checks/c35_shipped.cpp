// C35: the shipped problems with their shipped input files.
#include "shipped.hpp"

namespace {

struct Place // a cell: centre, lower and upper faces, global index
{
    ref::V3 c, lo, hi;
    std::array<int, 3> i, n;
};

struct Problem
{
    std::string setup, ini;
    std::function<sim::Cell(Shipped const&, Place const&)> expect;
};

ref::Eos eos(Shipped const& s)
{
    ref::Eos e;
    e.rad = sim::radgas();
    e.gamma = s.num("perfect gas.gamma", 5. / 3);
    e.mu = s.num("perfect gas.mu", 1);
    return e;
}
double ini(Shipped const& s, char const* k, double def = 1)
{
    return s.num(std::string("initialisation.") + k, def);
}
sim::Cell cell(double rho, double P, double u)
{
    sim::Cell c;
    c.rho = rho;
    c.P = P;
    c.u = {u, u, u};
    return c;
}
bool other_side = false; // the side of a random interface
double volume(Place const& p)
{
    return ref::volume(sim::ndim(), sim::spherical(), p.lo, p.hi);
}

std::vector<Problem> problems()
{
    std::vector<Problem> v;
    v.push_back({"advection_gap", "advection_gap.ini", [](Shipped const& s, Place const& p) { return cell(p.c[0] > 0.3 && p.c[0] < 0.7 ? ini(s, "rho1") : ini(s, "rho0"), ini(s, "p0"), ini(s, "u0")); }});
    v.push_back({"advection_sinus", "advection_sinus.ini", [](Shipped const& s, Place const& p) { return cell(1 + 0.1 * std::sin(2 * pi * p.c[0]), ini(s, "p0"), ini(s, "u0")); }});
    v.push_back({"eq_hydro_sphe", "eq_hydro_sphe.ini", [](Shipped const& s, Place const& p) {
                     double const T = ini(s, "t0"), rho = ini(s, "rho0") * std::exp(eos(s).mu * ref::mp * ref::G * s.num("gravity.m", 1) / (ref::kb * T * p.c[0]));
                     return cell(rho, eos(s).pres_from_temp(rho, T), ini(s, "u0"));
                 }});
    v.push_back({"gresho_vortex", "gresho_vortex.ini", [](Shipped const& s, Place const& p) {
                     double const r = std::hypot(p.c[0], p.c[1]), P0 = 1 / (eos(s).gamma * std::pow(ini(s, "ma"), 2));
                     double const ut = r < 0.2 ? 5 * r : r < 0.4 ? 2 - 5 * r : 0;
                     double const P = r < 0.2 ? P0 + 12.5 * r * r : r < 0.4 ? P0 + 12.5 * r * r + 4 - 20 * r + 4 * std::log(5 * r) : P0 - 2 + 4 * std::log(2.);
                     sim::Cell c = cell(ini(s, "rho0"), P, ini(s, "u0"));
                     if (r < 0.4) c.u = {-ut * p.c[1] / r, ut * p.c[0] / r, 0};
                     return c;
                 }});
    v.push_back({"heat_nickel", "heat_nickel.ini", [](Shipped const& s, Place const&) {
                     sim::Cell c = cell(ini(s, "rho0"), eos(s).pres_from_temp(ini(s, "rho0"), ini(s, "t0")), ini(s, "u0"));
                     c.fx = {ini(s, "fx0")};
                     return c;
                 }});
    v.push_back({"implosion_test", "implosion_test.ini", [](Shipped const& s, Place const& p) {
                     bool const out = p.c[0] + p.c[1] > 0.15;
                     return cell(out ? ini(s, "rho0") : ini(s, "rho1"), out ? ini(s, "p0") : ini(s, "p1"), ini(s, "u0"));
                 }});
    v.push_back({"kelvin_helmholtz", "kelvin_helmholtz.ini", [](Shipped const& s, Place const& p) {
                     double const y = p.c[1], f = std::tanh((y - 0.5) / 0.05) - std::tanh((y - 1.5) / 0.05);
                     sim::Cell c = cell(1 + f, ini(s, "p0"), f);
                     c.u[1] = 0.01 * std::sin(pi * p.c[0]) * (std::exp(-(y - 0.5) * (y - 0.5) / 0.04) + std::exp(-(y - 1.5) * (y - 1.5) / 0.04));
                     return c;
                 }});
    v.push_back({"rayleigh_taylor", "rayleigh_taylor.ini", [](Shipped const& s, Place const& p) {
                     double const up = (1 + std::tanh((p.c[1] - ini(s, "a") * std::cos(4 * pi * p.c[0])) / 0.005)) / 2;
                     sim::Cell c = cell(ini(s, "rho1") * (1 - up) + ini(s, "rho0") * up, 10. / 7 + 0.25 - ini(s, "rho0") * std::fabs(s.num("gravity.gx1", 0)) * p.c[1], ini(s, "u"));
                     c.fx = {ini(s, "fx1") * (1 - up) + ini(s, "fx0") * up};
                     return c;
                 }});
    v.push_back({"rayleigh_taylor3d", "rayleigh_taylor3d.ini", [](Shipped const& s, Place const& p) {
                     // the height of the interface is random: a cell is on either side, the columns are looked at below
                     double const L = 10, g = 5. / 3, gz = std::fabs(s.num("gravity.gx2", 0));
                     bool const up = !other_side;
                     double const r = up ? ini(s, "rho0") : ini(s, "rho1"), P0 = 2 * pi * (ini(s, "rho0") + ini(s, "rho1")) * gz * L;
                     double const q = 1 - (g - 1) / g * r * gz * p.lo[2] / P0;
                     sim::Cell z = cell(r * std::pow(q, 1 / (g - 1)), P0 * std::pow(q, g / (g - 1)), ini(s, "u0"));
                     z.fx = {up ? 1. : 0.};
                     return z;
                 }});
    v.push_back({"sedov1d", "sedov1d.ini", [](Shipped const& s, Place const& p) {
                     double const x0 = s.num("grid.x0min", 0), dx = (s.num("grid.x0max", 1) - x0) / p.n[0];
                     Place first = p;
                     first.lo[0] = x0;
                     first.hi[0] = x0 + dx;
                     double const e = p.i[0] == 0 ? (sim::spherical() ? 1 : 0.5) * ini(s, "e1") : ini(s, "e0");
                     return cell(ini(s, "rho0"), eos(s).pres(ini(s, "rho0"), e / volume(first)), ini(s, "u0"));
                 }});
    v.push_back({"sedov2d", "sedov2d.ini", [](Shipped const& s, Place const& p) {
                     double const e = std::hypot(p.lo[0], p.lo[1]) < 0.025 ? ini(s, "e1") : ini(s, "e0");
                     return cell(ini(s, "rho0"), eos(s).pres(ini(s, "rho0"), e / volume(p)), ini(s, "u0"));
                 }});
    v.push_back({"sedov3d", "sedov3d_sph.ini", [](Shipped const& s, Place const& p) {
                     bool const in = std::fabs(p.lo[0] - 1) < 1e-9 && p.i[1] == p.n[1] / 2 && p.i[2] == p.n[2] / 2;
                     return cell(ini(s, "rho0"), in ? eos(s).pres(ini(s, "rho0"), ini(s, "e1") / volume(p)) : ini(s, "p0"), 0);
                 }});
    auto const tube = [](Shipped const& s, Place const& p) {
        bool const l = p.c[0] <= ini(s, "inter");
        sim::Cell c = cell(ini(s, l ? "rho0" : "rho1"), ini(s, l ? "p0" : "p1"), ini(s, l ? "u0" : "u1"));
        return c;
    };
    for (char const* f : {"shock_tube.ini", "shock_tube1d_sph.ini", "shock_tube3d_sph.ini"}) v.push_back({"shock_tube", f, tube});
    auto const wall = [](Shipped const& s, Place const&) { return cell(ini(s, "rho0"), ini(s, "p0"), ini(s, "u0")); };
    for (char const* f : {"shock_wall_pg.ini", "shock_wall_rad.ini"}) v.push_back({"shock_wall", f, wall});
    v.push_back({"stratified_atm", "stratified_atm.ini", [](Shipped const& s, Place const& p) {
                     double const T = ini(s, "t0"), rho = ini(s, "rho0") * std::exp(-p.c[0] * eos(s).mu * ref::mp * std::fabs(s.num("gravity.gx0", 0)) / (ref::kb * T));
                     return cell(rho, eos(s).pres_from_temp(rho, T), ini(s, "u0"));
                 }});
    for (char const* f : {"v1d_1d.ini", "v1d_3d.ini"}) v.push_back({"v1d", f, nullptr});
    return v;
}

std::string initial(Shipped const& s, Problem const& pb, v1d::Case const* prof, sim::Snap const& z)
{
    int const nd = sim::ndim();
    if (prof) return v1d::compare(*prof, z);
    int const nfx = static_cast<int>(s.num("passive scalar.nfx", 0));
    for (int k = 0; k < z.n[2]; ++k)
        for (int j = 0; j < z.n[1]; ++j)
            for (int i = 0; i < z.n[0]; ++i) {
                Place p;
                p.i = {i, j, k};
                p.n = z.n;
                for (std::size_t d = 0; d < 3; ++d) {
                    std::size_t const f = static_cast<std::size_t>(p.i[d]);
                    p.lo[d] = z.x_ng[d][f];
                    p.hi[d] = z.x_ng[d][f + 1];
                    p.c[d] = (p.lo[d] + p.hi[d]) / 2;
                }
                std::size_t const a = z.at(i, j, k);
                other_side = false;
                sim::Cell c = pb.expect(s, p);
                if (!vh::close(z.rho[a], c.rho, 1e-11)) {
                    other_side = true;
                    c = pb.expect(s, p);
                }
                double const us = std::sqrt(c.P / c.rho) + std::fabs(c.u[0]);
                double const ps = c.P + c.rho * us * us;
                auto bad = [&](char const* w, double have, double want) { return vh::cat(w, " of cell ", i, ",", j, ",", k, " is ", have, " instead of ", want); };
                if (!vh::close(z.rho[a], c.rho, 1e-11)) return bad("density", z.rho[a], c.rho);
                for (int d = 0; d < nd; ++d)
                    if (!vh::close(z.u[static_cast<std::size_t>(d)][a], c.u[static_cast<std::size_t>(d)], 1e-11, 1e-13 * us)) return bad("velocity", z.u[static_cast<std::size_t>(d)][a], c.u[static_cast<std::size_t>(d)]);
                // the pressure goes through the total energy
                if (!vh::close(z.P[a], c.P, sim::radgas() ? 1e-6 : 1e-11, 1e-14 * ps)) return bad("pressure", z.P[a], c.P);
                for (int f = 0; f < nfx; ++f) {
                    double const w = f < static_cast<int>(c.fx.size()) ? c.fx[static_cast<std::size_t>(f)] : 0;
                    if (!vh::close(z.fx[static_cast<std::size_t>(f)][a], w, 1e-12, 1e-13)) return bad("scalar", z.fx[static_cast<std::size_t>(f)][a], w);
                }
            }
    if (pb.setup == "rayleigh_taylor3d")
        for (int j = 0; j < z.n[1]; ++j)
            for (int i = 0; i < z.n[0]; ++i)
                for (int k = 0; k < z.n[2]; ++k) {
                    bool const up = z.fx[0][z.at(i, j, k)] > 0.5;
                    // nine modes of amplitude at most four
                    if (k && !up && z.fx[0][z.at(i, j, k - 1)] > 0.5) return vh::cat("heavy fluid below light fluid at ", i, ",", j, ",", k);
                    double const zl = z.x_ng[2][static_cast<std::size_t>(k)];
                    if ((zl > 36 && !up) || (zl < -36 && up)) return vh::cat("wrong side of the interface at ", i, ",", j, ",", k);
                }
    return "";
}

std::string valid(sim::Snap const& z)
{
    for (std::size_t a = 0; a < z.rho.size(); ++a) {
        bool ok = std::isfinite(z.rho[a]) && z.rho[a] > 0 && std::isfinite(z.P[a]) && z.P[a] > 0 && std::isfinite(z.E[a]) && z.E[a] > 0 && z.T[a] > 0;
        for (int d = 0; d < sim::ndim(); ++d) ok = ok && std::isfinite(z.u[static_cast<std::size_t>(d)][a]);
        for (auto const& f : z.fx) ok = ok && f[a] >= 0 && f[a] <= 1;
        if (!ok) return vh::cat("iteration ", z.iter, " cell ", a, ": rho ", z.rho[a], " P ", z.P[a], " E ", z.E[a]);
    }
    return "";
}

// the run against the documented scheme, started from the first snapshot
std::string evolution(Shipped const& s, Problem const& pb, v1d::Case const* prof, int ng, std::vector<sim::Snap> const& sn)
{
    sim::Spec m;
    m.n = sn[0].n;
    m.ng = ng;
    m.nfx = static_cast<int>(sn[0].fx.size());
    m.ini = s.ini();
    if (prof) {
        auto const q = ref::params(m).faces;
        m.faces = {prof->x0, q[1], q[2]};
    }
    m.init = [&](int i, int j, int k) {
        sim::Cell c;
        std::size_t const a = sn[0].at(i, j, k);
        c.rho = sn[0].rho[a];
        c.P = sn[0].P[a];
        for (std::size_t d = 0; d < 3; ++d) c.u[d] = sn[0].u[d].empty() ? 0 : sn[0].u[d][a];
        for (auto const& f : sn[0].fx) c.fx.push_back(f[a]);
        return c;
    };
    ref::Sim r(m);
    // the equilibrium goes on beyond the domain
    if (ini(s, "u0", 0) == 0 && !prof)
        r.boundary_state = [&](int, int, ref::V3 centre) {
            Place p;
            p.c = centre;
            sim::Cell const c = pb.expect(s, p);
            return ref::Prim {c.rho, {0, 0, 0}, c.P};
        };
    std::size_t call = 0;
    std::string wrong;
    if (s.value.contains("grid.shift_grid") && s.value.at("grid.shift_grid") == "UserDefined" && prof)
        r.criterion = [&](ref::Sim const& z) {
            bool const did = call + 1 < sn.size() && sn[call + 1].x_ng[0] != sn[call].x_ng[0];
            ++call;
            // the outermost cells, and those plus as many as there are ghost layers
            double v[2] = {-HUGE_VAL, -HUGE_VAL};
            int const w = static_cast<int>(s.num("problem.cell_shift", 0));
            z.interior([&](std::array<int, 3> a) {
                double const u = z.c[z.at(a)].m[0] / z.c[z.at(a)].rho;
                for (int q = 0; q < 2; ++q)
                    if (a[0] >= z.p.ng[0] + z.p.n[0] - w - q * z.p.ng[0]) v[q] = std::max(v[q], u);
            });
            double const limit = s.num("problem.vmax_shift", 0);
            bool const stopped = z.x[0][static_cast<std::size_t>(z.p.n[0] + z.p.ng[0] + 1)] >= z.p.rmax_shift;
            if (v[0] > limit * (1 + 1e-9) && !did && !stopped) wrong = vh::cat("not shifted at ", v[0], " in iteration ", call);
            if (v[1] < limit * (1 - 1e-9) && did) wrong = vh::cat("shifted at ", v[1], " in iteration ", call);
            return stopped ? v[0] >= limit : did;
        };
    r.run();
    if (!wrong.empty()) return wrong;
    if (!r.error.empty()) return "the reference stops: " + r.error;
    return sim::diff(sn, r.snaps, 1e-8, false);
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough();
        for (Problem const& pb : problems()) {
            if (pb.setup != MY_SETUP) continue;
            if ((pb.ini.find("3d") != std::string::npos) != (nd == 3)) continue;
            if (pb.setup == "shock_tube" && sim::spherical() != (pb.ini.find("sph") != std::string::npos)) continue;
            if (pb.setup == "shock_wall" && sim::radgas() != (pb.ini.find("rad") != std::string::npos)) continue;
            Shipped const file(pb.ini);
            if (file.value.empty()) {
                x.run(pb.ini, [=] { vh::violate("the input file is not there", pb.ini); });
                continue;
            }
            bool const shift = file.value.contains("grid.shift_grid");
            // 0: as many cells as in the file when that is affordable, with every layer count the default
            std::vector<std::array<int, 3>> sizes;
            std::array<int, 3> full {};
            for (int d = 0; d < 3; ++d) full[static_cast<std::size_t>(d)] = static_cast<int>(file.num("grid.nx" + std::to_string(d) + "_glob", 0));
            long const cells = static_cast<long>(full[0]) * full[1] * full[2];
            if (cells <= (th ? 200000 : 50000)) sizes.push_back(full);
            if (nd == 1) sizes.insert(sizes.end(), {{16, 1, 1}, {25, 1, 1}, {64, 1, 1}});
            if (nd == 2) sizes.insert(sizes.end(), {{8, 8, 1}, {12, 10, 1}, {20, 20, 1}});
            if (nd == 3) sizes.insert(sizes.end(), {{4, 4, 4}, {8, 6, 8}});
            if (pb.setup == "v1d" && shift) sizes.insert(sizes.end(), {{130, 1, 1}, {300, 1, 1}});
            for (auto n : sizes) {
                bool const big = n == full;
                for (int ng = 2; ng <= (big || pb.setup == "v1d" ? 2 : 4); ++ng)
                    for (int p = 1; p <= (nd == 1 ? 6 : 8); ++p)
                        for (int a = 1; a <= p; ++a)
                            for (int b = 1; a * b <= p; ++b) {
                                if (p % (a * b)) continue;
                                std::array<int, 3> const dims {a, b, p / a / b};
                                bool ok = true;
                                for (std::size_t d = 0; d < 3; ++d) ok = ok && (dims[d] == 1 || (static_cast<int>(d) < nd && n[d] / dims[d] >= ng));
                                for (std::size_t d = 0; d < static_cast<std::size_t>(nd); ++d) ok = ok && n[d] >= ng;
                                if (!ok || (big && p > 1 && p != 4)) continue;
                                // the criterion of the moving grid needs the cells it looks at on the last process
                                if (shift && n[0] / a < file.num("problem.cell_shift", 0)) continue;
                                for (int perm = 0; perm < (p > 1 && !big ? 3 : 1); ++perm)
                                    x.run(vh::cat(pb.ini, " ", n[0], "x", n[1], "x", n[2], " ghosts ", ng, " on ", a, "x", b, "x", dims[2], " placement ", perm), [=] {
                                        Shipped s = file;
                                        for (int d = 0; d < 3; ++d) {
                                            if (!big) s.set("Grid", vh::cat("Nx", d, "_glob"), n[static_cast<std::size_t>(d)]);
                                            if (p > 1) s.set("Parallelization", vh::cat("mpi_dims_cart_x", d), dims[static_cast<std::size_t>(d)]);
                                        }
                                        if (ng != 2) s.set("Grid", "Nghost", ng);
                                        s.set("Output", "iter_frequency", 1);
                                        s.set("Output", "max_iter", big ? 2 : 4);
                                        v1d::Case prof;
                                        if (pb.setup == "v1d") prof = profile(s, n);
                                        v1d::Case const* const pp = pb.setup == "v1d" ? &prof : nullptr;
                                        Run const r = run(s, pp, p, perm);
                                        if (!r.problem.empty()) return vh::violate(vh::cat(pb.ini, " does not run"), r.problem);
                                        auto const& sn = r.res.snaps;
                                        if (sn.size() != (big ? 3u : 5u)) return vh::violate(vh::cat(pb.ini, ": number of snapshots"), vh::cat(sn.size()));
                                        if (sn[0].n != n) return vh::violate(vh::cat(pb.ini, ": size"), "");
                                        std::string e = initial(s, pb, pp, sn[0]);
                                        if (!e.empty()) return vh::violate(vh::cat(pb.ini, ": initial state"), e);
                                        for (auto const& z : sn) {
                                            e = valid(z);
                                            if (!e.empty()) return vh::violate(vh::cat(pb.ini, ": invalid state"), e);
                                            vh::state(z.hash());
                                        }
                                        e = evolution(s, pb, pp, ng, sn);
                                        if (!e.empty()) return vh::violate(vh::cat(pb.ini, ": differs from the documented scheme"), e);
                                        if (p > 1) {
                                            Shipped one = s;
                                            for (int d = 0; d < 3; ++d) one.set("Parallelization", vh::cat("mpi_dims_cart_x", d), 0);
                                            Run const q = run(one, pp, 1, 0);
                                            if (!q.problem.empty()) return vh::violate(vh::cat(pb.ini, " does not run"), q.problem);
                                            e = sim::diff(sn, q.res.snaps, 1e-10);
                                            if (!e.empty()) return vh::violate(vh::cat(pb.ini, ": depends on the processes"), e);
                                        }
                                        vh::transitions(static_cast<std::uint64_t>(p) * (sn.size() - 1));
                                        vh::trace_validated();
                                    });
                            }
            }
            // every parameter has the effect the description gives to it
            std::vector<std::pair<std::string, double>> changes;
            for (auto const& [key, v] : file.value)
                if (key.starts_with("initialisation.") && !v.empty()) changes.emplace_back(key, file.num(key, 0));
            changes.emplace_back("perfect gas.gamma", file.num("perfect gas.gamma", 5. / 3));
            changes.emplace_back("perfect gas.mu", file.num("perfect gas.mu", 1));
            if (sim::gravity() == "Uniform") {
                for (int d = 0; d < nd; ++d)
                    if (file.value.contains(vh::cat("gravity.gx", d))) changes.emplace_back(vh::cat("gravity.gx", d), file.num(vh::cat("gravity.gx", d), 0));
            } else
                changes.emplace_back("gravity.m", file.num("gravity.m", 1));
            for (auto n : sizes) {
                if (n == full && sizes.size() > 1) continue;
                for (auto const& [key, v] : changes)
                    for (double f : {0.8, 1.15})
                        for (int p : {1, 4}) {
                            if (shift && (n[0] < file.num("problem.cell_shift", 0) || (nd == 1 && p > 1))) continue;
                            x.run(vh::cat(pb.ini, " ", n[0], "x", n[1], "x", n[2], " ", key, " ", f, " on ", p), [=] {
                                Shipped s = file;
                                for (int d = 0; d < 3; ++d) s.set("Grid", vh::cat("Nx", d, "_glob"), n[static_cast<std::size_t>(d)]);
                                if (shift && p > 1) s.set("Parallelization", "mpi_dims_cart_x0", 1);
                                std::size_t const dot = key.find('.');
                                double w = key.ends_with("gamma") ? (f < 1 ? 1.3 : 1.5) : v * f;
                                if (v == 0) w = f < 1 ? 0.1 : 0.35;
                                s.set(key.substr(0, dot), key.substr(dot + 1), vh::num(w));
                                s.set("Output", "iter_frequency", 1);
                                // the equilibrium problems are at rest
                                bool const moving = ini(s, "u0", 0) != 0 && (pb.ini.starts_with("eq_") || pb.ini.starts_with("strat"));
                                s.set("Output", "max_iter", moving ? 1 : 3);
                                v1d::Case prof;
                                if (pb.setup == "v1d") prof = profile(s, n);
                                v1d::Case const* const pp = pb.setup == "v1d" ? &prof : nullptr;
                                Run const r = run(s, pp, p, 0);
                                if (!r.problem.empty()) return vh::violate(vh::cat(pb.ini, " does not run with another ", key), r.problem);
                                std::string e = initial(s, pb, pp, r.res.snaps.at(0));
                                if (!e.empty()) return vh::violate(vh::cat(pb.ini, ": initial state with another ", key), e);
                                if (!moving) e = evolution(s, pb, pp, 2, r.res.snaps);
                                if (!e.empty()) return vh::violate(vh::cat(pb.ini, ": differs from the documented scheme with another ", key), e);
                                for (auto const& z : r.res.snaps) vh::state(z.hash());
                                vh::transitions(r.res.snaps.size() - 1);
                                vh::trace_validated();
                            });
                        }
            }
            // the criterion of the moving grid: a fast cell in every place, on all numbers of processes along the radius
            if (pb.setup == "v1d" && shift)
                for (int w : {1, 3, 4})
                    for (int fast = -1; fast < 12; ++fast)
                        for (int p = 1; p <= (nd == 1 ? 3 : 6); ++p)
                            for (int perm = 0; perm < (p > 1 ? 3 : 1); ++perm) {
                                if (nd > 1 && p != 1 && p != 2 && p != 6) continue;
                                x.run(vh::cat(pb.ini, " looks at ", w, " cells, fast cell ", fast, " on ", p, " placement ", perm), [=] {
                                    std::array<int, 3> const n {12, nd > 1 ? 4 : 1, nd > 2 ? 4 : 1};
                                    Shipped s = file;
                                    for (int d = 0; d < 3; ++d) s.set("Grid", vh::cat("Nx", d, "_glob"), n[static_cast<std::size_t>(d)]);
                                    if (p > 1) s.set("Parallelization", "mpi_dims_cart_x0", p == 6 ? 3 : p);
                                    s.set("Problem", "cell_shift", w);
                                    s.set("Problem", "vmax_shift", vh::num(5e5));
                                    s.set("Output", "iter_frequency", 1);
                                    s.set("Output", "max_iter", 4);
                                    v1d::Case prof = profile(s, n);
                                    for (int i = 0; i < n[0]; ++i) prof.prof[1][static_cast<std::size_t>(i)] = i == fast ? 2e6 : i % 2 ? 1e4 : -2e6;
                                    Run const r = run(s, &prof, p, perm);
                                    if (!r.problem.empty()) return vh::violate(vh::cat(pb.ini, " does not run when it shifts"), r.problem);
                                    std::string e = evolution(s, pb, &prof, 2, r.res.snaps);
                                    if (!e.empty()) return vh::violate(vh::cat(pb.ini, ": criterion of the moving grid"), e);
                                    for (std::size_t q = 1; q < r.res.snaps.size(); ++q) vh::counter(r.res.snaps[q].x_ng[0] == r.res.snaps[q - 1].x_ng[0] ? "steps without shift" : "steps with a shift");
                                    for (auto const& z : r.res.snaps) vh::state(z.hash());
                                    vh::transitions(r.res.snaps.size() - 1);
                                    vh::trace_validated();
                                });
                            }
            // a problem that does not exist in this geometry is refused
        }
        if (std::string(MY_SETUP) == "sedov2d" && sim::spherical())
            x.run("sedov2d refuses spherical coordinates", [] {
                Shipped s("sedov2d.ini");
                s.set("Grid", "Nx0_glob", 8);
                s.set("Grid", "Nx1_glob", 8);
                Run const r = run(s, nullptr, 2, 0);
                if (!alpha::refused(r.res.out)) vh::violate("sedov2d runs in spherical coordinates", "");
                vh::trace_validated();
            });
    });
}
