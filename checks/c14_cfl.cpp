// C14: the time step.
#include "component.hpp"

#include <vsetup_hooks.hpp>

#include <perfect_gas.hpp>
#include <rad_gas.hpp>
#ifndef VH_RUNS_ONLY
#include <time_step.hpp>
#endif

namespace {
using namespace hclpp;

// inverse of the longest step of a cell, from the definition
double inverse(ref::Eos const& e, double rho, ref::V3 const& u, double P, ref::V3 const& lo, ref::V3 const& hi)
{
    double const c = e.sound(rho, P);
    double const r = (lo[0] + hi[0]) / 2, th = (lo[1] + hi[1]) / 2;
    double s = 0;
    for (int d = 0; d < sim::ndim(); ++d) {
        double len = hi[static_cast<std::size_t>(d)] - lo[static_cast<std::size_t>(d)];
        if (sim::spherical() && d >= 1) len *= r;
        if (sim::spherical() && d == 2) len *= std::sin(th);
        s += (std::fabs(u[static_cast<std::size_t>(d)]) + c) / len;
    }
    return s;
}

sim::Cell extreme(int kind)
{
    sim::Cell c;
    double const us = alpha::uscale(), ps = alpha::pscale();
    c.rho = 1;
    c.P = ps;
    switch (kind) {
    case 0: c.u[0] = 3 * us; break;
    case 1: c.u[0] = -3 * us; break;
    case 2: c.P = 30 * ps; break;
    case 3: c.rho = 0.02; break;
    case 4: c.u[1] = 4 * us; break;
    case 5: c.u[1] = -4 * us; break;
    case 6: c.u[2] = 5 * us; break;
    default: c.u[2] = -5 * us;
    }
    return c;
}

// real run: every step against the fields of all processes it starts from
void run(std::array<int, 3> n, int ng, int p, std::array<int, 3> dims, int perm, std::array<int, 3> where, int kind, double cfl, bool faces, char const* bc)
{
    int const nd = sim::ndim();
    sim::Spec s;
    s.n = n;
    s.ng = ng;
    s.mpi.nranks = p;
    s.mpi.cart_perm = component::placement(p, perm);
    s.mpi.reduce_order = perm;
    alpha::domain(s);
    for (int d = 0; d < nd; ++d) s.ini.set("Parallelization", "mpi_dims_cart_x" + std::to_string(d), dims[static_cast<std::size_t>(d)]);
    s.ini.set("Boundary Condition", "BC", bc).set("Run", "cfl", vh::num(cfl)).set("Output", "max_iter", 3).set("Output", "iter_frequency", 1).set("Grid", "shift_grid", "UserDefined");
    if (faces) {
        auto const pr = ref::params(s);
        s.faces = pr.faces;
        for (int d = 0; d < nd; ++d)
            for (std::size_t i = 0; i < s.faces[static_cast<std::size_t>(d)].size(); ++i) s.faces[static_cast<std::size_t>(d)][i] += 0.15 * (pr.faces[static_cast<std::size_t>(d)][1] - pr.faces[static_cast<std::size_t>(d)][0]) * std::sin(1.7 * static_cast<double>(i) + d);
    }
    s.init = [=](int i, int j, int k) {
        if (std::array<int, 3> {i, j, k} == where) return extreme(kind);
        sim::Cell c = alpha::state(0);
        c.u[0] += 1e-3 * (i + j + k) * alpha::uscale();
        return c;
    };
    ref::Eos const eos = ref::params(s).eos;
    std::vector<std::vector<double>> dts(static_cast<std::size_t>(p)), ts(static_cast<std::size_t>(p));
    std::vector<double> inv(8, 0);
    std::vector<std::size_t> stage(static_cast<std::size_t>(p), 0);
    s.user_step = true;
    s.on_user_step = [&](double t, double dt) {
        dts[static_cast<std::size_t>(kmpi::world_rank())].push_back(dt);
        ts[static_cast<std::size_t>(kmpi::world_rank())].push_back(t);
    };
    s.on_stage = [&](Range const&, Grid const& g, KV_cdouble_3d const& rho, KV_cdouble_4d const& rhou, KV_cdouble_3d const& E, KV_cdouble_4d const&) {
        kshim::fence();
        std::size_t const q = ++stage[static_cast<std::size_t>(kmpi::world_rank())];
        for (int k = 0; k < rho.extent_int(2); ++k)
            for (int j = 0; j < rho.extent_int(1); ++j)
                for (int i = 0; i < rho.extent_int(0); ++i) {
                    ref::Cons c {rho.kshim_at(i, j, k), {0, 0, 0}, E.kshim_at(i, j, k)};
                    for (int d = 0; d < nd; ++d) c.m[static_cast<std::size_t>(d)] = rhou.kshim_at(i, j, k, d);
                    ref::Prim const w = ref::prim(c, eos);
                    ref::V3 const lo {g.x0.kshim_at(i), g.x1.kshim_at(j), g.x2.kshim_at(k)}, hi {g.x0.kshim_at(i + 1), g.x1.kshim_at(j + 1), g.x2.kshim_at(k + 1)};
                    inv[q] = std::fmax(inv[q], inverse(eos, w.rho, w.u, w.P, lo, hi));
                }
    };
    auto const r = ref::conform(s);
    if (!r.res.ok()) return vh::violate("the run fails", r.res.problem);
    vh::transitions(3);
    for (int q = 1; q < p; ++q)
        if (dts[static_cast<std::size_t>(q)] != dts[0] || ts[static_cast<std::size_t>(q)] != ts[0]) return vh::violate("processes use different steps", vh::cat("process ", q));
    if (dts[0].size() != 3 || r.model.snaps.size() != 4) return vh::violate("number of steps", vh::cat(dts[0].size()));
    // the first step: nothing but the reference knows the ghost cells of the initial state
    double const first = r.model.snaps[1].t - r.model.snaps[0].t;
    if (!vh::close(dts[0][0], first, 1e-9)) return vh::violate("first step", vh::cat(dts[0][0], " instead of ", first));
    // ... and it is not longer than what any interior cell allows, and it is at most shortened by the ghost cells
    auto longest = [&](sim::Snap const& z) {
        double m = 0;
        for (int k = 0; k < n[2]; ++k)
            for (int j = 0; j < n[1]; ++j)
                for (int i = 0; i < n[0]; ++i) {
                    std::size_t const c = z.at(i, j, k);
                    ref::V3 u {0, 0, 0}, lo {}, hi {};
                    std::array<int, 3> const a {i, j, k};
                    for (std::size_t d = 0; d < 3; ++d) {
                        std::size_t const f = static_cast<std::size_t>(a[d] + (static_cast<int>(d) < nd ? ng : 0));
                        lo[d] = z.x[d][f];
                        hi[d] = z.x[d][f + 1];
                        if (static_cast<int>(d) < nd) u[d] = z.u[d][c];
                    }
                    m = std::fmax(m, inverse(eos, z.rho[c], u, z.P[c], lo, hi));
                }
        return cfl / m;
    };
    for (std::size_t q = 0; q < 3; ++q) {
        double const most = longest(r.res.snaps[q]);
        if (dts[0][q] > most * (1 + 1e-9)) return vh::violate("the step is longer than the CFL limit", vh::cat("step ", q, ": ", dts[0][q], " over ", most));
        if (!sim::spherical() && !faces && !vh::close(dts[0][q], most, 1e-9)) return vh::violate("the step is not the CFL limit of the domain", vh::cat("step ", q, ": ", dts[0][q], " against ", most));
        if (q && !vh::close(dts[0][q], cfl / inv[q], 1e-9)) return vh::violate("the step is not the CFL limit", vh::cat("step ", q, ": ", dts[0][q], " against ", cfl / inv[q]));
        vh::Hash h;
        h << dts[0][q];
        vh::state(h);
    }
    vh::trace_validated();
}

#ifndef VH_RUNS_ONLY
// the function alone: extreme state in every cell of every range
template <class E>
void direct(E const& e, bool rad, std::array<int, 3> n, int ng, int layers, int p, std::array<int, 3> dims, int kind, int stride = 1)
{
    int const nd = sim::ndim();
    ref::Eos m;
    m.rad = rad;
    m.gamma = e.adiabatic_index();
    m.mu = e.mean_molecular_weight();
    double const us = rad ? 2e5 : 1, ps = rad ? 4e10 : 1;
    component::Faces f;
    for (std::size_t d = 0; d < 3; ++d) {
        bool const on = static_cast<int>(d) < nd;
        double x = d == 1 ? 0.7 : 1.1;
        f[d].push_back(x);
        for (int i = 0; i < n[d] + (on ? 2 * ng : 0); ++i) f[d].push_back(x += on ? 0.03 * (1 + (i * 7 + static_cast<int>(d)) % 3) : 1);
    }
    std::array<int, 3> ext {};
    for (std::size_t d = 0; d < 3; ++d) ext[d] = n[d] + (static_cast<int>(d) < nd ? 2 * ng : 0);
    for (int K = 0; K < ext[2]; ++K)
        for (int J = 0; J < ext[1]; ++J)
            for (int I = 0; I < ext[0]; ++I) {
                if (((K * ext[1] + J) * ext[0] + I + kind) % stride) continue;
                kmpi::Options o;
                o.nranks = p;
                o.cart_perm = component::placement(p, (I + J + K) % 3);
                std::vector<double> got(static_cast<std::size_t>(p), -1);
                double want = 0;
                component::with_grids(o, n, dims, ng, f, [&](int rank, Grid& g) {
                    std::array<int, 3> const a = g.Nx_local_wg;
                    KV_double_3d const rho("rho", a[0], a[1], a[2]), P("P", a[0], a[1], a[2]);
                    KV_double_4d const u("u", a[0], a[1], a[2], nd);
                    for (int k = 0; k < a[2]; ++k)
                        for (int j = 0; j < a[1]; ++j)
                            for (int i = 0; i < a[0]; ++i) {
                                std::array<int, 3> const l {i, j, k};
                                std::array<int, 3> w {};
                                bool in = true;
                                for (std::size_t d = 0; d < 3; ++d) {
                                    w[d] = l[d] + g.range.Corner_min[d];
                                    if (static_cast<int>(d) < nd) in = in && l[d] >= ng - layers && l[d] < a[d] - ng + layers;
                                }
                                sim::Cell c;
                                c.rho = 1 + 0.1 * (i % 2);
                                c.P = 1;
                                if (w == std::array<int, 3> {I, J, K}) {
                                    c = extreme(kind);
                                    c.P /= alpha::pscale();
                                    for (auto& z : c.u) z /= alpha::uscale();
                                }
                                // cells outside of the range would win
                                rho.kshim_at(i, j, k) = in ? c.rho : 1e-8;
                                P.kshim_at(i, j, k) = c.P * ps;
                                ref::V3 uu {0, 0, 0};
                                for (int d = 0; d < nd; ++d) u.kshim_at(i, j, k, d) = uu[static_cast<std::size_t>(d)] = c.u[static_cast<std::size_t>(d)] * us;
                                ref::V3 lo {}, hi {};
                                for (std::size_t d = 0; d < 3; ++d) {
                                    lo[d] = f[d][static_cast<std::size_t>(w[d])];
                                    hi[d] = f[d][static_cast<std::size_t>(w[d] + 1)];
                                }
                                if (in) want = std::fmax(want, inverse(m, c.rho, uu, c.P * ps, lo, hi));
                            }
                    got[static_cast<std::size_t>(rank)] = time_step(g.range.with_ghosts(layers), e, g, rho, u, P);
                });
                vh::transitions(1);
                for (int q = 0; q < p; ++q) {
                    if (got[static_cast<std::size_t>(q)] != got[0]) return vh::violate("processes find different steps", vh::cat("process ", q));
                    if (!vh::close(got[static_cast<std::size_t>(q)], 1 / want, 1e-9)) return vh::violate(vh::cat("longest step", rad ? " with radiation" : ""), vh::cat("extreme cell ", I, ",", J, ",", K, " kind ", kind, " layers ", layers, ": ", got[0], " against ", 1 / want));
                }
            }
    vh::trace_validated();
}
#endif

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough();
        bool const im = sim::gravity() == "Internal_mass";
        std::array<int, 3> const n {nd == 1 ? 9 : 4, nd > 1 ? 4 : 1, nd > 2 ? 4 : 1};
        auto kinds = [nd] { return nd == 1 ? 4 : nd == 2 ? 6 : 8; };
        int idx = 0;
        for (int k = 0; k < n[2]; ++k)
            for (int j = 0; j < n[1]; ++j)
                for (int i = 0; i < n[0]; ++i)
                    for (int kind = 0; kind < kinds(); ++kind)
                        for (int v = 0; v < (th ? 6 : 2); ++v) {
                            ++idx;
                            x.run(vh::cat("cell ", i, ",", j, ",", k, " kind ", kind, " variant ", v), [=] {
                                int const p = 1 + (idx + v) % (nd == 1 ? 4 : nd == 2 ? 4 : 8);
                                std::vector<std::array<int, 3>> sp = component::splits(p, n, 2);
                                if (im) std::erase_if(sp, [](auto const& d) { return d[0] > 1; });
                                if (sp.empty()) sp = {{0, 0, 0}};
                                int const pp = sp[0][0] ? p : 1;
                                auto const d = sp[static_cast<std::size_t>(idx / 7) % sp.size()];
                                char const* const bcs[] = {"NullGradient", "Reflexive", "Periodic"};
                                run(n, 2, pp, pp == 1 ? std::array<int, 3> {1, 1, 1} : d, idx % 3, {i, j, k}, kind, v % 2 ? 0.4 : 0.15, (idx / 2) % 2, bcs[sim::spherical() ? (idx / 3) % 2 : (idx / 3) % 3]);
                            });
                        }
#ifndef VH_RUNS_ONLY
        for (int p = 1; p <= (nd == 1 ? 5 : 8); ++p)
            for (int kind = 0; kind < kinds(); ++kind)
                for (int l = 0; l <= 2; ++l)
                    x.run(vh::cat("function on ", p, " kind ", kind, " layers ", l), [=] {
                        std::array<int, 3> const m {nd == 1 ? 11 : 4, nd > 1 ? 5 : 1, nd > 2 ? 4 : 1};
                        for (auto const& d : component::splits(p, m, 2)) {
                            // in 3D the cells are dealt out: every cell for each kind, not for each process grid
                            if (nd == 3 && !th && (d[0] + 2 * d[1] + kind + l) % 4 != 0) continue;
                            direct(thermodynamics::PerfectGas(5. / 3, 1), false, m, 2, l, p, d, kind);
                            if (nd < 3) direct(thermodynamics::RadGas(1.4, 1), true, m, 2, l, p, d, kind);
                        }
                    });
        // many cells, deep ghost layers; the extreme cells are dealt out
        for (int v = 0; v < (th ? 24 : 8); ++v)
            x.run(vh::cat("function on a large grid ", v), [=] {
                std::array<int, 3> const m = alpha::large();
                int const ng = 2 + v % 4;
                static int const grids[][3] = {{1, 1, 1}, {4, 3, 1}, {2, 2, 3}, {1, 5, 2}, {3, 1, 2}, {1, 7, 1}};
                std::array<int, 3> d {1, 1, 1};
                int p = 1;
                for (int q = 0; q < nd; ++q) {
                    int e = nd == 1 ? 1 + 5 * v % 17 : grids[v % 6][q];
                    while (e > 1 && m[static_cast<std::size_t>(q)] / e < ng) --e;
                    p *= d[static_cast<std::size_t>(q)] = e;
                }
                direct(thermodynamics::PerfectGas(5. / 3, 1), false, m, ng, v % (ng + 1), p, d, v % kinds(), nd == 1 ? 1 : nd == 2 ? 23 : 89);
            });
#endif
    });
}
