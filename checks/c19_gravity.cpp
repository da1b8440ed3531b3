// C19: the gravity models and their source terms.
#include "component.hpp"

#ifndef VH_RUNS_ONLY
#include <gravity.hpp>
#endif

namespace {
using namespace hclpp;

double const pi = std::numbers::pi;

#ifndef VH_RUNS_ONLY
// cell widths 1, 2, 3 (times w) in the order given by the digits of the code
component::Faces faces_for(std::array<int, 3> n, int ng, long code, double r0, double w)
{
    component::Faces f;
    for (std::size_t d = 0; d < 3; ++d) {
        bool const on = static_cast<int>(d) < sim::ndim();
        double x = d == 0 ? r0 : d == 1 ? 0.5 : 0.2;
        f[d].push_back(x);
        long c = code;
        for (int i = 0; i < n[d] + (on ? 2 * ng : 0); ++i) {
            double const q = on ? (d == 0 ? w : 0.07) * (1 + c % 3) : 0.9;
            c = c >= 3 ? c / 3 : code;
            f[d].push_back(x += q);
        }
    }
    return f;
}
#endif

#ifndef VH_RUNS_ONLY
// the acceleration everywhere, evaluated as kernels do
template <class Field>
auto evaluate(Field const& g, std::array<int, 3> n)
{
    std::vector<double> v(static_cast<std::size_t>(n[0] * n[1] * n[2] * 3));
    double* const out = v.data();
    int const nd = sim::ndim();
    Kokkos::parallel_for("evaluate", Kokkos::RangePolicy<int>(0, n[0]), [=](int i) {
        for (int j = 0; j < n[1]; ++j)
            for (int k = 0; k < n[2]; ++k)
                for (int d = 0; d < nd; ++d) out[((k * n[1] + j) * n[0] + i) * 3 + d] = g(i, j, k, d);
    });
    kshim::fence();
    return [v = std::move(v), n](int i, int j, int k, int d) { return v[static_cast<std::size_t>(((k * n[1] + j) * n[0] + i) * 3 + d)]; };
}
#endif

#ifndef VH_RUNS_ONLY
void uniform(std::array<int, 3> q)
{
    static double const v[] = {0, 1, -9.81, 3e-7, -2e12};
    std::array<double, 3> const g {v[q[0]], v[q[1]], v[q[2]]};
    auto const f = evaluate(make_uniform_gravity(g[0], g[1], g[2]), {9, 9, 9});
    for (int i = 0; i < 9; ++i)
        for (int j = 0; j < 9; ++j)
            for (int k = 0; k < 9; ++k)
                for (int d = 0; d < sim::ndim(); ++d)
                    if (f(i, j, k, d) != g[static_cast<std::size_t>(d)]) return vh::violate("uniform gravity", vh::cat("direction ", d, ": ", f(i, j, k, d), " for ", g[static_cast<std::size_t>(d)]));
    vh::trace_validated();
    vh::transitions(1);
}
#endif

#ifndef VH_RUNS_ONLY
void point_mass(std::array<int, 3> n, int ng, std::array<int, 3> dims, int perm, long widths, double r0, double w, double M)
{
    component::Faces const f = faces_for(n, ng, widths, r0, w);
    kmpi::Options o;
    o.nranks = dims[0] * dims[1] * dims[2];
    o.cart_perm = component::placement(o.nranks, perm);
    component::with_grids(o, n, dims, ng, f, [&](int rank, Grid& g) {
        auto const a = evaluate(make_point_mass_gravity(M, g), g.Nx_local_wg);
        vh::Hash h;
        for (int i = 0; i < g.Nx_local_wg[0]; ++i) {
            std::size_t const w0 = static_cast<std::size_t>(i + g.range.Corner_min[0]);
            double const c = (f[0][w0] + f[0][w0 + 1]) / 2;
            for (int j = 0; j < g.Nx_local_wg[1]; ++j)
                for (int k = 0; k < g.Nx_local_wg[2]; ++k)
                    for (int d = 0; d < sim::ndim(); ++d) {
                        double const want = d == 0 ? -ref::G * M / (c * c) : 0, got = a(i, j, k, d);
                        if (!vh::close(got, want, 1e-13)) return vh::violate("point mass", vh::cat("process ", rank, " cell ", i, ",", j, ",", k, " direction ", d, ": ", got, " for ", want));
                    }
            h << a(i, 0, 0, 0);
        }
        vh::state(h);
        vh::transitions(1);
    });
    vh::trace_validated();
}
#endif

// density of a cell (global index, ghost layers of the first direction included) from the digits of the code
#ifndef VH_RUNS_ONLY
void internal_mass(std::array<int, 3> n, int ng, std::array<int, 3> dims, int perm, int order, long widths, double r0, double w, double M, long code, int base)
{
    int const nd = sim::ndim();
    component::Faces const f = faces_for(n, ng, widths, r0, w);
    static double const levels[] = {1e-3, 1, 50, 0.2};
    auto rho_of = [&](int i, int j, int k) {
        long c = code;
        int m = (k * n[1] + j) * n[0] + i;
        // beyond the digits of the code
        if (m > 30) return levels[(static_cast<unsigned long>(code + 7919) * static_cast<unsigned long>(m) * 2654435761UL >> 17) % static_cast<unsigned long>(base)];
        for (; m > 0; --m) c /= base;
        return levels[c % base];
    };
    double const nan = std::nan("");
    // mass inside the centre of every cell of the interior
    std::vector<double> want(static_cast<std::size_t>(n[0]));
    double inside = M;
    std::size_t const gt = static_cast<std::size_t>(ng);
    for (int i = 0; i < n[0]; ++i) {
        double m = 0, v = 0;
        for (int k = 0; k < n[2]; ++k)
            for (int j = 0; j < n[1]; ++j) {
                std::array<int, 3> const a {i, j, k};
                ref::V3 lo {}, hi {};
                for (std::size_t d = 0; d < 3; ++d) {
                    std::size_t const q = static_cast<std::size_t>(a[d]) + (static_cast<int>(d) < nd ? gt : 0);
                    lo[d] = f[d][q];
                    hi[d] = f[d][q + 1];
                }
                double const vol = ref::volume(nd, sim::spherical(), lo, hi);
                m += vol * rho_of(i, j, k);
                v += vol;
            }
        std::size_t const q = static_cast<std::size_t>(i) + gt;
        double const a = f[0][q], b = f[0][q + 1], c = (a + b) / 2;
        auto ball = [&](double x, double y) { return 4 * pi / 3 * (y * y * y - x * x * x) * m / v; };
        want[static_cast<std::size_t>(i)] = -ref::G * (inside + ball(a, c)) / (c * c);
        inside += ball(a, b);
    }
    kmpi::Options o;
    o.nranks = dims[0] * dims[1] * dims[2];
    o.cart_perm = component::placement(o.nranks, perm);
    o.reduce_order = order;
    std::vector<std::vector<double>> got(static_cast<std::size_t>(o.nranks));
    component::with_grids(o, n, dims, ng, f, [&](int rank, Grid& g) {
        std::array<int, 3> const wg = g.Nx_local_wg;
        KV_double_3d const rho("rho", wg[0], wg[1], wg[2]);
        for (int k = 0; k < wg[2]; ++k)
            for (int j = 0; j < wg[1]; ++j)
                for (int i = 0; i < wg[0]; ++i) {
                    std::array<int, 3> const l {i, j, k};
                    std::array<int, 3> a {};
                    bool in = true;
                    for (std::size_t d = 0; d < 3; ++d) {
                        a[d] = l[d] - g.Nghost[d] + g.range.Corner_min[d];
                        in = in && a[d] >= g.range.Corner_min[d] && a[d] < g.range.Corner_max[d];
                    }
                    rho.kshim_at(i, j, k) = in ? rho_of(a[0], a[1], a[2]) : nan;
                }
        auto const a = evaluate(make_internal_mass_gravity(M, g, rho), wg);
        for (int i = g.Nghost[0]; i < g.Nghost[0] + n[0]; ++i) {
            got[static_cast<std::size_t>(rank)].push_back(a(i, 0, 0, 0));
            for (int j = 0; j < wg[1]; ++j)
                for (int k = 0; k < wg[2]; ++k)
                    for (int d = 0; d < nd; ++d) {
                        double const x = d == 0 ? a(i, 0, 0, 0) : 0;
                        if (a(i, j, k, d) != x) return vh::violate("enclosed mass: not radial", vh::cat("process ", rank, " cell ", i, ",", j, ",", k, " direction ", d));
                    }
        }
        // just below the inner radius only the central mass attracts
        double const c = (f[0][gt - 1] + f[0][gt]) / 2, x = a(g.Nghost[0] - 1, 0, 0, 0);
        if (!vh::close(x, -ref::G * M / (c * c), 1e-13)) vh::violate("enclosed mass: inside the inner radius", vh::cat(x));
    });
    vh::Hash h;
    for (std::size_t r = 0; r < got.size(); ++r) {
        if (got[r] != got[0]) return vh::violate("enclosed mass: differs between processes", vh::cat("process ", r));
        for (std::size_t i = 0; i < want.size(); ++i)
            if (i >= got[r].size() || !vh::close(got[r][i], want[i], 1e-12)) return vh::violate("enclosed mass", vh::cat("process ", r, " radius ", i, ": ", i < got[r].size() ? got[r][i] : nan, " for ", want[i]));
    }
    for (double x : got[0]) h << x;
    vh::state(h);
    vh::transitions(1);
    vh::trace_validated();
}
#endif

// a uniform gas accelerates at the stated rate, its energy grows by the work of the force on the momentum
void free_fall(int solver, int limiter, std::array<int, 3> q, int st, int p, int ng)
{
    int const nd = sim::ndim();
    static double const v[] = {0, 0.7, -1.3};
    double const us = alpha::uscale();
    sim::Spec s;
    s.n = nd == 1 ? std::array<int, 3> {8, 1, 1} : nd == 2 ? std::array<int, 3> {6, 5, 1} : std::array<int, 3> {4, 4, 4};
    s.ng = ng;
    s.nfx = 1;
    alpha::domain(s);
    for (int d = 0; d < 3; ++d) s.ini.set("Gravity", "gx" + std::to_string(d), v[q[d]] * us * us);
    s.ini.set("Boundary Condition", "BC", "Periodic").set("Hydro", "riemann_solver", alpha::solvers[solver]).set("Hydro", "reconstruction", alpha::limiters[limiter]);
    s.ini.set("Output", "iter_frequency", 1).set("Output", "max_iter", 6);
    s.mpi.nranks = p;
    sim::Cell const c0 = alpha::state(st, 1);
    s.init = [=](int, int, int) { return c0; };
    sim::Res const r = sim::run_alone(s);
    if (!r.ok()) return vh::violate("free fall fails", r.problem);
    auto const e = ref::params(s);
    sim::Snap const& z = r.snaps.front();
    double m[3] {}, E = z.E[0], e0 = z.E[0];
    for (int d = 0; d < nd; ++d) m[d] = c0.rho * c0.u[static_cast<std::size_t>(d)];
    for (std::size_t n = 1; n < r.snaps.size(); ++n) {
        sim::Snap const &a = r.snaps[n - 1], &b = r.snaps[n];
        double const dt = b.t - a.t;
        for (int d = 0; d < nd; ++d) E += dt * e.g[static_cast<std::size_t>(d)] * m[d];
        double us_max = us;
        for (int d = 0; d < nd; ++d) {
            m[d] += dt * e.g[static_cast<std::size_t>(d)] * c0.rho;
            us_max = std::max(us_max, std::fabs(m[d]));
        }
        for (std::size_t i = 0; i < b.rho.size(); ++i) {
            if (!vh::close(b.rho[i], c0.rho, 1e-12) || !vh::close(b.fx[0][i], c0.fx[0], 1e-12)) return vh::violate("free fall changes the density", vh::cat("step ", n));
            for (int d = 0; d < nd; ++d)
                if (!vh::close(b.u[static_cast<std::size_t>(d)][i], m[d] / c0.rho, 1e-11, 1e-11 * us_max)) return vh::violate("free fall: velocity", vh::cat("step ", n, " direction ", d, ": ", b.u[static_cast<std::size_t>(d)][i], " for ", m[d] / c0.rho));
            if (!vh::close(b.E[i], E, 1e-11, 1e-11 * e0)) return vh::violate("free fall: energy", vh::cat("step ", n, ": ", b.E[i], " for ", E));
        }
        // the velocity is exactly that of the fall
        double const t = b.t - z.t;
        for (int d = 0; d < nd; ++d) {
            double const u = c0.u[static_cast<std::size_t>(d)] + e.g[static_cast<std::size_t>(d)] * t;
            if (!vh::close(b.u[static_cast<std::size_t>(d)][0], u, 1e-10, 1e-10 * us_max)) return vh::violate("free fall: rate", vh::cat("step ", n));
        }
        vh::state(b.hash());
    }
    vh::transitions(6);
    vh::trace_validated();
}

void conform(std::string const& key, sim::Spec const& s)
{
    auto const r = ref::conform(s, 1e-10);
    if (!r.diff.empty()) vh::violate(key, r.diff);
    if (!r.model.error.empty()) vh::counter("stopped on an invalid state");
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough();
        std::string const model = sim::gravity();
#ifndef VH_RUNS_ONLY
        std::vector<std::array<int, 3>> const boxes = nd == 1   ? std::vector<std::array<int, 3>> {{{3, 1, 1}}, {{7, 1, 1}}}
                                                      : nd == 2 ? std::vector<std::array<int, 3>> {{{2, 2, 1}}, {{3, 4, 1}}, {{2, 7, 1}}, {{4, 6, 1}}}
                                                                : std::vector<std::array<int, 3>> {{{2, 2, 2}}, {{2, 4, 5}}, {{2, 6, 4}}};
        // the components, once per dimension and geometry
        for (int a = 0; a < 5; ++a)
            for (int b = 0; b < 5; ++b)
                for (int c = 0; c < 5; ++c) x.run(vh::cat("uniform ", a, b, c), [=] { uniform({a, b, c}); });
        for (auto n : boxes)
            for (int ng = 1; ng <= (th ? 4 : 3); ++ng)
                for (int p = 1; p <= (th ? 12 : 8); ++p)
                    for (auto dims : component::splits(p, n, ng))
                        for (int perm = 0; perm < (p > 1 ? 3 : 1); ++perm)
                            for (double M : {0., 2e10, 2e30})
                                x.run(vh::cat("point mass ", n[0], "x", n[1], "x", n[2], " ghosts ", ng, " on ", dims[0], "x", dims[1], "x", dims[2], " placement ", perm, " M ", M), [=] {
                                    for (long widths = 0; widths < 81; widths += 5)
                                        for (double r0 : {2., 1e8}) point_mass(n, ng, dims, perm, widths, r0, r0 == 2. ? 0.1 : 3e6, M);
                                });
        for (auto n : boxes)
            for (int ng : {2, 3})
                for (int p = 1; p <= (th ? 12 : 8); ++p)
                    for (auto dims : component::splits(p, n, ng))
                        if (dims[0] == 1)
                            for (int perm = 0; perm < (p > 1 ? 3 : 1); ++perm)
                                for (int order = 0; order < (p > 2 ? 4 : 1); ++order) {
                                    int const cells = n[0] * n[1] * n[2];
                                    int const base = cells <= 4 ? 4 : cells <= 8 ? 3 : 2;
                                    long const all = alpha::ipow(base, cells > 13 ? 14 : cells);
                                    long const stride = p == 1 && perm == 0 && ng == 2 ? (all > 20000 ? 61 : all > 2000 ? 7 : 1) : std::max(1L, all / (th ? 800 : 60));
                                    x.run(vh::cat("enclosed mass ", n[0], "x", n[1], "x", n[2], " ghosts ", ng, " on ", dims[0], "x", dims[1], "x", dims[2], " placement ", perm, " order ", order), [=] {
                                        long q = perm + 2 * order + p;
                                        for (long code = q % stride; code < all; code += stride, ++q) {
                                            long const c = cells > 13 ? static_cast<long>(static_cast<unsigned long>(code) * 0x9E3779B97F4A7C15UL >> 1) : code; // digits of all the cells
                                            internal_mass(n, ng, dims, perm, order, 5 * (q % 17), q % 2 ? 2. : 1e8, q % 2 ? 0.1 : 3e6, q % 3 ? (q % 2 ? 5. : 1e24) : 0., c, base);
                                        }
                                    });
                                }
        // many shells, deep ghost layers
        for (int v = 0; v < (th ? 36 : 12); ++v)
            x.run(vh::cat("many shells ", v), [=] {
                std::array<int, 3> const n = nd == 1 ? std::array<int, 3> {61 + v, 1, 1} : nd == 2 ? std::array<int, 3> {47, 11 + v, 1} : std::array<int, 3> {33, 10, 12};
                int const ng = 2 + v % 4;
                static int const grids[][3] = {{1, 1, 1}, {5, 1, 1}, {3, 2, 2}, {1, 2, 1}, {1, 2, 2}, {7, 1, 2}};
                std::array<int, 3> d {1, 1, 1}, whole {1, 1, 1};
                for (int q = 0; q < nd; ++q) {
                    int e = grids[v % 6][q];
                    while (e > 1 && n[static_cast<std::size_t>(q)] / e < ng) --e;
                    d[static_cast<std::size_t>(q)] = e;
                    if (q) whole[static_cast<std::size_t>(q)] = e;
                }
                for (int q = 0; q < 5; ++q) {
                    long const widths = (v * 12345L + q * 77777L) % 59049;
                    point_mass(n, ng, d, v % 3, widths, q % 2 ? 2. : 1e8, q % 2 ? 0.1 : 3e6, q ? 2e30 : 3.);
                    internal_mass(n, ng, whole, v % 3, v % 4, widths, q % 2 ? 2. : 1e8, q % 2 ? 0.1 : 3e6, q % 3 ? (q % 2 ? 5. : 1e24) : 0., 98765 * v + q, 3 + q % 2);
                }
            });
#endif
        // real runs
        if (model == "Uniform" && !sim::spherical())
            for (int solver = 0; solver < 3; ++solver)
                for (int lim = 0; lim < 4; ++lim)
                    for (int g = 0; g < alpha::ipow(3, nd); ++g)
                        for (int st = 0; st < 6; ++st)
                            x.run(vh::cat("free fall ", alpha::solvers[solver], " ", alpha::limiters[lim], " gravity ", g, " state ", st), [=] {
                                int const q = solver + lim + g + st, p = nd == 3 ? 1 << q % 3 : 1 + q % 3;
                                free_fall(solver, lim, {g % 3, g / 3 % 3, g / 9}, st, p, p == 1 ? 2 + g % 2 : 2);
                            });
        // momentum and energy of a gas whose density differs from cell to cell, at rest or not
        std::array<int, 3> const n = nd == 1 ? std::array<int, 3> {5, 1, 1} : nd == 2 ? std::array<int, 3> {3, 2, 1} : std::array<int, 3> {2, 2, 2};
        int const base = nd == 1 ? 3 : 2;
        long const all = alpha::ipow(base, n[0] * n[1] * n[2]);
        for (long code = 0; code < all; ++code)
            for (int v = 0; v < (th ? 6 : 3); ++v)
                x.run(vh::cat("source ", code, " variant ", v), [=] {
                    sim::Spec s;
                    s.n = n;
                    s.nfx = 1;
                    alpha::domain(s);
                    double const us = alpha::uscale(), ps = alpha::pscale();
                    s.ini.set("Hydro", "riemann_solver", alpha::solvers[(code + v) % 3]).set("Hydro", "reconstruction", alpha::limiters[(code / 3 + v) % 4]);
                    s.ini.set("Boundary Condition", "BC", code % 2 ? "NullGradient" : "Reflexive").set("Output", "iter_frequency", 1).set("Output", "max_iter", 3);
                    if (model == "Uniform") {
                        static double const gs[3][3] = {{5, 0, 0}, {0, -4, 2}, {-3, 2, -6}};
                        for (int d = 0; d < 3; ++d) s.ini.set("Gravity", "gx" + std::to_string(d), gs[v % 3][d] * us * us);
                    } else if (model == "Point_mass")
                        s.ini.set("Gravity", "M", (v % 3) * 3 * us * us / ref::G);
                    s.init = [=](int i, int j, int k) {
                        long c = code;
                        for (int m = (k * n[1] + j) * n[0] + i; m > 0; --m) c /= base;
                        int const d = static_cast<int>(c % base);
                        sim::Cell q;
                        q.rho = d == 0 ? 1 : d == 1 ? 8 : 0.1;
                        q.P = 2 * ps;
                        if (v & 1) q.u = {0.4 * us * (d - 1), 0.3 * us, -0.2 * us * d};
                        q.fx = {0.4};
                        return q;
                    };
                    conform("source terms", s);
                });
        // enclosed mass of a gas heavy enough to move itself, followed over several steps and on several processes
        if (model == "Internal_mass") {
            for (int p = 1; p <= (nd == 1 ? 1 : nd == 2 ? 3 : 6); ++p)
                for (int v = 0; v < (th ? 24 : 8); ++v) {
                    if (p == 5) continue; // blocks of one cell are refused
                    x.run(vh::cat("own weight on ", p, " variant ", v), [=] {
                        sim::Spec s;
                        s.n = nd == 1 ? std::array<int, 3> {6, 1, 1} : nd == 2 ? std::array<int, 3> {4, 7, 1} : std::array<int, 3> {4, 7, 6};
                        alpha::domain(s);
                        double const L = 1e9, us = 1e4 * alpha::uscale() / (sim::radgas() ? 2e5 : 1);
                        auto const b = ref::params(s);
                        s.ini.set("Grid", "x0min", b.xmin[0] * L).set("Grid", "x0max", b.xmax[0] * L);
                        s.ini.set("Gravity", "M", v % 2 ? 1e26 : 0.);
                        s.ini.set("Parallelization", "mpi_dims_cart_x0", 1);
                        s.mpi.nranks = p;
                        s.mpi.reduce_order = v % 4;
                        s.mpi.cart_perm = component::placement(p, v % 3);
                        s.ini.set("Boundary Condition", "BC", v % 2 ? "NullGradient" : "Reflexive").set("Output", "iter_frequency", 1).set("Output", "max_iter", 4).set("Run", "t_end", 1e9);
                        s.init = [=](int i, int j, int k) {
                            sim::Cell q;
                            q.rho = 3 * (1 + (i * 5 + j * 3 + k + v) % 4);
                            q.u = {us * ((i + v) % 3 - 1), 0.3 * us, -0.2 * us};
                            q.P = q.rho * us * us * 2;
                            if (sim::radgas()) q.P *= 100;
                            return q;
                        };
                        // gravity matters in these runs
                        auto const r = ref::conform(s, 1e-9);
                        if (!r.diff.empty()) return vh::violate("own weight", r.diff);
                        vh::counter(std::fabs(r.model.grav.at(4)) * (r.model.t / r.model.iter) > 1e-3 * us ? "runs where gravity matters" : "runs where it does not");
                    });
                }
            // many shells and steps
            for (int v = 0; v < (th ? 12 : 4); ++v)
                x.run(vh::cat("own weight of many shells ", v), [=] {
                    sim::Spec s;
                    s.n = nd == 1 ? std::array<int, 3> {50, 1, 1} : nd == 2 ? std::array<int, 3> {30, 11, 1} : std::array<int, 3> {12, 7, 8};
                    s.ng = 2 + v % 2;
                    alpha::domain(s);
                    double const L = 1e9, us = 1e4 * alpha::uscale() / (sim::radgas() ? 2e5 : 1);
                    auto const b = ref::params(s);
                    s.ini.set("Grid", "x0min", b.xmin[0] * L).set("Grid", "x0max", b.xmax[0] * L).set("Gravity", "M", v % 2 ? 1e26 : 0.).set("Parallelization", "mpi_dims_cart_x0", 1);
                    s.mpi.nranks = nd == 1 ? 1 : 2;
                    s.mpi.reduce_order = v % 4;
                    s.ini.set("Boundary Condition", "BC", v % 2 ? "NullGradient" : "Reflexive").set("Output", "iter_frequency", 6).set("Output", "max_iter", nd == 3 ? 12 : 30).set("Run", "t_end", 1e12);
                    auto const gas = alpha::smooth(s.n, 0, v);
                    s.init = [=](int i, int j, int k) {
                        sim::Cell q = gas(i, j, k);
                        q.rho *= 3;
                        for (auto& u : q.u) u *= us / alpha::uscale();
                        q.P = q.rho * us * us * 2 * (sim::radgas() ? 100 : 1);
                        return q;
                    };
                    auto const r = ref::conform(s, 1e-8);
                    if (!r.diff.empty()) vh::violate("own weight", r.diff);
                });
            // several processes along the radius are refused by all of them
            for (int p = 2; p <= 4; ++p)
                x.run(vh::cat("refused on ", p), [=] {
                    sim::Spec s;
                    s.n = nd == 1 ? std::array<int, 3> {12, 1, 1} : nd == 2 ? std::array<int, 3> {12, 3, 1} : std::array<int, 3> {12, 3, 3};
                    alpha::domain(s);
                    s.mpi.nranks = p;
                    s.ini.set("Parallelization", "mpi_dims_cart_x0", p).set("Boundary Condition", "BC", "NullGradient").set("Output", "max_iter", 2);
                    s.init = [](int, int, int) { return alpha::state(0); };
                    auto const r = sim::run_alone(s);
                    if (!alpha::refused(r.out)) vh::violate("split along the radius is not refused", r.out.summary());
                    vh::trace_validated();
                });
        }
    });
}
