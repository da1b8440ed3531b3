// C34: global sums and minima.
#include "component.hpp"

#ifndef VH_RUNS_ONLY
#include <integration.hpp>
#include <internal_energy.hpp>
#endif

#include <regex>

namespace {
using namespace hclpp;

#ifndef VH_RUNS_ONLY
component::Faces grid_faces(std::array<int, 3> n, int ng)
{
    component::Faces f;
    for (std::size_t d = 0; d < 3; ++d) {
        bool const on = static_cast<int>(d) < sim::ndim();
        double x = d == 1 ? 0.6 : 1.1;
        f[d].push_back(x);
        for (int i = 0; i < n[d] + (on ? 2 * ng : 0); ++i) f[d].push_back(x += on ? 0.05 * (1 + (i * 5 + static_cast<int>(d)) % 3) : 0.7);
    }
    return f;
}
#endif

#ifndef VH_RUNS_ONLY
// mark: 1e3 in one cell (interior or ghost), -1: none
void direct(std::array<int, 3> n, int ng, int layers, int p, std::array<int, 3> dims, int perm, int order, int stride = 1)
{
    int const nd = sim::ndim();
    component::Faces const f = grid_faces(n, ng);
    std::array<int, 3> const r {n[0], n[1], n[2]};
    double const nan = std::nan("");
    for (int K = 0; K < r[2]; ++K)
        for (int J = 0; J < r[1]; ++J)
            for (int I = 0; I < r[0]; ++I)
                for (int what = 0; what < 2; ++what) {
                    if (((K * r[1] + J) * r[0] + I) % stride != perm % stride) continue;
                    std::array<int, 3> const mark {I, J, K};
                    kmpi::Options o;
                    o.nranks = p;
                    o.cart_perm = component::placement(p, perm);
                    o.reduce_order = order;
                    std::vector<double> sum(static_cast<std::size_t>(p), -1), mn(static_cast<std::size_t>(p), -1);
                    double want = 0;
                    component::with_grids(o, n, dims, ng, f, [&](int rank, Grid& g) {
                        std::array<int, 3> const a = g.Nx_local_wg;
                        KV_double_3d const rho("rho", a[0], a[1], a[2]), E("E", a[0], a[1], a[2]);
                        KV_double_4d const m("m", a[0], a[1], a[2], nd);
                        for (int k = 0; k < a[2]; ++k)
                            for (int j = 0; j < a[1]; ++j)
                                for (int i = 0; i < a[0]; ++i) {
                                    std::array<int, 3> const l {i, j, k};
                                    std::array<int, 3> w {};
                                    bool in = true;
                                    ref::V3 lo {}, hi {};
                                    for (std::size_t d = 0; d < 3; ++d) {
                                        w[d] = l[d] - g.Nghost[d] + g.range.Corner_min[d];
                                        in = in && w[d] >= g.range.Corner_min[d] && w[d] < g.range.Corner_max[d];
                                        lo[d] = f[d][static_cast<std::size_t>(w[d] + g.Nghost[d])];
                                        hi[d] = f[d][static_cast<std::size_t>(w[d] + g.Nghost[d] + 1)];
                                    }
                                    double const v = !in ? nan : w == mark ? 1e3 : what ? 0.5 + 0.1 * ((w[0] + 2 * w[1] + 3 * w[2]) % 7) : 0;
                                    rho.kshim_at(i, j, k) = what && in ? v : in ? v : nan;
                                    if (in) want += v * ref::volume(nd, sim::spherical(), lo, hi);
                                    // internal energy -3 in the marked cell, else positive
                                    for (int d = 0; d < nd; ++d) m.kshim_at(i, j, k, d) = in ? 0.3 * (d + 1) : nan;
                                    E.kshim_at(i, j, k) = nan;
                                }
                        sum[static_cast<std::size_t>(rank)] = integrate(g.range.no_ghosts(), g, rho);
                        for (int k = 0; k < a[2]; ++k)
                            for (int j = 0; j < a[1]; ++j)
                                for (int i = 0; i < a[0]; ++i) {
                                    std::array<int, 3> const l {i, j, k};
                                    std::array<int, 3> w {};
                                    bool in = true;
                                    for (std::size_t d = 0; d < 3; ++d) {
                                        w[d] = l[d] - g.Nghost[d] + g.range.Corner_min[d];
                                        in = in && w[d] >= g.range.Corner_min[d] && w[d] < g.range.Corner_max[d];
                                    }
                                    double ek = 0;
                                    for (int d = 0; d < nd; ++d) ek += 0.09 * (d + 1) * (d + 1) / 2 / 2;
                                    rho.kshim_at(i, j, k) = in ? 2 : nan;
                                    double const e = w == mark ? (what ? -3 : 0.25) : 0.3 + 0.1 * ((w[0] + w[1]) % 3);
                                    E.kshim_at(i, j, k) = in ? ek + e : -1e30;
                                }
                        mn[static_cast<std::size_t>(rank)] = minimum_internal_energy(g.range.no_ghosts(), g, rho, m, E);
                    });
                    vh::transitions(2);
                    for (int q = 0; q < p; ++q) {
                        std::size_t const z = static_cast<std::size_t>(q);
                        if (sum[z] != sum[0] || mn[z] != mn[0]) return vh::violate("processes know different values", vh::cat("process ", q));
                        if (!vh::close(sum[z], want, 1e-12)) return vh::violate("integral", vh::cat("marked cell ", I, ",", J, ",", K, ": ", sum[z], " against ", want));
                        double const e = what ? -3 : 0.25;
                        if (!vh::close(mn[z], e, 1e-13)) return vh::violate("minimum", vh::cat("marked cell ", I, ",", J, ",", K, ": ", mn[z], " against ", e));
                    }
                    vh::Hash h;
                    h << sum[0];
                    vh::state(h);
                }
    (void)layers;
    vh::trace_validated();
}
#endif

double mass(sim::Snap const& z, int ng)
{
    double m = 0;
    for (int k = 0; k < z.n[2]; ++k)
        for (int j = 0; j < z.n[1]; ++j)
            for (int i = 0; i < z.n[0]; ++i) {
                std::array<int, 3> const a {i, j, k};
                ref::V3 lo {}, hi {};
                for (std::size_t d = 0; d < 3; ++d) {
                    std::size_t const f = static_cast<std::size_t>(a[d] + (static_cast<int>(d) < sim::ndim() ? ng : 0));
                    lo[d] = z.x[d][f];
                    hi[d] = z.x[d][f + 1];
                }
                m += z.rho[z.at(i, j, k)] * ref::volume(sim::ndim(), sim::spherical(), lo, hi);
            }
    return m;
}

// the masses printed by real runs
void printed(std::array<int, 3> n, int ng, int p, std::array<int, 3> dims, int perm, int order, std::array<int, 3> mark, bool shift, bool restart, bool inwards)
{
    int const nd = sim::ndim();
    sim::Spec s;
    s.n = n;
    s.ng = ng;
    s.mpi.nranks = p;
    s.mpi.cart_perm = component::placement(p, perm);
    s.mpi.reduce_order = order;
    alpha::domain(s);
    for (int d = 0; d < nd; ++d) s.ini.set("Parallelization", "mpi_dims_cart_x" + std::to_string(d), dims[static_cast<std::size_t>(d)]);
    s.ini.set("Boundary Condition", "BC", "NullGradient").set("Output", "max_iter", 2).set("Output", "iter_frequency", 1);
    if (shift) {
        s.ini.set("Grid", "shift_grid", "UserDefined");
        s.shift = [](long q) { return q == 1; };
    }
    int units = 60 * ((mark[0] + mark[1] + mark[2] + order + p) % 3 - 1); // the unit of mass: 2^-60, 1, 2^60
    if (sim::gravity() == "Internal_mass") units = std::min(units, 0);
    s.init = [=](int i, int j, int k) {
        sim::Cell c = alpha::state(0);
        c.rho = std::array<int, 3> {i, j, k} == mark ? 60 : 1 + 0.01 * (i + j + k);
        c.u[0] = (inwards ? -0.4 : 0.4) * alpha::uscale();
        c.rho = std::ldexp(c.rho, units);
        c.P = std::ldexp(c.P, units);
        return c;
    };
    kio::Fs fs;
    auto parse = [](std::string const& t, double& a, double& b) {
        static std::regex const re(R"(Initial mass = (\S+) and change in mass = (\S+))");
        std::smatch m;
        if (!std::regex_search(t, m, re)) return false;
        a = std::stod(m[1]);
        b = std::stod(m[2]);
        return !std::regex_search(m.suffix().first, t.end(), m, re);
    };
    auto judge = [&](sim::Res const& r, sim::Snap const& a, sim::Snap const& b) {
        double m0 = 0, dm = 0;
        if (!parse(r.out.out[0], m0, dm)) { // the printing process is the first of the Cartesian communicator
            bool found = false;
            for (auto const& t : r.out.out) found = found || parse(t, m0, dm);
            if (!found) return vh::violate("the masses are not printed once", "");
        }
        int times = 0;
        for (auto const& t : r.out.out) {
            double q = 0;
            times += parse(t, q, q);
        }
        if (times != 1) return vh::violate("the masses are not printed once", vh::cat(times, " times"));
        double const e0 = mass(a, ng), e1 = mass(b, ng);
        if (!vh::close(m0, e0, 6e-6)) return vh::violate("initial mass", vh::cat(m0, " against ", e0));
        if (!vh::close(dm, std::fabs(e1 - e0), 6e-6, 1e-13 * e0)) return vh::violate("change in mass", vh::cat(dm, " against ", std::fabs(e1 - e0)));
        vh::state(vh::Hash() << m0 << dm);
        vh::trace_validated();
    };
    if (!restart) {
        auto const r = sim::run_alone(s);
        if (!r.ok() || r.snaps.size() != 3) return vh::violate("the run fails", r.problem);
        judge(r, r.snaps.front(), r.snaps.back());
    } else {
        // masses of a restarted run are those since the restart
        prog::ScopedFs const scope;
        auto const r = sim::run(s);
        if (!r.ok() || r.snaps.size() != 3) return vh::violate("the run fails", r.problem);
        sim::Spec z = s;
        z.shift = {};
        z.ini.set("Problem", "restart", "true").set("Problem", "restart_file", r.snaps[1].path).set("Output", "max_iter", 3);
        auto const q = sim::run(z);
        if (!q.ok()) return vh::violate("the restarted run fails", q.problem);
        judge(q, r.snaps[1], q.snaps.back());
    }
    vh::transitions(2);
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough();
        bool const im = sim::gravity() == "Internal_mass";
#ifndef VH_RUNS_ONLY
        for (int p = 1; p <= (th ? 12 : 8); ++p)
            for (int perm = 0; perm < (p > 1 ? 3 : 1); ++perm)
                for (int order = 0; order < (p > 1 ? 4 : 1); ++order)
                    for (int ng = 1; ng <= 3; ++ng)
                        x.run(vh::cat("functions on ", p, " perm ", perm, " order ", order, " layers ", ng), [=] {
                            std::array<int, 3> const n {nd == 1 ? ng * p + 2 : 5, nd > 1 ? (nd == 2 ? 7 : 4) : 1, nd > 2 ? 3 : 1};
                            for (auto const& d : component::splits(p, n, ng)) direct(n, ng, 0, p, d, perm, order);
                        });
        for (int v = 0; v < (th ? 36 : 12); ++v)
            x.run(vh::cat("functions on a large grid ", v), [=] {
                std::array<int, 3> const m = alpha::large();
                int const ng = 1 + v % 5;
                static int const grids[][3] = {{1, 1, 1}, {4, 3, 1}, {2, 2, 3}, {1, 5, 2}, {3, 1, 2}, {1, 7, 1}};
                std::array<int, 3> d {1, 1, 1};
                int p = 1;
                for (int q = 0; q < nd; ++q) {
                    int e = nd == 1 ? 1 + 5 * v % 17 : grids[v % 6][q];
                    while (e > 1 && m[static_cast<std::size_t>(q)] / e < ng) --e;
                    p *= d[static_cast<std::size_t>(q)] = e;
                }
                direct(m, ng, 0, p, d, v % 3, v % 4, nd == 1 ? 1 : nd == 2 ? 29 : 97);
            });
#endif
        for (int v = 0; v < (th ? 36 : 12); ++v)
            x.run(vh::cat("run on a large grid ", v), [=] {
                std::array<int, 3> const m = alpha::large();
                int const ng = 2 + v % 3;
                static int const grids[][3] = {{1, 1, 1}, {4, 3, 1}, {2, 2, 3}, {1, 5, 2}, {3, 1, 2}, {1, 7, 1}};
                std::array<int, 3> d {1, 1, 1}, mark {};
                int p = 1;
                for (int q = 0; q < nd; ++q) {
                    int e = nd == 1 ? 1 + 5 * v % 17 : grids[v % 6][q];
                    if (im && q == 0) e = 1;
                    while (e > 1 && m[static_cast<std::size_t>(q)] / e < ng) --e;
                    p *= d[static_cast<std::size_t>(q)] = e;
                    mark[static_cast<std::size_t>(q)] = (v * 31 + 7 * q) % m[static_cast<std::size_t>(q)];
                }
                printed(m, ng, p, d, v % 3, v % 4, mark, v % 4 == 2, v % 4 == 3, v % 2 == 1);
            });
        int idx = 0;
        std::array<int, 3> const n {nd == 1 ? 10 : 5, nd > 1 ? 4 : 1, nd > 2 ? 4 : 1};
        for (int k = 0; k < n[2]; ++k)
            for (int j = 0; j < n[1]; ++j)
                for (int i = 0; i < n[0]; ++i)
                    for (int v = 0; v < (th ? 24 : nd == 3 ? 4 : 8); ++v) {
                        ++idx;
                        x.run(vh::cat("run, cell ", i, ",", j, ",", k, " variant ", v), [=] {
                            int const p = 1 + (idx + v) % (nd == 1 ? 5 : nd == 2 ? 4 : 8);
                            auto sp = component::splits(p, n, 2);
                            if (im) std::erase_if(sp, [](auto const& d) { return d[0] > 1; });
                            bool const none = sp.empty();
                            auto const d = none ? std::array<int, 3> {1, 1, 1} : sp[static_cast<std::size_t>(idx / 5) % sp.size()];
                            printed(n, 2 + (v == 7 && none), none ? 1 : p, d, v % 3, (v + idx) % 4, {i, j, k}, v % 4 == 2, v % 4 == 3, (idx + v / 4) % 2 == 1);
                        });
                    }
    });
}
