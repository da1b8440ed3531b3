// C07: widths, centres, areas, volumes and coordinates of the mesh.
#include "component.hpp"

#ifndef VH_RUNS_ONLY
#include <grid_factory.hpp>
#include <grid_type.hpp>
#endif

namespace {
using namespace hclpp;

// what a process sees, as plain numbers
struct Seen
{
    std::array<int, 3> lo {}, n {}, ng {};
    std::array<std::vector<double>, 3> x, xc, dx;
    std::vector<double> ds, dv;
    std::array<int, 3> e {};
    std::size_t at(int i, int j, int k) const { return (static_cast<std::size_t>(k) * e[1] + j) * e[0] + i; }
    bool filled = false;
};

Seen see(Grid const& g)
{
    Seen s;
    s.filled = true;
    auto get = [](auto const& v) {
        std::vector<double> a;
        for (int i = 0; i < v.extent_int(0); ++i) a.push_back(v.kshim_at(i));
        return a;
    };
    s.x = {get(g.x0), get(g.x1), get(g.x2)};
    s.xc = {get(g.x0_center), get(g.x1_center), get(g.x2_center)};
    s.dx = {get(g.dx0), get(g.dx1), get(g.dx2)};
    for (std::size_t d = 0; d < 3; ++d) {
        s.lo[d] = g.range.Corner_min[d];
        s.n[d] = g.range.Corner_max[d] - g.range.Corner_min[d];
        s.ng[d] = g.Nghost[d];
        s.e[d] = g.dv.extent_int(static_cast<int>(d));
    }
    for (int k = 0; k < s.e[2]; ++k)
        for (int j = 0; j < s.e[1]; ++j)
            for (int i = 0; i < s.e[0]; ++i) {
                s.dv.push_back(g.dv.kshim_at(i, j, k));
                for (int d = 0; d < 3; ++d) s.ds.push_back(g.ds.kshim_at(i, j, k, d));
            }
    return s;
}

// all processes against the global faces (ghost faces included)
void judge(std::vector<Seen> const& all, std::array<int, 3> n, component::Faces const& f)
{
    int const nd = sim::ndim();
    bool const sph = sim::spherical();
    double total = 0;
    for (std::size_t p = 0; p < all.size(); ++p) {
        Seen const& s = all[p];
        auto bad = [&](char const* what, std::string const& detail) { vh::violate(what, vh::cat("process ", p, ": ", detail)); };
        if (!s.filled) return bad("a process has no grid", "");
        for (int d = 0; d < 3; ++d) {
            std::size_t const q = static_cast<std::size_t>(d);
            int const m = s.n[q] + 2 * s.ng[q];
            if (static_cast<int>(s.x[q].size()) != m + 1 || static_cast<int>(s.dx[q].size()) != m || static_cast<int>(s.xc[q].size()) != m || s.e[q] != m) return bad("extents", vh::cat("direction ", d));
            for (int i = 0; i <= m; ++i) {
                double const e = f[q][static_cast<std::size_t>(s.lo[q] + i)];
                if (s.x[q][static_cast<std::size_t>(i)] != e) return bad("coordinates are not those of the domain at the place of the process", vh::cat("direction ", d, " face ", i, ": ", s.x[q][static_cast<std::size_t>(i)], " against ", e));
                if (i == m) continue;
                double const h = f[q][static_cast<std::size_t>(s.lo[q] + i + 1)];
                if (!vh::close(s.dx[q][static_cast<std::size_t>(i)], h - e, 1e-15, 1e-16 * std::fabs(h))) return bad("width", vh::cat("direction ", d, " cell ", i, ": ", s.dx[q][static_cast<std::size_t>(i)], " against ", h - e));
                if (!vh::close(s.xc[q][static_cast<std::size_t>(i)], (e + h) / 2, 1e-15, 1e-16 * (std::fabs(e) + std::fabs(h)))) return bad("centre", vh::cat("direction ", d, " cell ", i, ": ", s.xc[q][static_cast<std::size_t>(i)], " against ", (e + h) / 2));
            }
        }
        for (int k = 0; k < s.e[2]; ++k)
            for (int j = 0; j < s.e[1]; ++j)
                for (int i = 0; i < s.e[0]; ++i) {
                    std::array<int, 3> const c {i, j, k};
                    ref::V3 lo {}, hi {};
                    bool in = true;
                    for (std::size_t d = 0; d < 3; ++d) {
                        lo[d] = f[d][static_cast<std::size_t>(s.lo[d] + c[d])];
                        hi[d] = f[d][static_cast<std::size_t>(s.lo[d] + c[d] + 1)];
                        in = in && c[d] >= s.ng[d] && c[d] < s.ng[d] + s.n[d];
                    }
                    double const v = s.dv[s.at(i, j, k)];
                    double const r3 = sph ? std::pow(std::fmax(std::fabs(lo[0]), std::fabs(hi[0])), 3) * 13 : 0;
                    double const e = ref::volume(nd, sph, lo, hi);
                    // a difference of cosines is known to 1e-16
                    double const tol = sph ? 1e-15 * r3 : 0;
                    if (!vh::close(v, e, 1e-13, tol)) return bad("volume", vh::cat("cell ", i, ",", j, ",", k, ": ", v, " against ", e));
                    if (in && !(v > 0)) return bad("volume not positive", vh::cat("cell ", i, ",", j, ",", k, ": ", v));
                    if (in) total += v;
                    for (int d = 0; d < nd; ++d) {
                        double const a = s.ds[s.at(i, j, k) * 3 + static_cast<std::size_t>(d)], ea = ref::area(nd, sph, d, lo, hi);
                        double const rr = sph ? std::pow(std::fmax(std::fabs(lo[0]), std::fabs(hi[0])), 2) * 1e-15 * 13 : 0;
                        if (!vh::close(a, ea, 1e-13, rr)) return bad("area", vh::cat("cell ", i, ",", j, ",", k, " direction ", d, ": ", a, " against ", ea));
                        if (in && a < -rr) return bad("area negative", vh::cat("cell ", i, ",", j, ",", k, " direction ", d, ": ", a));
                    }
                    // a closed surface: the flux of a uniform vector field (Cartesian)
                    if (!sph)
                        for (int d = 0; d < nd; ++d) {
                            std::array<int, 3> u = c;
                            ++u[static_cast<std::size_t>(d)];
                            if (u[static_cast<std::size_t>(d)] >= s.e[static_cast<std::size_t>(d)]) continue;
                            double const a = s.ds[s.at(i, j, k) * 3 + static_cast<std::size_t>(d)], b = s.ds[s.at(u[0], u[1], u[2]) * 3 + static_cast<std::size_t>(d)];
                            if (a != b) return bad("opposite faces of a box differ", vh::cat("cell ", i, ",", j, ",", k, " direction ", d));
                        }
                    // Gauss for the field (r, 0, 0) / 3: the volume is a third of r times the radial areas
                    if (sph && i + 1 < s.e[0]) {
                        double const a = s.ds[s.at(i, j, k) * 3], b = s.ds[s.at(i + 1, j, k) * 3];
                        if (!vh::close((hi[0] * b - lo[0] * a) / 3, v, 1e-12, 1e-14 * r3)) return bad("volume and radial areas", vh::cat("cell ", i, ",", j, ",", k));
                        // force of a uniform pressure along the polar axis is zero... along theta: d/dr closure
                        if (nd >= 2 && j + 1 < s.e[1]) {
                            // the areas of theta faces are sin(theta) times a common factor
                            double const t0 = s.ds[s.at(i, j, k) * 3 + 1], t1 = s.ds[s.at(i, j + 1, k) * 3 + 1];
                            if (!vh::close(t0 * std::sin(hi[1]), t1 * std::sin(lo[1]), 1e-12, 1e-14 * r3)) return bad("polar areas", vh::cat("cell ", i, ",", j, ",", k));
                        }
                    }
                }
    }
    // volume of the domain
    ref::V3 lo {}, hi {};
    std::array<int, 3> const ng = all[0].ng;
    for (std::size_t d = 0; d < 3; ++d) {
        lo[d] = f[d][static_cast<std::size_t>(ng[d])];
        hi[d] = f[d][static_cast<std::size_t>(ng[d] + n[d])];
    }
    double const e = ref::volume(nd, sph, lo, hi);
    if (!vh::close(total, e, 1e-12)) vh::violate("the volumes do not add up to that of the domain", vh::cat(total, " against ", e));
    vh::Hash h;
    h << total;
    vh::state(h);
    vh::trace_validated();
    vh::transitions(all.size());
}

// faces of one direction from the digits of a number: widths of a menu, first face given
std::vector<double> line(long code, int cells, int ng, double a, double b)
{
    static double const w[] = {1, 2.7, 0.21};
    std::vector<double> wd;
    double sum = 0;
    for (int q = 0; q < cells; ++q, code /= 3) sum += wd.emplace_back(w[code % 3]);
    std::vector<double> f;
    double x = a, s = (b - a) / sum;
    for (int q = 0; q <= cells; ++q) {
        f.push_back(q == cells ? b : x);
        if (q < cells) x += s * wd[static_cast<std::size_t>(q)];
    }
    // ghosts mirror the widths
    std::vector<double> left, right;
    double l = a, r = b;
    for (int q = 0; q < ng; ++q) {
        l -= s * wd[static_cast<std::size_t>(q % cells)] * 0.9;
        r += s * wd[static_cast<std::size_t>(cells - 1 - q % cells)] * 1.1;
        left.insert(left.begin(), l);
        right.push_back(r);
    }
    left.insert(left.end(), f.begin(), f.end());
    left.insert(left.end(), right.begin(), right.end());
    return left;
}

// bounds of the directions
struct Box
{
    std::array<double, 3> a, b;
};
std::vector<Box> boxes()
{
    double const pi = std::numbers::pi;
    if (!sim::spherical()) return {{{0, 0, 0}, {1, 1, 1}}, {{-3.3, 1e-4, -7}, {5.1, 2e-4, -6.5}}, {{1e6, -1e6, 0.1}, {1.5e6, 3e6, 0.3}}};
    return {{{0, 0, 0}, {1, pi, 2 * pi}}, {{1, 0.3, 0.2}, {1.4, 2.2, 1.9}}, {{1e9, pi / 4, 0}, {5e11, 3 * pi / 4, pi / 2}}, {{0.01, 0, -pi}, {3, pi / 2, pi}}};
}

#ifndef VH_RUNS_ONLY
void direct(std::array<int, 3> n, std::array<long, 3> code, int ng, Box const& b, int p)
{
    component::Faces f;
    for (std::size_t d = 0; d < 3; ++d) {
        int const g = static_cast<int>(d) < sim::ndim() ? ng : 0;
        f[d] = line(code[d], n[d], g, b.a[d], b.b[d]);
    }
    for (auto const& dims : component::splits(p, n, ng))
        for (int perm = 0; perm < (p > 1 ? 2 : 1); ++perm) {
            kmpi::Options o;
            o.nranks = p;
            o.cart_perm = component::placement(p, perm);
            std::vector<Seen> all(static_cast<std::size_t>(p));
            component::with_grids(o, n, dims, ng, f, [&](int rank, Grid& g) { all[static_cast<std::size_t>(rank)] = see(g); });
            judge(all, n, f);
        }
}
#endif

std::vector<double> regular(double a, double b, int n, int ng)
{
    std::vector<double> f;
    for (int i = -ng; i <= n + ng; ++i) f.push_back(a + (b - a) * i / n);
    return f;
}

#ifndef VH_RUNS_ONLY
// the regular grid of the program, as arrays
void regular_type(std::array<int, 3> n, int ng, Box const& b)
{
    std::array<int, 3> g {};
    for (std::size_t d = 0; d < 3; ++d) g[d] = static_cast<int>(d) < sim::ndim() ? ng : 0;
    std::array<KVH_double_1d, 3> x;
    for (std::size_t d = 0; d < 3; ++d) x[d] = KVH_double_1d("x", n[d] + 2 * g[d] + 1);
    Regular(b.a, b.b).execute(g, n, x[0], x[1], x[2]);
    for (std::size_t d = 0; d < 3; ++d) {
        auto const e = regular(b.a[d], b.b[d], n[d], g[d]);
        double const sc = std::fmax(std::fabs(b.a[d]), std::fabs(b.b[d]));
        for (std::size_t i = 0; i < e.size(); ++i)
            if (!vh::close(x[d].kshim_at(static_cast<int>(i)), e[i], 0, 4e-15 * sc)) return vh::violate("regular grid", vh::cat("direction ", d, " face ", i, ": ", x[d].kshim_at(static_cast<int>(i)), " against ", e[i], " (", n[d], " cells, ", g[d], " layers)"));
        if (x[d].kshim_at(g[d]) != b.a[d]) return vh::violate("the regular grid does not start at the bound", vh::cat("direction ", d));
    }
    vh::trace_validated();
    vh::transitions(1);
}
#endif

// grids of real runs, seen by the shift criterion, and in the snapshots
void real(std::array<int, 3> n, int ng, Box const& b, int p, std::array<int, 3> dims, bool user, bool shifted)
{
    int const nd = sim::ndim();
    sim::Spec s;
    s.n = n;
    s.ng = ng;
    s.mpi.nranks = p;
    s.mpi.cart_perm = component::placement(p, 2);
    alpha::domain(s);
    component::Faces f;
    for (std::size_t d = 0; d < 3; ++d) {
        int const g = static_cast<int>(d) < nd ? ng : 0;
        std::string const k = "x" + std::to_string(d);
        s.ini.set("Grid", k + "min", vh::num(b.a[d])).set("Grid", k + "max", vh::num(b.b[d]));
        if (static_cast<int>(d) < nd) s.ini.set("Parallelization", "mpi_dims_cart_" + k, dims[d]);
        f[d] = user ? line(11 + static_cast<long>(d), n[d], g, b.a[d], b.b[d]) : regular(b.a[d], b.b[d], n[d], g);
    }
    if (user) s.faces = f;
    s.ini.set("Boundary Condition", "BC", "NullGradient").set("Output", "iter_frequency", 1).set("Output", "max_iter", 2).set("Grid", "shift_grid", "UserDefined");
    s.ini.set("Run", "t_end", "1e30").set("Gravity", "gx0", 0.).set("Gravity", "gx1", 0.).set("Gravity", "gx2", 0.).set("Gravity", "M", 0.);
    s.init = [](int i, int j, int k) { return alpha::state((i + j + k) % 2 ? 0 : 4); };
    std::vector<std::vector<Seen>> steps(2, std::vector<Seen>(static_cast<std::size_t>(p)));
    std::vector<int> calls(static_cast<std::size_t>(p), 0);
    s.on_stage = [&](Range const&, Grid const& grid, KV_cdouble_3d const&, KV_cdouble_4d const&, KV_cdouble_3d const&, KV_cdouble_4d const&) {
        kshim::fence();
        std::size_t const me = static_cast<std::size_t>(kmpi::world_rank());
        if (calls[me] < 2) steps[static_cast<std::size_t>(calls[me]++)][me] = see(grid);
    };
    if (shifted) s.shift = [](long q) { return q == 0; };
    auto const r = sim::run_alone(s);
    if (!r.ok()) return vh::violate("the run fails", r.problem);
    if (r.snaps.size() != 3) return vh::violate("number of snapshots", vh::cat(r.snaps.size()));
    // coordinates of the snapshots
    for (std::size_t q = 0; q < 3; ++q) {
        component::Faces const& x = r.snaps[q].x;
        component::Faces const want = f;
        for (std::size_t d = 0; d < 3; ++d) {
            if (d == 0 && shifted && q > 0) continue;
            if (x[d].size() != want[d].size()) return vh::violate("coordinates in the snapshots", vh::cat("direction ", d, ": ", x[d].size(), " faces"));
            double const sc = std::fmax(std::fabs(b.a[d]), std::fabs(b.b[d]));
            for (std::size_t i = 0; i < x[d].size(); ++i)
                if (!vh::close(x[d][i], want[d][i], 0, user ? 0 : 4e-15 * sc)) return vh::violate("coordinates in the snapshots", vh::cat("direction ", d, " face ", i, ": ", x[d][i], " against ", want[d][i]));
        }
        if (q == 0) continue;
        // the metric in use is that of the coordinates of the previous snapshot (the grid moves after the criterion)
        judge(steps[q - 1], n, r.snaps[q - 1].x);
    }
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough();
        auto const bx = boxes();
#ifndef VH_RUNS_ONLY
        // ---- all patterns of widths
        int const m = nd == 1 ? (th ? 7 : 6) : nd == 2 ? 4 : (th ? 4 : 3);
        for (std::size_t b = 0; b < bx.size(); ++b)
            for (int ng = 1; ng <= 3; ++ng) {
                long const pats = alpha::ipow(3, m);
                for (long c = 0; c < pats; ++c)
                    x.run(vh::cat("widths ", b, " ", ng, " ", c), [=] {
                        // nested patterns of the other directions: all in 2D, a spread in 3D
                        if (nd == 1) return direct({m, 1, 1}, {c, 0, 0}, ng, bx[b], 1);
                        for (long c1 = 0; c1 < pats; c1 += nd == 2 ? (th ? 1 : 3) : 5) direct({m, m - 1, nd == 3 ? 2 : 1}, {c, c1, (c + c1) % 9}, ng, bx[b], 1);
                    });
            }
#endif
#ifndef VH_RUNS_ONLY
        // ---- all numbers of cells on one process
        for (int n = 1; n <= (th ? 40 : 16); ++n)
            for (std::size_t b = 0; b < bx.size(); ++b)
                x.run(vh::cat("cells ", n, " ", b), [=] {
                    for (int ng = 1; ng <= 4; ++ng)
                        for (int q = 1; q <= (nd > 1 ? 5 : 1); ++q) {
                            direct({n, nd > 1 ? q : 1, nd > 2 ? 1 + n % 4 : 1}, {0, 0, 0}, ng, bx[b], 1);
                            regular_type({n, nd > 1 ? q : 1, nd > 2 ? 1 + n % 4 : 1}, ng, bx[b]);
                            regular_type({n * 97, nd > 1 ? q * 13 : 1, nd > 2 ? 1 + n * 7 : 1}, ng, bx[b]);
                        }
                });
#endif
#ifndef VH_RUNS_ONLY
        // ---- all process grids
        for (int p = 2; p <= (th ? 16 : 8); ++p)
            for (std::size_t b = 0; b < bx.size(); ++b)
                for (int ng = 1; ng <= 3; ++ng)
                    x.run(vh::cat("processes ", p, " ", b, " ", ng), [=] {
                        direct({nd == 1 ? ng * p + 1 : 9, nd > 1 ? 8 : 1, nd > 2 ? 6 : 1}, {12345, 678, 91}, ng, bx[b], p);
                        direct({nd == 1 ? ng * p + p - 1 : 6, nd > 1 ? 11 : 1, nd > 2 ? 7 : 1}, {777, 31, 5}, ng, bx[b], p);
                    });
#endif
        // ---- real runs
        for (int p = 1; p <= (th ? 8 : 6); ++p)
            for (std::size_t b = 0; b < bx.size(); ++b)
                for (int ng = 2; ng <= 3; ++ng)
                    for (int user = 0; user < 2; ++user)
                        for (int shifted = 0; shifted < 2; ++shifted)
                            x.run(vh::cat("run ", p, " ", b, " ", ng, user ? " user" : " regular", shifted ? " shifted" : ""), [=] {
                                // the origin is a centre of reflection, not of a run with open boundaries
                                Box bb = bx[b];
                                if (sim::spherical()) {
                                    if (bb.a[0] < 0.5) bb.a[0] = 0.7;
                                    if (nd > 1) bb.a[1] = std::fmax(bb.a[1], 0.9), bb.b[1] = std::fmin(bb.b[1], 2.1);
                                    if (bb.b[0] < 1e3) bb.b[0] = bb.a[0] + 0.4;
                                    if (sim::gravity() == "Internal_mass" && b == 2) return; // collapses at once
                                }
                                std::array<int, 3> const n {nd == 1 ? 3 * p + 2 : 7, nd > 1 ? 7 : 1, nd > 2 ? 6 : 1};
                                for (auto const& dims : component::splits(p, n, ng)) {
                                    if (sim::gravity() == "Internal_mass" && dims[0] > 1) continue;
                                    real(n, ng, bb, p, dims, user, shifted);
                                }
                            });
    });
}
