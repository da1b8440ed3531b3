// C08: the moving grid.
#include "component.hpp"
#include "ghosts.hpp"

namespace {
using namespace hclpp;

struct Stage // what the criterion of one step saw, for the whole domain and the layer beyond the outer radius
{
    std::vector<double> rho, E, x;
    std::array<std::vector<double>, 3> m;
    std::vector<std::vector<double>> fx;
};

// limit: 0 none, k: the k-th shift would reach it
void run(std::array<int, 3> n, int ng, int p, std::array<int, 3> dims, int perm, int nfx, long seq, int length, int stretch, int limit, std::string const& inner, std::string const& outer)
{
    int const nd = sim::ndim();
    sim::Spec s;
    s.n = n;
    s.ng = ng;
    s.nfx = nfx;
    alpha::domain(s);
    s.mpi.nranks = p;
    s.mpi.cart_perm = component::placement(p, perm);
    for (int d = 0; d < nd; ++d) s.ini.set("Parallelization", "mpi_dims_cart_x" + std::to_string(d), dims[static_cast<std::size_t>(d)]);
    s.ini.set("Boundary Condition", "BC", "NullGradient").set("Boundary Condition", "BC_X0_left", inner).set("Boundary Condition", "BC_X0_right", outer);
    if (nd >= 2) s.ini.set("Boundary Condition", "BC_X1", sim::spherical() ? "Reflexive" : "Periodic");
    s.ini.set("Output", "iter_frequency", 1).set("Output", "max_iter", length);
    s.ini.set("Hydro", "riemann_solver", alpha::solvers[(seq + limit) % 3]).set("Hydro", "reconstruction", alpha::limiters[(seq / 3 + stretch) % 4]);
    auto const d0 = ref::params(s);
    double const w = (d0.xmax[0] - d0.xmin[0]) / n[0];
    if (stretch) {
        // the other directions stay regular
        for (std::size_t d = 0; d < 3; ++d) {
            bool const on = static_cast<int>(d) < nd;
            double const h = (d0.xmax[d] - d0.xmin[d]) / n[d];
            for (int i = 0; i <= n[d] + (on ? 2 * ng : 0); ++i) s.faces[d].push_back(d0.xmin[d] + (i - (on ? ng : 0)) * h);
        }
        double x = d0.xmin[0], h = w;
        for (double& f : s.faces[0]) {
            f = x;
            x += h;
            h *= stretch == 1 ? 1.07 : stretch == 2 ? 0.95 : (f * 1e3 - std::floor(f * 1e3) > 0.5 ? 1.2 : 0.85);
        }
    }
    // outer radii after 0, 1, 2... shifts
    auto const full = ref::params(s).faces[0];
    std::vector<double> faces = full, radius;
    for (int q = 0; q <= length + 1; ++q) {
        std::size_t const z = faces.size();
        radius.push_back(q <= length ? faces[static_cast<std::size_t>(n[0] + ng)] : HUGE_VAL);
        double const r = (faces[z - 1] - faces[z - 2]) / (faces[z - 2] - faces[z - 3]);
        double const last = faces[z - 1] + (faces[z - 1] - faces[z - 2]) * r;
        faces.erase(faces.begin());
        faces.push_back(last);
    }
    if (limit) s.ini.set("Problem", "rmax_shift", radius[static_cast<std::size_t>(limit - 1)] + 0.5 * (radius[static_cast<std::size_t>(limit)] - radius[static_cast<std::size_t>(limit - 1)]));
    s.init = [=](int i, int j, int k) {
        sim::Cell c = alpha::state(0, nfx);
        c.rho = 1 + 0.1 * ((i * 3 + j * 5 + k * 7) % 6);
        c.u = {0.3 * alpha::uscale() * ((i + j) % 2), -0.2 * alpha::uscale(), 0.1 * alpha::uscale()};
        c.P *= 1 + 0.05 * ((i + 2 * j + k) % 4);
        for (std::size_t q = 0; q < c.fx.size(); ++q) c.fx[q] = 0.1 + 0.08 * ((i * 2 + j + k + static_cast<int>(q)) % 10);
        return c;
    };
    if (outer == "UserDefined" || inner == "UserDefined")
        s.user_value = [nfx](int, int f) {
            sim::Cell c = alpha::state(f == 0 ? 1 : 4, nfx);
            return c;
        };
    s.shift = [seq](long c) { return (seq >> c & 1) != 0; };
    std::map<long, Stage> seen;
    std::vector<long> call(static_cast<std::size_t>(p), 0);
    bool bad = false;
    s.on_stage = [&](Range const& range, Grid const& grid, KV_cdouble_3d const& rho, KV_cdouble_4d const& rhou, KV_cdouble_3d const& E, KV_cdouble_4d const& fx) {
        kshim::fence();
        Stage& z = seen[call[static_cast<std::size_t>(kmpi::world_rank())]++];
        std::size_t const all = static_cast<std::size_t>(n[0] + 1) * n[1] * n[2];
        if (z.rho.empty()) {
            z.rho.assign(all, std::nan(""));
            z.E = z.rho;
            z.m.fill(z.rho);
            z.fx.assign(static_cast<std::size_t>(nfx), z.rho);
        }
        for (int k = range.Corner_min[2]; k < range.Corner_max[2]; ++k)
            for (int j = range.Corner_min[1]; j < range.Corner_max[1]; ++j)
                for (int i = range.Corner_min[0]; i < range.Corner_max[0] + (range.Corner_max[0] == n[0] ? 1 : 0); ++i) {
                    std::size_t const q = (static_cast<std::size_t>(k) * n[1] + j) * (n[0] + 1) + i;
                    int const li = i - range.Corner_min[0] + range.Nghost[0], lj = j - range.Corner_min[1] + range.Nghost[1], lk = k - range.Corner_min[2] + range.Nghost[2];
                    z.rho[q] = rho.kshim_at(li, lj, lk);
                    z.E[q] = E.kshim_at(li, lj, lk);
                    for (int d = 0; d < nd; ++d) z.m[static_cast<std::size_t>(d)][q] = rhou.kshim_at(li, lj, lk, d);
                    for (int f = 0; f < nfx; ++f) z.fx[static_cast<std::size_t>(f)][q] = fx.kshim_at(li, lj, lk, f);
                }
        // the criterion sees the grid of the step
        for (int i = 0; i <= grid.Nx_local_wg[0]; ++i) z.x.push_back(grid.x0.kshim_at(i));
        if (grid.range.Corner_max[0] != range.Corner_max[0]) bad = true;
    };
    auto const r = ref::conform(s, 1e-9);
    if (bad) return vh::violate("range of the criterion", "");
    if (!r.model.error.empty()) {
        vh::counter("stopped on an invalid state");
        if (!r.diff.empty()) vh::violate("moving grid", r.diff);
        return;
    }
    auto const& sn = r.res.snaps;
    if (!r.res.ok() || sn.size() != static_cast<std::size_t>(length) + 1) return vh::violate("the run fails", r.res.ok() ? vh::cat(sn.size(), " snapshots") : r.res.problem);
    // what must have happened
    long shifts = 0, calls = 0;
    bool open = false;
    for (int it = 1; it <= length; ++it) {
        sim::Snap const &a = sn[static_cast<std::size_t>(it) - 1], &b = sn[static_cast<std::size_t>(it)];
        bool const asked = !open && (seq >> calls & 1);
        bool moved = false;
        if (!open) {
            if (!seen.contains(calls)) return vh::violate("the criterion is not asked at every step", vh::cat("step ", it));
            if (asked) {
                if (limit && shifts + 1 >= limit) open = true;
                else moved = true;
            }
        }
        auto const& xa = a.x[0];
        auto const& xb = b.x[0];
        if (xb.size() != xa.size()) return vh::violate("number of radii", "");
        std::size_t const z = xa.size();
        for (std::size_t q = 0; q + 1 < z; ++q)
            if (xb[q] != (moved ? xa[q + 1] : xa[q])) return vh::violate(moved ? "shifted coordinates" : "coordinates change without a shift", vh::cat("step ", it, " radius ", q));
        double const last = moved ? xa[z - 1] + (xa[z - 1] - xa[z - 2]) * (xa[z - 1] - xa[z - 2]) / (xa[z - 2] - xa[z - 3]) : xa[z - 1];
        if (!vh::close(xb[z - 1], last, 1e-13)) return vh::violate("new outer radius", vh::cat("step ", it, ": ", xb[z - 1], " for ", last));
        for (int d = 1; d < 3; ++d)
            if (b.x[static_cast<std::size_t>(d)] != a.x[static_cast<std::size_t>(d)]) return vh::violate("other coordinates change", vh::cat("direction ", d));
        if (seen.contains(calls) && (calls < static_cast<long>(seen.size()))) {
            // contents stay where they were: bit for bit, whatever the process that holds them
            Stage const& st = seen[calls];
            for (int k = 0; k < n[2]; ++k)
                for (int j = 0; j < n[1]; ++j)
                    for (int i = 0; i < n[0]; ++i) {
                        std::size_t const q = (static_cast<std::size_t>(k) * n[1] + j) * (n[0] + 1) + i + (moved ? 1 : 0), c = b.at(i, j, k);
                        bool ok = b.rho[c] == st.rho[q] && b.E[c] == st.E[q];
                        for (int d = 0; d < nd; ++d) ok = ok && vh::close(b.u[static_cast<std::size_t>(d)][c] * b.rho[c], st.m[static_cast<std::size_t>(d)][q], 1e-13, 1e-13 * alpha::uscale());
                        for (std::size_t f = 0; f < st.fx.size(); ++f) ok = ok && b.fx[f][c] == st.fx[f][q];
                        if (!ok) return vh::violate(moved ? "a cell does not keep its content" : "a step without shift moves the content", vh::cat("step ", it, " cell ", i, ",", j, ",", k));
                    }
        }
        if (moved) ++shifts;
        if (calls < static_cast<long>(seen.size())) ++calls;
        vh::counter(moved ? "shifts" : asked ? "limits reached" : "steps without shift");
    }
    if (static_cast<long>(seen.size()) != calls) return vh::violate("the criterion is asked after the limit", vh::cat(seen.size()));
    for (long c : call)
        if (c != calls) return vh::violate("the criterion is not asked on every process", "");
    // metric, boundaries, gravity and fields of all the steps
    if (!r.diff.empty()) vh::violate("moving grid", r.diff);
    // reported once per shift, by one process
    std::string all;
    for (auto const& o : r.res.out.out) all += o;
    long said = 0;
    for (std::size_t q = all.find("Shifting grid"); q != std::string::npos; q = all.find("Shifting grid", q + 1)) ++said;
    if (said != shifts) vh::violate("shifts reported", vh::cat(said, " for ", shifts));
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough();
        bool const im = sim::gravity() == "Internal_mass";
        int const length = th ? 8 : nd == 1 ? 6 : 5;
        std::vector<std::array<int, 3>> const boxes = nd == 1   ? std::vector<std::array<int, 3>> {{{6, 1, 1}}, {{11, 1, 1}}}
                                                      : nd == 2 ? std::vector<std::array<int, 3>> {{{6, 4, 1}}, {{5, 7, 1}}}
                                                                : std::vector<std::array<int, 3>> {{{4, 4, 4}}};
        static char const* const kinds[] = {"NullGradient", "Reflexive", "UserDefined"};
        for (auto n : boxes)
            for (int ng = 2; ng <= 3; ++ng)
                for (int p = 1; p <= (nd == 1 ? 4 : nd == 2 ? 6 : 4); ++p)
                    for (auto dims : component::splits(p, n, ng)) {
                        if (im && dims[0] > 1) continue;
                        for (long seq = 0; seq < (1L << length); ++seq) {
                            int const ones = __builtin_popcountl(static_cast<unsigned long>(seq));
                            for (int limit = 0; limit <= ones; ++limit) {
                                // all sequences and limits for one process grid; the rest dealt out
                                long const q = seq + 3 * limit + 5 * p + dims[0] + ng;
                                if (nd > 1 && !th && (ng == 3 || p > 1) && q % (nd == 2 ? 4 : 8) != 0) continue;
                                if (nd == 3 && !th && q % 2) continue;
                                x.run(vh::cat(n[0], "x", n[1], "x", n[2], " ghosts ", ng, " on ", dims[0], "x", dims[1], "x", dims[2], " requests ", seq, " limit ", limit), [=] {
                                    run(n, ng, p, dims, p > 1 ? static_cast<int>(q % 3) : 0, std::array<int, 4> {0, 1, 2, 5}[static_cast<std::size_t>(q % 4)], seq, length, static_cast<int>(q / 2 % 4), limit, kinds[q / 3 % 3], kinds[(q / 5 + 1) % 3]);
                                });
                            }
                        }
                    }
        // many steps, cells, ghost layers and scalars
        int const many = nd == 1 ? 45 : nd == 2 ? 20 : 9;
        long const mask = (1L << many) - 1;
        long const patterns[] = {mask, 0x555555555555 & mask, 0x333333333333 & mask, 0xB6DB6DB6DB6D & mask, 0xE1C78F3A5E1 & mask, (mask >> (many / 2)) << (many / 2)};
        for (int v = 0; v < (th ? 48 : 12); ++v)
            x.run(vh::cat("many ", v), [=] {
                std::array<int, 3> const n = nd == 1 ? std::array<int, 3> {43, 1, 1} : nd == 2 ? std::array<int, 3> {16, 11, 1} : std::array<int, 3> {9, 6, 7};
                int const ng = 2 + v % 4;
                long const seq = patterns[(v + v / 6) % 6];
                int const ones = __builtin_popcountl(static_cast<unsigned long>(seq));
                std::array<int, 3> dims {1, 1, 1};
                static int const grids[][3] = {{1, 1, 1}, {3, 1, 1}, {2, 2, 1}, {1, 2, 2}, {4, 1, 1}, {2, 1, 2}, {1, 3, 1}};
                int p = 1;
                for (int d = 0; d < nd; ++d) {
                    int e = nd == 1 ? 1 + v * 3 % 8 : grids[v % 7][d];
                    if (im && d == 0) e = 1;
                    while (e > 1 && n[static_cast<std::size_t>(d)] / e < ng) --e;
                    p *= dims[static_cast<std::size_t>(d)] = e;
                }
                run(n, ng, p, dims, v % 3, std::array<int, 4> {10, 0, 3, 1}[static_cast<std::size_t>(v % 4)], seq, many, v % 3, v % 5 == 4 ? ones * 2 / 3 : 0, kinds[v / 3 % 3], kinds[(v / 5 + 1) % 3]);
            });
    });
}
