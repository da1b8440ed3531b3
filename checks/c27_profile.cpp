// C27: radial profiles reach every process, at their place.
#include <Kokkos_Core.hpp>
#ifndef VH_RUNS_ONLY
#include <broadcast.hpp>
#endif
#include <grid.hpp>
#include <kokkos_shortcut.hpp>
#include <range.hpp>

#include "v1d.hpp"

namespace {

using namespace hclpp;

#ifndef VH_RUNS_ONLY
// the broadcast functions themselves on one block
void direct(std::array<int, 3> n, int ng, int nf)
{
    std::array<int, 3> g {ng, sim::ndim() >= 2 ? ng : 0, sim::ndim() >= 3 ? ng : 0};
    std::array<int, 3> const e {n[0] + 2 * g[0], n[1] + 2 * g[1], n[2] + 2 * g[2]};
    Range const range(std::array<int, 3> {0, 0, 0}, n, ng);
    auto each = [&](auto const& f) {
        for (int k = 0; k < e[2]; ++k)
            for (int j = 0; j < e[1]; ++j)
                for (int i = 0; i < e[0]; ++i) {
                    bool const in = i >= g[0] && i < g[0] + n[0] && j >= g[1] && j < g[1] + n[1] && k >= g[2] && k < g[2] + n[2];
                    f(i, j, k, in);
                }
    };
    KV_double_1d const prof("profile", n[0]);
    for (int i = 0; i < n[0]; ++i) prof.kshim_at(i) = 10 + i * 1.5;
    std::string const where = vh::cat(n[0], "x", n[1], "x", n[2], " ng ", ng);
    {
        KV_double_3d const a("a", e[0], e[1], e[2]);
        each([&](int i, int j, int k, bool) { a.kshim_at(i, j, k) = -7; });
        broadcast(range.no_ghosts(), KV_cdouble_1d(prof), a);
        kshim::fence();
        each([&](int i, int j, int k, bool in) {
            double const w = in ? 10 + (i - g[0]) * 1.5 : -7;
            if (a.kshim_at(i, j, k) != w) vh::violate("1d to 3d", vh::cat(where, " at ", i, ",", j, ",", k, ": ", a.kshim_at(i, j, k), " instead of ", w));
        });
        broadcast(range.no_ghosts(), 4.5, a);
        kshim::fence();
        each([&](int i, int j, int k, bool in) {
            if (a.kshim_at(i, j, k) != (in ? 4.5 : -7)) vh::violate("value to 3d", vh::cat(where, " at ", i, ",", j, ",", k, ": ", a.kshim_at(i, j, k)));
        });
    }
    {
        KV_double_4d const a("a", e[0], e[1], e[2], nf);
        auto fill = [&] {
            each([&](int i, int j, int k, bool) {
                for (int q = 0; q < nf; ++q) a.kshim_at(i, j, k, q) = -7 - q;
            });
        };
        fill();
        broadcast(range.no_ghosts(), KV_cdouble_1d(prof), a);
        kshim::fence();
        each([&](int i, int j, int k, bool in) {
            for (int q = 0; q < nf; ++q)
                if (a.kshim_at(i, j, k, q) != (in ? 10 + (i - g[0]) * 1.5 : -7 - q)) vh::violate("1d to 4d", vh::cat(where, " at ", i, ",", j, ",", k, ",", q, ": ", a.kshim_at(i, j, k, q)));
        });
        fill();
        broadcast(range.no_ghosts(), -2.25, a);
        kshim::fence();
        each([&](int i, int j, int k, bool in) {
            for (int q = 0; q < nf; ++q)
                if (a.kshim_at(i, j, k, q) != (in ? -2.25 : -7 - q)) vh::violate("value to 4d", vh::cat(where, " at ", i, ",", j, ",", k, ",", q, ": ", a.kshim_at(i, j, k, q)));
        });
    }
    vh::trace_validated();
    vh::transitions(4);
    vh::state(vh::Hash() << where << nf);
}
#endif

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough();
#ifndef VH_RUNS_ONLY
        int const m1 = nd >= 2 ? (th ? 5 : 4) : 1, m2 = nd >= 3 ? (th ? 5 : 4) : 1;
        for (int ng = 1; ng <= 3; ++ng)
            for (int a = 1; a <= 9; ++a)
                x.run(vh::cat("block ", a, " ng ", ng), [=] {
                    for (int b = 1; b <= m1; ++b)
                        for (int c = 1; c <= m2; ++c)
                            for (int nf = 0; nf <= 3; ++nf) direct({a, b, c}, ng, nf);
                });
        for (int q = 0; q < 24; ++q)
            x.run(vh::cat("large block ", q), [=] {
                direct(nd == 1 ? std::array<int, 3> {50 + 37 * q, 1, 1} : nd == 2 ? std::array<int, 3> {31 + 7 * q, 53 - q, 1} : std::array<int, 3> {23 + q, 19, 11 + q % 5}, 2 + q % 5, 1 + q % 10);
            });
#endif
        // the program on every decomposition
        int const maxp = nd == 1 ? 6 : 8;
        for (int p0 = 1; p0 <= maxp; ++p0)
            for (int p1 = 1; p1 <= (nd >= 2 ? 4 : 1); ++p1)
                for (int p2 = 1; p2 <= (nd >= 3 ? 3 : 1); ++p2) {
                    if (p0 * p1 * p2 > maxp) continue;
                    for (int extra = 0; extra < (th ? 5 : 3); ++extra)
                        for (int ng = 2; ng <= 3; ++ng)
                            for (int nfx : {0, 1, 2, 6, 10}) {
                                if (nfx == 10 && extra != 2) continue;
                                if (nd == 3 && !th && nfx == 1) continue;
                                x.run(vh::cat("decomposition ", p0, "x", p1, "x", p2, " extra ", extra, " ng ", ng, " nfx ", nfx), [=] {
                                    std::array<int, 3> const n {std::max(p0 * ng + (extra == 2 ? 95 : extra), 4), nd >= 2 ? p1 * ng + (extra + 1) % 3 : 1, nd >= 3 ? p2 * ng + extra % 2 : 1};
                                    auto c = v1d::make(n, ng, nfx);
                                    c.spec.mpi.nranks = p0 * p1 * p2;
                                    c.spec.ini.set("Parallelization", "mpi_dims_cart_x0", p0);
                                    if (nd >= 2) c.spec.ini.set("Parallelization", "mpi_dims_cart_x1", p1);
                                    if (nd >= 3) c.spec.ini.set("Parallelization", "mpi_dims_cart_x2", p2);
                                    for (int placement = 0; placement < 2; ++placement) {
                                        prog::ScopedFs fs;
                                        v1d::put(c, fs.fs);
                                        prog::Opt o;
                                        o.ini = c.spec.text();
                                        o.mpi = c.spec.mpi;
                                        if (placement) {
                                            int const t = o.mpi.nranks;
                                            for (int r = 0; r < t; ++r) o.mpi.cart_perm.push_back((r * (t % 2 ? 2 : t > 4 && t % 3 ? 3 : 1) + 1) % t);
                                        }
                                        auto const out = prog::run(o);
                                        fs.fs.files.erase("profile.h5");
                                        if (!out.ok()) return vh::violate("run", out.summary());
                                        auto const snaps = sim::read_all(fs.fs, nfx);
                                        std::string const d = snaps.empty() ? "no snapshot" : v1d::compare(c, snaps.front());
                                        if (!d.empty()) vh::violate("profile", d);
                                        vh::state(vh::Hash() << n[0] << n[1] << n[2] << p0 << p1 << p2 << ng << nfx << placement);
                                        vh::transitions(out.mpi.ops);
                                        vh::trace_validated();
                                    }
                                });
                            }
                }
    });
}
