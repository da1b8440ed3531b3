// C03: the blocks of the processes partition the domain; index ranges.
#include "ghosts.hpp"

namespace {
using namespace hclpp;

struct Got
{
    std::array<int, 3> lo {}, hi {}, ng {}, nlocal {}, nwg {}, coord {}, dims {};
    std::array<std::array<bool, 2>, 3> border {};
    std::string bad;
};

void ranges(Range const& r, std::array<int, 3> n, int ng, std::string& bad)
{
    int const nd = sim::ndim();
    auto is = [&](char const* what, std::array<int, 3> const& v, int d, int want) {
        if (v[static_cast<std::size_t>(d)] != want && bad.empty()) bad = vh::cat(what, "[", d, "] is ", v[static_cast<std::size_t>(d)], " instead of ", want);
    };
    for (int d = 0; d < 3; ++d) {
        int const g = d < nd ? ng : 0, m = n[static_cast<std::size_t>(d)];
        int const e1 = d < nd ? 1 : 0, e2 = d < nd ? 2 : 0;
        is("Nghost", r.Nghost, d, g);
        is("Nc_min_0g", r.Nc_min_0g, d, g);
        is("Nc_max_0g", r.Nc_max_0g, d, g + m);
        is("Nf_min_0g", r.Nf_min_0g, d, g);
        is("Nf_max_0g", r.Nf_max_0g, d, g + m + 1);
        is("Nc_min_1g", r.Nc_min_1g, d, g - e1);
        is("Nc_max_1g", r.Nc_max_1g, d, g + m + e1);
        is("Nf_min_1g", r.Nf_min_1g, d, g - e1);
        is("Nf_max_1g", r.Nf_max_1g, d, g + m + 1 + e1);
        is("Nc_min_2g", r.Nc_min_2g, d, g - e2);
        is("Nc_max_2g", r.Nc_max_2g, d, g + m + e2);
        is("Nf_min_2g", r.Nf_min_2g, d, g - e2);
        is("Nf_max_2g", r.Nf_max_2g, d, g + m + 1 + e2);
    }
    for (int w = 0; w <= ng; ++w) {
        // ranges derived from ranges as well
        for (Range const& q : {r.with_ghosts(w), r.all_ghosts().with_ghosts(w), r.no_ghosts().with_ghosts(w)}) {
            auto const [b, e] = cell_range(q);
            auto const md = cell_mdrange(q);
            for (int d = 0; d < 3; ++d) {
                int const g = d < nd ? ng : 0, a = d < nd ? w : 0;
                if (b[d] != g - a || e[d] != g + n[static_cast<std::size_t>(d)] + a) bad = vh::cat("cells with ", w, " layers in direction ", d, ": ", b[d], "..", e[d]);
                if (md.m_lower[d] != b[d] || md.m_upper[d] != e[d]) bad = "the loop over the cells of a range covers others";
            }
        }
    }
    {
        auto const [b, e] = cell_range(r.no_ghosts());
        auto const [b2, e2] = cell_range(r.all_ghosts());
        for (int d = 0; d < 3; ++d) {
            int const g = d < nd ? ng : 0;
            if (b[d] != g || e[d] != g + n[static_cast<std::size_t>(d)] || b2[d] != 0 || e2[d] != n[static_cast<std::size_t>(d)] + 2 * g) bad = "range without or with all ghosts";
        }
    }
    for (int w : {ng + 1, ng + 2}) {
        try {
            (void)r.with_ghosts(w);
            bad = "a range wider than the ghost layers is given";
        } catch (std::exception const&) {
        }
    }
}

#ifndef VH_RUNS_ONLY
// the Grid object alone, on p processes
void direct(std::array<int, 3> n, int ng, std::array<int, 3> dims, int p, int perm)
{
    int const nd = sim::ndim();
    kmpi::Options o;
    o.nranks = p;
    for (int q = 0; q < p && perm; ++q) o.cart_perm.push_back(perm == 1 ? p - 1 - q : (q + 1) % p);
    std::vector<Got> got(static_cast<std::size_t>(p));
    auto const r = kmpi::run(o, [&](int rank) {
        MPI_Init(nullptr, nullptr);
        {
            Grid const g(n, dims, ng);
            Got& a = got[static_cast<std::size_t>(rank)];
            a.lo = g.range.Corner_min;
            a.hi = g.range.Corner_max;
            a.ng = g.Nghost;
            a.nlocal = g.Nx_local_ng;
            a.nwg = g.Nx_local_wg;
            a.dims = g.mpi_dims_cart;
            a.border = g.is_border;
            // position in the process grid, from the communicator
            int cart_rank = -1;
            MPI_Comm_rank(g.comm_cart, &cart_rank);
            MPI_Cart_coords(g.comm_cart, cart_rank, 3, a.coord.data());
            if (a.coord != g.mpi_rank_cart) a.bad = "position in the process grid";
            if (g.mpi_size != p || g.mpi_rank != cart_rank || g.Nx_glob_ng != n) a.bad = "numbers of the grid";
            std::array<int, 3> m {};
            for (std::size_t d = 0; d < 3; ++d) m[d] = a.hi[d] - a.lo[d];
            ranges(g.range, m, ng, a.bad);
        }
        kshim::fence();
        MPI_Finalize();
    });
    vh::transitions(static_cast<std::uint64_t>(p));
    bool small = false;
    if (!r.clean()) {
        // too small blocks are refused, by every process
        for (int d = 0; d < nd; ++d) small = small || n[static_cast<std::size_t>(d)] / p < ng;
        bool all = !r.deadlock && r.error.empty();
        for (auto const& e : r.exceptions) all = all && !e.empty();
        if (small && all) return vh::counter("refused");
        return vh::violate("the grid is not built", r.summary());
    }
    vh::trace_validated();
    std::vector<int> owner(static_cast<std::size_t>(n[0]) * n[1] * n[2], -1);
    std::array<int, 3> const D = got[0].dims;
    if (D[0] * D[1] * D[2] != p) return vh::violate("the process grid does not use all processes", "");
    vh::Hash h;
    std::vector<int> places(static_cast<std::size_t>(p), 0);
    for (int q = 0; q < p; ++q) {
        Got const& a = got[static_cast<std::size_t>(q)];
        if (!a.bad.empty()) return vh::violate("ranges", vh::cat("process ", q, ": ", a.bad));
        if (a.dims != D) return vh::violate("processes disagree on the process grid", "");
        if (places[static_cast<std::size_t>((a.coord[0] * D[1] + a.coord[1]) * D[2] + a.coord[2])]++) return vh::violate("two processes at one place", "");
        for (std::size_t d = 0; d < 3; ++d) {
            bool const active = static_cast<int>(d) < nd;
            int const m = a.hi[d] - a.lo[d];
            h << a.lo[d] << a.hi[d];
            if (!active && D[d] != 1) return vh::violate("a direction that does not exist is split", "");
            if (active && dims[d] && D[d] != dims[d]) return vh::violate("the requested process grid is not used", "");
            if (a.nlocal[d] != m || a.nwg[d] != m + 2 * (active ? ng : 0) || a.ng[d] != (active ? ng : 0)) return vh::violate("sizes of a block", vh::cat("process ", q, " direction ", d));
            if (m != n[d] / D[d] && m != n[d] / D[d] + 1) return vh::violate("unbalanced blocks", vh::cat("process ", q, " direction ", d, ": ", m, " cells"));
            if (m == n[d] / D[d] + 1 && n[d] % D[d] == 0) return vh::violate("unbalanced blocks", vh::cat("process ", q, " direction ", d, ": ", m, " cells"));
            if (a.border[d][0] != (a.coord[d] == 0) || a.border[d][1] != (a.coord[d] == D[d] - 1)) return vh::violate("border of the domain", vh::cat("process ", q, " direction ", d));
            if ((a.lo[d] == 0) != (a.coord[d] == 0) || (a.hi[d] == n[d]) != (a.coord[d] == D[d] - 1)) return vh::violate("place of a block", vh::cat("process ", q, " direction ", d));
            // contiguous with the next one
            for (int z = 0; z < p; ++z) {
                Got const& b = got[static_cast<std::size_t>(z)];
                if (b.coord[d] == a.coord[d] + 1 && b.lo[d] != a.hi[d]) return vh::violate("place of a block", vh::cat("process ", z, " is not next to ", q, " in direction ", d));
                if (b.coord[d] == a.coord[d] && b.lo[d] != a.lo[d]) return vh::violate("place of a block", vh::cat("process ", z, " is not aligned with ", q, " in direction ", d));
            }
        }
        for (int k = a.lo[2]; k < a.hi[2]; ++k)
            for (int j = a.lo[1]; j < a.hi[1]; ++j)
                for (int i = a.lo[0]; i < a.hi[0]; ++i) {
                    if (i < 0 || i >= n[0] || j < 0 || j >= n[1] || k < 0 || k >= n[2]) return vh::violate("a cell outside of the domain", "");
                    int& w = owner[(static_cast<std::size_t>(k) * n[1] + j) * n[0] + i];
                    if (w >= 0) return vh::violate("a cell belongs to two processes", vh::cat(w, " and ", q));
                    w = q;
                }
    }
    for (int w : owner)
        if (w < 0) return vh::violate("a cell belongs to no process", "");
    vh::state(h);
}
#endif

#ifndef VH_RUNS_ONLY
// the loop over the cells of a range does visit them, once
void visit(std::array<int, 3> n, int ng)
{
    int const nd = sim::ndim();
    Range const r({0, n[0]}, {0, n[1]}, {0, n[2]}, ng);
    for (int w = 0; w <= ng; ++w) {
        std::array<int, 3> e {};
        for (int d = 0; d < 3; ++d) e[static_cast<std::size_t>(d)] = n[static_cast<std::size_t>(d)] + (d < nd ? 2 * ng : 0);
        Kokkos::View<int***, Kokkos::LayoutLeft> const v("visits", e[0], e[1], e[2]);
        Kokkos::parallel_for("visit", cell_mdrange(r.with_ghosts(w)), KOKKOS_LAMBDA(int i, int j, int k) { ++v(i, j, k); });
        kshim::fence();
        for (int k = 0; k < e[2]; ++k)
            for (int j = 0; j < e[1]; ++j)
                for (int i = 0; i < e[0]; ++i) {
                    bool in = true;
                    std::array<int, 3> const c {i, j, k};
                    for (int d = 0; d < nd; ++d) in = in && c[static_cast<std::size_t>(d)] >= ng - w && c[static_cast<std::size_t>(d)] < ng + n[static_cast<std::size_t>(d)] + w;
                    if (v.kshim_at(i, j, k) != (in ? 1 : 0)) return vh::violate("cells visited", vh::cat(w, " layers: cell ", i, ",", j, ",", k, " visited ", v.kshim_at(i, j, k), " times"));
                }
        vh::transitions(1);
    }
    vh::trace_validated();
}
#endif

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough();
#ifndef VH_RUNS_ONLY
        int const pmax = nd == 1 ? (th ? 24 : 16) : th ? 24 : 16;
        std::vector<std::array<int, 3>> sizes;
        if (nd == 1) for (int n = 1; n <= (th ? 100 : 60); ++n) sizes.push_back({n, 1, 1});
        if (nd == 2) for (int a = 1; a <= (th ? 17 : 13); ++a) for (int b = 1; b <= (th ? 17 : 13); ++b) sizes.push_back({a, b, 1});
        if (nd == 3) for (int a = 1; a <= (th ? 9 : 7); ++a) for (int b = 1; b <= (th ? 9 : 7); ++b) for (int c = 1; c <= (th ? 9 : 7); ++c) sizes.push_back({a, b, c});
        for (auto const& n : sizes)
            for (int p = 1; p <= pmax; ++p) {
                std::vector<std::array<int, 3>> dd = {{0, 0, 0}};
                for (int a = 1; a <= p; ++a)
                    for (int b = 1; b <= p / a; ++b) {
                        if (p % (a * b) != 0) continue;
                        std::array<int, 3> const d {a, b, p / a / b};
                        if ((nd < 2 && b > 1) || (nd < 3 && d[2] > 1)) continue;
                        dd.push_back(d);
                        if (nd > 1 && b == 1) dd.push_back({a, 0, 0});
                        if (nd == 3 && a == 1) dd.push_back({0, b, 0});
                    }
                x.run(vh::cat(n[0], "x", n[1], "x", n[2], " on ", p), [=] {
                    for (auto const& d : dd)
                        for (int ng : {1, 2, 3})
                            for (int perm = 0; perm < (p > 1 ? 3 : 1); ++perm) {
                                if (perm && ng != 1) continue;
                                bool fits = true;
                                for (int q = 0; q < nd; ++q) fits = fits && (d[static_cast<std::size_t>(q)] <= 1 || n[static_cast<std::size_t>(q)] / d[static_cast<std::size_t>(q)] >= ng);
                                if (!fits) continue;
                                vh::counter("grids");
                                direct(n, ng, d, p, perm);
                            }
                });
            }
        // larger counts, dealt out
        for (int q = 0; q < (th ? 400 : 120); ++q)
            x.run(vh::cat("large counts ", q), [=] {
                std::array<int, 3> n {1, 1, 1}, d {1, 1, 1};
                int const ng = 1 + q % 6;
                int p = 1;
                for (int e = 0; e < nd; ++e) {
                    auto const z = static_cast<std::size_t>(e);
                    n[z] = nd == 1 ? 61 + q * 7 % 941 : nd == 2 ? 14 + (q * 13 + 29 * e) % 97 : 8 + (q * 5 + 11 * e) % 19;
                    d[z] = nd == 1 ? 1 + q * 11 % 37 : nd == 2 ? 1 + (q * 3 + 2 * e) % 7 : 1 + (q + e) % 4;
                    while (d[z] > 1 && n[z] / d[z] < ng) --d[z];
                    p *= d[z];
                }
                vh::counter("grids");
                direct(n, ng, d, p, q % 3);
                bool fits = true; // whichever way MPI factors the count
                for (int e = 0; e < nd; ++e) fits = fits && n[static_cast<std::size_t>(e)] / p >= ng;
                if (fits) direct(n, ng, {0, 0, 0}, p, q % 3);
            });
        for (int a = 1; a <= 5; ++a)
            for (int b = 1; b <= (nd > 1 ? 5 : 1); ++b)
                for (int c = 1; c <= (nd > 2 ? 5 : 1); ++c)
                    for (int ng = 1; ng <= 4; ++ng) x.run(vh::cat("visit ", a, "x", b, "x", c, " ng ", ng), [=] { visit({a, b, c}, ng); });
#endif
        // blocks of real runs
        for (int p = 1; p <= (nd == 1 ? 6 : 12); ++p)
            for (int q = 0; q < (nd == 1 ? 20 : nd == 2 ? 30 : 12); ++q)
                x.run(vh::cat("run ", q, " on ", p), [=] {
                    sim::Spec s;
                    s.n = nd == 1 ? std::array<int, 3> {2 * p + q, 1, 1} : nd == 2 ? std::array<int, 3> {4 + q, 24 + q % 7, 1} : std::array<int, 3> {4 + q % 5, 6 + q % 3, 24 + q % 4};
                    s.mpi.nranks = p;
                    alpha::domain(s);
                    s.ini.set("Boundary Condition", "BC", "NullGradient");
                    if (nd == 2) s.ini.set("Parallelization", "mpi_dims_cart_x0", q % 2 == 0 || p % 2 || s.n[0] < 4 ? 1 : 2);
                    if (nd == 3) s.ini.set("Parallelization", "mpi_dims_cart_x0", 1).set("Parallelization", "mpi_dims_cart_x1", p % 3 ? 1 : 3);
                    s.init = [](int i, int j, int k) { return alpha::state((i + j + k) % 5); };
                    auto const c = ghosts::capture(s);
                    if (!c.problem.empty()) return vh::violate("the run fails", c.problem);
                    vh::trace_validated();
                    ghosts::Global w;
                    std::string const e = ghosts::gather(c.blocks, s.n, w);
                    if (!e.empty()) return vh::violate("blocks of a run", e);
                    vh::transitions(static_cast<std::uint64_t>(p));
                    vh::state(vh::Hash() << p << q);
                    for (int k = 0; k < s.n[2]; ++k)
                        for (int j = 0; j < s.n[1]; ++j)
                            for (int i = 0; i < s.n[0]; ++i)
                                if (w.at(0, {i, j, k}) != ghosts::marker(0, {i, j, k})) return vh::violate("cells of a run", "");
                });
    });
}
