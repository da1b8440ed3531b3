// C02: after the boundary stage every ghost cell that stands for a cell of the domain holds its value.
#include "ghosts.hpp"

namespace {

void check(sim::Spec const& s, std::array<std::string, 6> const& faces, bool same_momenta)
{
    auto const c = ghosts::capture(s);
    if (!c.problem.empty()) return vh::violate("the run fails", c.problem);
    vh::trace_validated();
    vh::transitions(static_cast<std::uint64_t>(s.mpi.nranks));
    ghosts::Global w;
    std::string e = ghosts::gather(c.blocks, s.n, w);
    if (!e.empty()) return vh::violate("blocks", e);
    // interior cells are left untouched
    int const nd = sim::ndim();
    vh::Hash h;
    for (int k = 0; k < s.n[2]; ++k)
        for (int j = 0; j < s.n[1]; ++j)
            for (int i = 0; i < s.n[0]; ++i)
                for (int f = 0; f < w.nf; ++f) {
                    h << w.at(f, {i, j, k});
                    if (f >= 1 && f <= nd) continue;
                    if (w.at(f, {i, j, k}) != ghosts::marker(f, {i, j, k})) return vh::violate("interior cells are changed", vh::cat("cell ", i, ",", j, ",", k, " field ", f));
                }
    vh::state(h);
    ghosts::Rules r;
    r.n = s.n;
    r.faces = faces;
    for (int f = 0; f < 2 * nd; ++f) r.order.push_back(f);
    r.user = [](int, int) { return 0.; };
    e = ghosts::compare(c.blocks, w, r, ghosts::inside);
    if (!e.empty()) return vh::violate("ghost cells", e);
    if (same_momenta) {
        // the momenta of the interior are those of the run on one process
        sim::Spec one = s;
        one.mpi.nranks = 1;
        one.mpi.cart_perm.clear();
        for (int d = 0; d < 3; ++d) one.ini.unset("Parallelization", vh::cat("mpi_dims_cart_x", d));
        auto const c1 = ghosts::capture(one);
        if (!c1.problem.empty()) return vh::violate("the run fails", c1.problem);
        ghosts::Global w1;
        ghosts::gather(c1.blocks, s.n, w1);
        for (std::size_t q = 0; q < w.a.size(); ++q)
            if (!vh::close(w.a[q], w1.a[q], 1e-12, 1e-12 * alpha::uscale())) return vh::violate("momenta depend on the number of processes", vh::cat(w.a[q], " and ", w1.a[q]));
    }
}

void one(std::array<int, 3> n, std::array<int, 3> dims, int ng, int per, int perm, int nfx)
{
    int const nd = sim::ndim();
    sim::Spec s;
    s.n = n;
    s.ng = ng;
    s.nfx = nfx;
    alpha::domain(s);
    int const p = dims[0] * dims[1] * dims[2];
    s.mpi.nranks = p;
    for (int q = 0; q < p && perm; ++q) s.mpi.cart_perm.push_back(perm == 1 ? p - 1 - q : (q + 1) % p);
    std::array<std::string, 6> faces;
    for (int d = 0; d < nd; ++d) {
        s.ini.set("Parallelization", vh::cat("mpi_dims_cart_x", d), dims[static_cast<std::size_t>(d)]);
        std::string const bc = per >> d & 1 ? "Periodic" : "NullGradient";
        s.ini.set("Boundary Condition", vh::cat("BC_X", d), bc);
        faces[static_cast<std::size_t>(2 * d)] = faces[static_cast<std::size_t>(2 * d + 1)] = bc;
    }
    s.init = [=](int i, int j, int k) {
        auto c = alpha::state((i * 3 + j * 5 + k * 7) % 5, nfx);
        c.u[0] *= 1 + 0.01 * i;
        c.u[1] *= 1 + 0.01 * j;
        c.u[2] *= 1 + 0.01 * k;
        return c;
    };
    check(s, faces, p > 1 && perm == 0 && nfx < 3);
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough();
        bool const im = sim::gravity() == "Internal_mass";
        int const pmax = nd == 1 ? (th ? 9 : 6) : th ? 18 : 8;
        std::vector<std::array<int, 3>> sizes;
        if (nd == 1) for (int n = 2; n <= (th ? 30 : 20); ++n) sizes.push_back({n, 1, 1});
        if (nd == 2) sizes = {{4, 4, 1}, {5, 8, 1}, {9, 4, 1}, {12, 9, 1}};
        if (nd == 3) sizes = {{4, 4, 4}, {5, 6, 7}, {8, 4, 4}};
        if (th && nd == 2) sizes.insert(sizes.end(), {{17, 6, 1}, {6, 17, 1}, {13, 14, 1}});
        if (th && nd == 3) sizes.insert(sizes.end(), {{4, 9, 8}, {9, 5, 9}});
        for (auto const& n : sizes)
            for (int p = 1; p <= pmax; ++p)
                for (int a = 1; a <= p; ++a)
                    for (int b = 1; b <= p / a; ++b) {
                        if (p % (a * b) != 0) continue;
                        std::array<int, 3> const dims {a, b, p / a / b};
                        if ((nd < 2 && b > 1) || (nd < 3 && dims[2] > 1) || (im && a > 1)) continue;
                        for (int ng = 2; ng <= 4; ++ng) {
                            bool fits = true;
                            for (int d = 0; d < nd; ++d) fits = fits && n[static_cast<std::size_t>(d)] / dims[static_cast<std::size_t>(d)] >= ng;
                            if (!fits) continue;
                            for (int per = 0; per < (1 << nd); ++per)
                                for (int perm = 0; perm < (p > 1 ? 3 : 1); ++perm)
                                    for (int nfx : {0, 1, 5}) {
                                        if (!th && (ng + per + perm + nfx) % 2 && nd > 1) continue;
                                        x.run(vh::cat(n[0], "x", n[1], "x", n[2], " on ", a, "x", b, "x", dims[2], " ng ", ng, " periodic ", per, " placement ", perm, " nfx ", nfx), [=] { one(n, dims, ng, per, perm, nfx); });
                                    }
                        }
                    }
        // wide blocks, deep ghost layers, ten scalars
        std::vector<std::array<int, 3>> const grids = nd == 1   ? std::vector<std::array<int, 3>> {{{1, 1, 1}}, {{2, 1, 1}}, {{5, 1, 1}}, {{13, 1, 1}}}
                                                      : nd == 2 ? std::vector<std::array<int, 3>> {{{1, 1, 1}}, {{5, 1, 1}}, {{1, 5, 1}}, {{4, 4, 1}}, {{3, 5, 1}}}
                                                                : std::vector<std::array<int, 3>> {{{1, 1, 1}}, {{2, 3, 3}}, {{3, 2, 2}}, {{1, 1, 4}}, {{1, 4, 3}}};
        int v = 0;
        for (auto const& dims : grids)
            for (int ng : {2, 5, 6, 7})
                for (int per = 0; per < (1 << nd); ++per) {
                    ++v;
                    if (im && dims[0] > 1) continue;
                    std::array<int, 3> const n = nd == 1 ? std::array<int, 3> {13 * 8 + v % 3, 1, 1} : nd == 2 ? std::array<int, 3> {41 + v % 2, 39, 1} : std::array<int, 3> {21, 28, 28 + v % 3};
                    if (nd == 3 && !th && v % 3) continue;
                    x.run(vh::cat("wide ", n[0], "x", n[1], "x", n[2], " on ", dims[0], "x", dims[1], "x", dims[2], " ng ", ng, " periodic ", per), [=] { one(n, dims, ng, per, v % 3, v % 2 ? 10 : 7); });
                }
    });
}
