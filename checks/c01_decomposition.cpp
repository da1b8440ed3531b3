// C01: the same run on every decomposition gives the snapshots of the run on one process.
#include "common.hpp"

namespace {

struct Variant
{
    std::string name;
    sim::Spec s;
};

std::vector<Variant> variants(std::array<int, 3> n, int level)
{
    int const nd = sim::ndim();
    std::vector<Variant> v;
    std::vector<std::string> bcs = {"NullGradient", "Reflexive", "mixed"};
    if (!sim::spherical()) bcs.push_back("Periodic");
    bcs.push_back("user");
    int m = 0;
    for (auto const& bc : bcs)
        for (int ng : {2, 3})
            for (int opt = 0; opt < 2 + level; ++opt, ++m) {
                sim::Spec s;
                s.n = n;
                s.ng = ng;
                s.nfx = m % 3 == 2 ? 0 : m % 5 == 3 ? 5 : m % 3 + 1;
                alpha::domain(s);
                if (bc == "mixed") {
                    static char const* const k[] = {"Reflexive", "NullGradient", "NullGradient"};
                    for (int d = 0; d < nd; ++d) s.ini.set("Boundary Condition", "BC_X" + std::to_string(d) + "_left", k[d]).set("Boundary Condition", "BC_X" + std::to_string(d) + "_right", k[(d + 1) % 3]);
                    if (nd == 2) s.ini.set("Boundary Condition", "priority", "Y_left X_right Y_right X_left");
                } else if (bc == "user") {
                    s.ini.set("Boundary Condition", "BC", "NullGradient").set("Boundary Condition", "BC_X0_left", "UserDefined");
                    if (nd > 1) s.ini.set("Boundary Condition", "BC_X1_right", "UserDefined");
                    int const nfx = s.nfx;
                    s.user_value = [=](int d, int f) { return alpha::state(2 * d + f, nfx); };
                } else
                    s.ini.set("Boundary Condition", "BC", bc);
                s.ini.set("Hydro", "riemann_solver", alpha::solvers[m % 3]).set("Hydro", "reconstruction", alpha::limiters[1 + m % 3]);
                s.ini.set("Output", "iter_frequency", 1).set("Output", "max_iter", 4);
                int const nfx = s.nfx;
                // every cell different
                s.init = [=](int i, int j, int k) {
                    sim::Cell c = alpha::state((i * 3 + j * 5 + k * 7 + m) % 5, nfx);
                    c.rho *= 1 + 0.01 * i + 0.017 * j + 0.023 * k;
                    return c;
                };
                if (opt == 1 && (bc == "NullGradient" || bc == "mixed" || bc == "user")) s.shift = [](long c) { return c % 2 == 0; };
                if (opt == 2) s.ini.set("Pressure fix", "pressure_fix", "On").set("Pressure fix", "eps_pf", 0.5);
                v.push_back({vh::cat(bc, " ng", ng, " opt", opt), s});
            }
    return v;
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough();
        std::vector<std::array<int, 3>> sizes;
        if (nd == 1) sizes = {{8, 1, 1}, {13, 1, 1}, {16, 1, 1}};
        if (nd == 2) sizes = {{6, 8, 1}, {9, 7, 1}};
        if (nd == 3) sizes = {{4, 7, 6}};
        if (th && nd == 1) sizes.push_back({25, 1, 1});
        if (th && nd == 2) sizes.push_back({13, 8, 1});
        if (th && nd == 3) sizes.push_back({6, 7, 8});
        int const pmax = nd == 1 ? (th ? 8 : 5) : nd == 2 ? (th ? 12 : 8) : (th ? 12 : 8);
        bool const single0 = sim::gravity() == "Internal_mass"; // the first direction may not be split
        for (auto const& n : sizes)
            for (auto const& v : variants(n, th ? 1 : 1)) {
                // explicit dimensions, and 0 (left to MPI)
                for (int p = 1; p <= pmax; ++p) {
                    std::vector<std::array<int, 3>> dims;
                    for (int a = 1; a <= p; ++a)
                        for (int b = 1; b <= p / a; ++b) {
                            if (p % (a * b) != 0) continue;
                            int const c = p / a / b;
                            if ((nd < 2 && b > 1) || (nd < 3 && c > 1)) continue;
                            dims.push_back({a, b, c});
                        }
                    if (!single0) dims.push_back({0, 0, 0});
                    for (auto const& d : dims) {
                        if (single0 && d[0] != 1) continue;
                        bool small = false;
                        for (int q = 0; q < nd; ++q) small = small || (d[q] > 1 && n[q] / d[q] < v.s.ng);
                        if (small && v.name.find("opt0") == std::string::npos) continue;
                        for (int perm = 0; perm < (p > 1 && !small ? 3 : 1); ++perm) {
                            if (!th && perm && (static_cast<int>(v.name.size()) + p + perm) % 3) continue; // placements on a third of the cases
                            x.run(vh::cat(n[0], "x", n[1], "x", n[2], " ", v.name, " on ", d[0], "x", d[1], "x", d[2], " of ", p, " placement ", perm), [=] {
                                sim::Spec s = v.s;
                                auto const one = sim::run_alone(s);
                                if (!one.ok()) return vh::violate("the run on one process fails", one.problem);
                                s.mpi.nranks = p;
                                // order of the ranks in the grid: as is, reversed, rotated
                                for (int r = 0; r < p && perm; ++r) s.mpi.cart_perm.push_back(perm == 1 ? p - 1 - r : (r + 1) % p);
                                for (int q = 0; q < nd; ++q)
                                    if (d[q]) s.ini.set("Parallelization", "mpi_dims_cart_x" + std::to_string(q), d[q]);
                                auto const r = sim::run_alone(s);
                                vh::transitions(4);
                                vh::trace_validated();
                                // refusing a decomposition into too small blocks is fine, a silently different result is not
                                bool all = true;
                                for (int rc : r.out.rc) all = all && rc > 0;
                                if ((small || d[0] == 0) && all && !r.out.mpi.deadlock && r.out.mpi.error.empty()) return vh::counter("refused");
                                if (!r.ok()) return vh::violate("the run on several processes fails", r.problem);
                                for (auto const& q : r.snaps) vh::state(q.hash());
                                std::string const e = sim::diff(one.snaps, r.snaps, single0 ? 1e-12 : 1e-13);
                                if (!e.empty()) vh::violate(small ? "blocks smaller than the ghost layer" : "results differ", e);
                                if (one.out.files != r.out.files) vh::violate("index files differ", "");
                            });
                        }
                    }
                }
            }
        // many cells, steps, processes, ghost layers and scalars
        for (int v = 0; v < (th ? 40 : 10); ++v)
            x.run(vh::cat("large ", v), [=] {
                sim::Spec s;
                s.n = alpha::large();
                s.ng = 2 + v % 4;
                s.nfx = v % 4 == 1 ? 10 : v % 3;
                alpha::domain(s);
                s.init = alpha::smooth(s.n, s.nfx, v);
                s.ini.set("Hydro", "riemann_solver", alpha::solvers[v % 3]).set("Hydro", "reconstruction", alpha::limiters[(v + v / 3) % 4]);
                s.ini.set("Output", "iter_frequency", 5).set("Output", "max_iter", nd == 1 ? 60 : nd == 2 ? 25 : 10).set("Run", "t_end", 1e9);
                s.ini.set("Boundary Condition", "BC", v % 2 ? "NullGradient" : "Reflexive");
                if (!sim::spherical() && v % 3 == 2) s.ini.set("Boundary Condition", "BC", "Periodic");
                if (v % 4 == 3) s.shift = [](long c) { return c % 7 == 5; };
                auto const one = sim::run_alone(s);
                if (!one.ok()) return vh::violate("the large run on one process fails", one.problem);
                static int const grids[][3] = {{16, 1, 1}, {5, 1, 1}, {3, 4, 2}, {2, 5, 3}, {4, 3, 1}, {1, 7, 2}};
                std::array<int, 3> d {1, 1, 1};
                auto const& g = grids[v % 6];
                if (nd == 1) d[0] = 3 + v * 2 % 13;
                else
                    for (int q = single0 ? 1 : 0; q < nd; ++q) d[static_cast<std::size_t>(q)] = g[q];
                int p = 1;
                for (int q = 0; q < nd; ++q) {
                    auto& e = d[static_cast<std::size_t>(q)];
                    while (e > 1 && s.n[static_cast<std::size_t>(q)] / e < s.ng) --e;
                    p *= e;
                }
                for (int perm = 0; perm < 3; ++perm) {
                    sim::Spec z = s;
                    z.mpi.nranks = p;
                    for (int r = 0; r < p && perm; ++r) z.mpi.cart_perm.push_back(perm == 1 ? p - 1 - r : (r + 1) % p);
                    for (int q = 0; q < nd; ++q) z.ini.set("Parallelization", "mpi_dims_cart_x" + std::to_string(q), d[static_cast<std::size_t>(q)]);
                    auto const r = sim::run_alone(z);
                    vh::transitions(4);
                    vh::trace_validated();
                    if (!r.ok()) return vh::violate("the large run on several processes fails", r.problem);
                    for (auto const& q : r.snaps) vh::state(q.hash());
                    std::string const e = sim::diff(one.snaps, r.snaps, single0 ? 1e-9 : 1e-12);
                    if (!e.empty()) vh::violate("large results differ", vh::cat(d[0], "x", d[1], "x", d[2], " ", e));
                }
            });
    });
}
