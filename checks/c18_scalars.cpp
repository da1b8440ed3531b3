// C18: passive scalars.
#include "closed.hpp"
#include "component.hpp"

namespace {

char const* const bcs[] = {"NullGradient", "Reflexive", "Periodic"};

struct Case
{
    std::array<int, 3> n;
    std::string solver, limiter;
    int variant = 0;
    long gas = 0;
    int steps = 5;
};

sim::Spec spec(Case const& c, int nfx, std::function<std::vector<double>(int)> const& fx, int idx)
{
    sim::Spec s;
    int const nd = sim::ndim(), v = c.variant;
    s.n = c.n;
    s.ng = 2 + (v % 5 == 4);
    s.nfx = nfx;
    alpha::domain(s);
    if (v % 2 == 0) s.ini.unset("Gravity", "gx0").unset("Gravity", "gx1").unset("Gravity", "gx2").set("Gravity", "M", 0.);
    for (int d = 0; d < nd; ++d) s.ini.set("Boundary Condition", "BC_X" + std::to_string(d), bcs[(v / 2 + d) % (sim::spherical() ? 2 : 3)]);
    if (v % 3 == 1) s.ini.set("Pressure fix", "pressure_fix", "On").set("Pressure fix", "eps_pf", 0.9);
    s.ini.set("Hydro", "riemann_solver", c.solver).set("Hydro", "reconstruction", c.limiter);
    s.ini.set("Output", "iter_frequency", 1).set("Output", "max_iter", c.steps);
    std::vector<std::array<int, 3>> all;
    for (int p = 1; p <= (nd == 1 ? 3 : 8); ++p)
        for (auto const& d : component::splits(p, s.n, s.ng)) all.push_back(d);
    auto const d = all[static_cast<std::size_t>(idx) % all.size()];
    s.mpi.nranks = d[0] * d[1] * d[2];
    s.mpi.cart_perm = component::placement(s.mpi.nranks, idx % 3);
    for (int q = 0; q < nd; ++q) s.ini.set("Parallelization", "mpi_dims_cart_x" + std::to_string(q), d[static_cast<std::size_t>(q)]);
    auto const gas = alpha::digits(c.gas, 3, {std::min(c.n[0], 6), std::min(c.n[1], 3), std::min(c.n[2], 2)}, 0, static_cast<int>(c.gas % 2));
    auto const n = c.n;
    s.init = [=](int i, int j, int k) {
        sim::Cell z = gas(i % 6, j % 3, k % 2);
        z.fx = fx((k * n[1] + j) * n[0] + i);
        return z;
    };
    return s;
}

bool fails(std::string const& what, sim::Res const& r, int steps)
{
    if (r.ok() && r.snaps.size() == static_cast<std::size_t>(steps) + 1) return false;
    vh::violate(vh::cat(what, ": the run fails"), r.problem);
    return true;
}

// exactly the same gas
std::string gas(sim::Res const& a, sim::Res const& b)
{
    for (std::size_t q = 0; q < a.snaps.size(); ++q) {
        auto const &x = a.snaps[q], &y = b.snaps[q];
        if (x.t != y.t || x.rho != y.rho || x.E != y.E || x.P != y.P || x.T != y.T || x.u != y.u) return vh::cat("snapshot ", q);
    }
    return "";
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough();
        std::array<int, 3> const n = nd == 1 ? std::array<int, 3> {6, 1, 1} : nd == 2 ? std::array<int, 3> {4, 3, 1} : std::array<int, 3> {4, 2, 2};
        int const cells = n[0] * n[1] * n[2];
        long const gases = nd == 1 ? 729 : 4096;
        long idx = 0;
        for (char const* sv : alpha::solvers)
            for (char const* lm : alpha::limiters)
                for (int var = 0; var < 12; ++var)
                    for (long c = 0; c < (th ? 64 : nd == 1 ? 32 : nd == 2 ? 16 : 8); ++c) {
                        ++idx;
                        long const g = (c * 2654435761L + var * 97) % gases;
                        x.run(vh::cat(sv, " ", lm, " variant ", var, " case ", c), [=] {
                            Case k {n, sv, lm, var, g, 5};
                            std::string const what = vh::cat(sv, " ", lm);
                            // 0 and 1; a uniform one; two patterns; half their sum; one in [0.3, 0.6]; a copy
                            long const bits = c * 40503 + 12345 + var;
                            auto const fx = [=](int q) -> std::vector<double> {
                                double const a = bits >> (q * 5 % 13) & 1, u = 0.3 + 0.1 * ((bits >> (q % 7)) & 3), w = std::fmod(0.17 + 0.31 * q + 0.07 * static_cast<double>(c % 11), 1.0);
                                return {a, 0.37, u, w, (u + w) / 2, u, 0.25 * u + 0.5 * w, 0};
                            };
                            int const count = static_cast<int>(std::size_t {8});
                            auto const r = sim::run_alone(spec(k, count, fx, static_cast<int>(idx % 1009)));
                            if (fails(what, r, k.steps)) return;
                            // without scalars: exactly the same gas
                            auto const r0 = sim::run_alone(spec(k, 0, [](int) { return std::vector<double> {}; }, static_cast<int>(idx % 1009)));
                            if (fails(what, r0, k.steps)) return;
                            std::string e = gas(r, r0);
                            if (!e.empty()) return vh::violate(vh::cat(what, ": scalars influence the gas"), e);
                            // alone, and at another place of the list: exactly the same scalar
                            int const pick = static_cast<int>((c + var) % count);
                            auto const r1 = sim::run_alone(spec(k, 1 + static_cast<int>(c % 3), [=](int q) { std::vector<double> v(static_cast<std::size_t>(1 + c % 3), 0.9); v.back() = fx(q)[static_cast<std::size_t>(pick)]; return v; }, static_cast<int>(idx % 1009)));
                            if (fails(what, r1, k.steps)) return;
                            for (std::size_t q = 0; q < r.snaps.size(); ++q)
                                if (r1.snaps[q].fx.back() != r.snaps[q].fx[static_cast<std::size_t>(pick)]) return vh::violate(vh::cat(what, ": a scalar depends on the other ones"), vh::cat("scalar ", pick, " snapshot ", q));
                            double lo[8], hi[8];
                            for (std::size_t f = 0; f < 8; ++f) {
                                lo[f] = 2, hi[f] = -1;
                                for (int q = 0; q < cells; ++q) lo[f] = std::min(lo[f], fx(q)[f]), hi[f] = std::max(hi[f], fx(q)[f]);
                            }
                            bool const first = std::string(lm) == "Constant";
                            for (std::size_t q = 0; q < r.snaps.size(); ++q) {
                                auto const& z = r.snaps[q];
                                double const eps = 1e-13 * static_cast<double>(q + 1);
                                for (std::size_t a = 0; a < z.rho.size(); ++a) {
                                    auto bad = [&](std::string const& w, double v) { vh::violate(vh::cat(what, ": ", w), vh::cat("snapshot ", q, " cell ", a, ": ", vh::num(v))); };
                                    for (std::size_t f = 0; f < 8; ++f) {
                                        double const v = z.fx[f][a];
                                        if (!(v >= 0 && v <= 1)) return bad("a concentration is not between 0 and 1", v);
                                        if (first && !(v >= lo[f] - eps && v <= hi[f] + eps)) return bad("a concentration leaves the range of its initial values", v);
                                        if (!first && !(v >= lo[f] - eps && v <= hi[f] + eps)) vh::counter("overshoot");
                                    }
                                    if (!vh::close(z.fx[1][a], 0.37, eps)) return bad("a uniform scalar does not stay uniform", z.fx[1][a]);
                                    if (z.fx[7][a] != 0) return bad("an absent scalar appears", z.fx[7][a]);
                                    if (z.fx[5][a] != z.fx[2][a]) return bad("equal scalars become different", z.fx[5][a]);
                                    if (first && !vh::close(z.fx[4][a], (z.fx[2][a] + z.fx[3][a]) / 2, 0, eps)) return bad("the mean of two scalars is not transported like them", z.fx[4][a]);
                                    if (first && !vh::close(z.fx[6][a], 0.25 * z.fx[2][a] + 0.5 * z.fx[3][a], 0, eps)) return bad("a combination of two scalars is not transported like them", z.fx[6][a]);
                                }
                                vh::state(z.hash());
                            }
                            vh::transitions(3 * static_cast<std::uint64_t>(k.steps));
                            vh::trace_validated();
                        });
                    }
        // ten scalars, many cells and steps
        for (int v = 0; v < (th ? 36 : 12); ++v)
            x.run(vh::cat("ten scalars ", v), [=] {
                auto const m = nd == 1 ? std::array<int, 3> {53, 1, 1} : nd == 2 ? std::array<int, 3> {17, 14, 1} : std::array<int, 3> {9, 8, 7};
                Case k {m, alpha::solvers[v % 3], alpha::limiters[(v + v / 4) % 4], v, v * 131 % gases, nd == 1 ? 40 : nd == 2 ? 15 : 7};
                std::string const what = k.solver + " " + k.limiter;
                auto const fx = [=](int q) {
                    std::vector<double> a;
                    for (int f = 0; f < 10; ++f) a.push_back(f == 3 ? 0 : f == 6 ? 1 : f == 8 ? 0.37 : std::fmod(0.13 * f + 0.61 * q + 0.01 * ((q * (f + 2)) % 17), 1.));
                    return a;
                };
                auto const r = sim::run_alone(spec(k, 10, fx, v * 101));
                if (fails(what, r, k.steps)) return;
                auto const r0 = sim::run_alone(spec(k, 0, [](int) { return std::vector<double> {}; }, v * 101));
                if (fails(what, r0, k.steps)) return;
                std::string const e = gas(r, r0);
                if (!e.empty()) return vh::violate(vh::cat(what, ": scalars influence the gas"), e);
                for (int pick : {9, 7, 4, 0}) {
                    auto const r1 = sim::run_alone(spec(k, 1 + pick % 4, [=](int q) { std::vector<double> a(static_cast<std::size_t>(1 + pick % 4), 0.9); a.back() = fx(q)[static_cast<std::size_t>(pick)]; return a; }, v * 101));
                    if (fails(what, r1, k.steps)) return;
                    for (std::size_t q = 0; q < r.snaps.size(); ++q)
                        if (r1.snaps[q].fx.back() != r.snaps[q].fx[static_cast<std::size_t>(pick)]) return vh::violate(vh::cat(what, ": a scalar depends on the other ones"), vh::cat("scalar ", pick, " snapshot ", q));
                }
                for (std::size_t q = 0; q < r.snaps.size(); ++q) {
                    auto const& z = r.snaps[q];
                    double const eps = 1e-13 * static_cast<double>(q + 1);
                    for (std::size_t a = 0; a < z.rho.size(); ++a) {
                        for (std::size_t f = 0; f < 10; ++f)
                            if (!(z.fx[f][a] >= 0 && z.fx[f][a] <= 1)) return vh::violate(vh::cat(what, ": a concentration is not between 0 and 1"), vh::num(z.fx[f][a]));
                        if (z.fx[3][a] != 0) return vh::violate(vh::cat(what, ": an absent scalar appears"), "");
                        if (!vh::close(z.fx[8][a], 0.37, eps) || !vh::close(z.fx[6][a], 1, eps)) return vh::violate(vh::cat(what, ": a uniform scalar does not stay uniform"), vh::num(z.fx[8][a]));
                    }
                    vh::state(z.hash());
                }
                vh::transitions(6 * static_cast<std::uint64_t>(k.steps));
                vh::trace_validated();
            });
    });
}
