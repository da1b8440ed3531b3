// C16: uniform states, gases at rest with uniform pressure, and contacts carried along.
#include "closed.hpp"
#include "component.hpp"

namespace {

struct Want
{
    ref::V3 u {0, 0, 0};
    double P = 1;
    bool density = false; // density and scalars stay as they are
};

void judge(std::string const& what, sim::Spec const& s, Want const& w, std::size_t steps)
{
    auto const r = sim::run_alone(s);
    if (!r.ok()) return vh::violate(vh::cat(what, ": the run fails"), r.problem);
    if (r.snaps.size() != steps + 1) return vh::violate(vh::cat(what, ": number of snapshots"), vh::cat(r.snaps.size()));
    auto const& a = r.snaps.front();
    double const u2 = w.u[0] * w.u[0] + w.u[1] * w.u[1] + w.u[2] * w.u[2];
    for (std::size_t q = 0; q < r.snaps.size(); ++q) {
        auto const& z = r.snaps[q];
        double const eps = (sim::radgas() ? 1e-10 : 2e-14) * static_cast<double>(q + 1);
        for (std::size_t c = 0; c < z.rho.size(); ++c) {
            double const cs = std::sqrt(w.P / z.rho[c]), sp = cs + std::sqrt(u2);
            // the pressure is what is left of the total energy
            double const m2 = 1 + z.rho[c] * u2 / w.P;
            auto bad = [&](std::string const& k, double x, double y) { vh::violate(vh::cat(what, ": ", k), vh::cat("step ", q, " cell ", c, ": ", vh::num(x), " instead of ", vh::num(y))); };
            for (int d = 0; d < sim::ndim(); ++d) {
                std::size_t const e = static_cast<std::size_t>(d);
                if (!vh::close(z.u[e][c], w.u[e], 0, eps * sp * m2)) return bad(vh::cat("velocity ", d, " is not uniform"), z.u[e][c], w.u[e]);
            }
            if (!vh::close(z.P[c], w.P, 4 * eps * m2)) return bad("the pressure is not uniform", z.P[c], w.P);
            if (w.density && !vh::close(z.rho[c], a.rho[c], eps * m2)) return bad("the density changes", z.rho[c], a.rho[c]);
            if (w.density)
                for (std::size_t f = 0; f < z.fx.size(); ++f)
                    if (!vh::close(z.fx[f][c], a.fx[f][c], eps, eps)) return bad("a scalar changes", z.fx[f][c], a.fx[f][c]);
        }
        vh::state(z.hash());
    }
    vh::transitions(static_cast<std::uint64_t>(s.mpi.nranks) * steps);
    vh::trace_validated();
}

void decompose(sim::Spec& s, int idx)
{
    std::vector<std::array<int, 3>> all;
    for (int p = 1; p <= (sim::ndim() == 1 ? 4 : 8); ++p)
        for (auto const& d : component::splits(p, s.n, s.ng)) all.push_back(d);
    auto const d = all[static_cast<std::size_t>(idx) % all.size()];
    s.mpi.nranks = d[0] * d[1] * d[2];
    s.mpi.cart_perm = component::placement(s.mpi.nranks, idx % 3);
    for (int q = 0; q < sim::ndim(); ++q) s.ini.set("Parallelization", "mpi_dims_cart_x" + std::to_string(q), d[static_cast<std::size_t>(q)]);
}

char const* const bcs[] = {"Periodic", "NullGradient", "Reflexive"};

sim::Spec base(std::array<int, 3> n, char const* sv, char const* lm, int bc, int pat, int nfx, int steps, int ng)
{
    sim::Spec s;
    s.n = n;
    s.ng = ng;
    s.nfx = nfx;
    s.ini.set("Boundary Condition", "BC", bcs[bc]);
    s.ini.set("Run", "t_end", 1e12).set("Run", "cfl", pat == 2 ? 0.9 : 0.4);
    s.ini.set("Hydro", "riemann_solver", sv).set("Hydro", "reconstruction", lm);
    s.ini.set("Output", "iter_frequency", 1).set("Output", "max_iter", steps);
    return s;
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough(), sph = sim::spherical();
        double const pi = std::numbers::pi;
        int const steps = th ? 12 : 6;
        long idx = 0;
        std::array<int, 3> const n = nd == 1 ? std::array<int, 3> {8, 1, 1} : nd == 2 ? std::array<int, 3> {5, 4, 1} : std::array<int, 3> {4, 4, 3};
        // domains: spherical ones in the usual place, from the origin, from axis to axis and around
        struct Box
        {
            ref::V3 a, b;
        };
        std::vector<Box> boxes;
        if (!sph) boxes = {{{-0.3, 0, 0.1}, {0.9, 0.6, 1.1}}, {{1e8, -3e8, 0}, {4e8, -1e8, 5e8}}};
        else boxes = {{{1, 0.6, 0.1}, {2.5, 1.9, 1.4}}, {{0, 0, 0}, {2, pi, 2 * pi}}, {{1, 0.05, 0}, {1.01, 0.1, 0.1}}};
        static double const speeds[5] = {0, 0.3, -0.3, 2.5, -7};
        int const nv = nd == 1 ? 5 : nd == 2 ? 25 : 125;

        for (char const* sv : alpha::solvers)
            for (char const* lm : alpha::limiters)
                for (int bc = sph; bc < 3; ++bc)
                    for (int pat = 0; pat < 4; ++pat)
                        for (std::size_t box = 0; box < boxes.size(); ++box) {
                            std::array<bool, 3> const per {bc == 0, bc == 0, bc == 0};
                            // 1. uniform states: any velocity where it can go through the borders (Cartesian)
                            for (int v = 0; v < ((sph || bc == 2) ? 1 : nv); ++v)
                                for (int st = 0; st < (sph ? 4 : 2); ++st) {
                                    ++idx;
                                    if (nd == 3 && !sph && bc != 2 && !th && v % 13 != idx / 2 % 13) continue;
                                    x.run(vh::cat("uniform ", sv, " ", lm, " ", bcs[bc], " grid ", pat, " box ", box, " velocity ", v, " state ", st), [=] {
                                        sim::Spec s = base(n, sv, lm, bc, pat, 1, steps, 2 + pat / 3);
                                        closed::grid(s, boxes[box].a, boxes[box].b, {pat, (pat + 1) % 4, (pat + 2) % 4}, per);
                                        Want w;
                                        double const P = std::array<double, 4> {1, 1e-3, 0.7, 4}[static_cast<std::size_t>(st)] * alpha::pscale(), rho = std::array<double, 4> {1, 0.2, 3, 1}[static_cast<std::size_t>(st)];
                                        int c = v;
                                        for (std::size_t d = 0; d < static_cast<std::size_t>(nd); ++d, c /= 5) w.u[d] = speeds[c % 5] * std::sqrt(P / rho);
                                        w.P = P;
                                        w.density = true;
                                        s.init = [=](int, int, int) {
                                            sim::Cell z;
                                            z.rho = rho;
                                            z.P = P;
                                            z.u = w.u;
                                            z.fx = {0.37};
                                            return z;
                                        };
                                        decompose(s, static_cast<int>(idx % 1009));
                                        judge(vh::cat("uniform ", sv, " ", lm, " ", bcs[bc]), s, w, static_cast<std::size_t>(steps));
                                    });
                                }
                        }
        if (sim::radgas()) return; // the energy of a radiating gas is not proportional to its pressure

        // 2. any density and scalar distribution at rest at equal pressure; 3. carried along (Cartesian)
        int const cells = n[0] * n[1] * n[2], bits = nd == 1 ? (th ? 8 : 7) : nd == 2 ? (th ? 10 : 6) : (th ? 8 : 5);
        for (char const* sv : alpha::solvers)
            for (char const* lm : alpha::limiters)
                for (int bc = sph; bc < 3; ++bc)
                    for (int pat = 0; pat < 2; ++pat)
                        for (long code = 0; code < (1L << bits); ++code)
                            for (int move = 0; move < (sph || bc == 2 ? 1 : 3); ++move) {
                                bool const rest = move == 0;
                                if (rest && std::string(sv) != "HLLC" && bc == 2) continue;
                                if (sph && std::string(sv) != "HLLC") continue; // a smeared contact does not stay at equal energy across unequal areas
                                ++idx;
                                if (!th && nd > 1 && (code + move + pat) % 3 == 1) continue;
                                x.run(vh::cat(rest ? "rest " : "contact ", sv, " ", lm, " ", bcs[bc], " grid ", pat, " move ", move, " init ", code), [=] {
                                    sim::Spec s = base(n, sv, lm, bc, pat, 2, steps, 2);
                                    closed::grid(s, boxes[0].a, boxes[0].b, {pat, 2 * pat, 3 * pat}, {bc == 0, bc == 0, bc == 0});
                                    Want w;
                                    w.P = 0.8;
                                    w.density = rest && std::string(sv) == "HLLC";
                                    if (move) w.u = {move == 1 ? 0.4 : -2.6, nd > 1 ? (move == 1 ? -0.7 : 0.2) : 0, nd > 2 ? 0.3 * move : 0};
                                    s.init = [=](int i, int j, int k) {
                                        int const q = (k * n[1] + j) * n[0] + i;
                                        bool const b = code >> (q * bits / cells) & 1;
                                        sim::Cell z;
                                        z.rho = b ? 0.1 : 1 + 0.5 * (q % 2);
                                        z.P = w.P;
                                        z.u = w.u;
                                        z.fx = {b ? 0.9 : 0.2, 0.1 * (q % 7) + 0.1};
                                        return z;
                                    };
                                    decompose(s, static_cast<int>(idx % 1009));
                                    judge(vh::cat(rest ? "gas at rest " : "contact ", sv, " ", lm, " ", bcs[bc]), s, w, static_cast<std::size_t>(steps));
                                });
                            }
    });
}
