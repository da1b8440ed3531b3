// C15: conservation on closed and periodic domains.
#include "closed.hpp"
#include "component.hpp"

namespace {

// periodic: kind of each direction; the other ones end at walls
void judge(std::string const& what, sim::Spec const& s, std::array<bool, 3> periodic, std::size_t steps)
{
    auto const r = sim::run_alone(s);
    if (!r.ok()) return vh::violate(vh::cat(what, ": the run fails"), r.problem);
    if (r.snaps.size() != steps + 1) return vh::violate(vh::cat(what, ": number of snapshots"), vh::cat(r.snaps.size()));
    auto const a = closed::totals(r.snaps.front(), s.ng);
    bool clamped = false;
    for (std::size_t q = 0; q < r.snaps.size(); ++q) {
        auto const& z = r.snaps[q];
        auto const b = closed::totals(z, s.ng);
        double const tol = 2e-14 * static_cast<double>(q + 1);
        auto bad = [&](std::string const& w, double x, double y) { vh::violate(vh::cat(what, ": ", w, " is not conserved"), vh::cat("step ", q, ": ", vh::num(x), " was ", vh::num(y))); };
        if (!vh::close(b.mass, a.mass, tol)) return bad("mass", b.mass, a.mass);
        if (!vh::close(b.energy, a.energy, tol, tol * b.aenergy)) return bad("energy", b.energy, a.energy);
        if (!sim::spherical())
            for (int d = 0; d < sim::ndim(); ++d)
                if (periodic[static_cast<std::size_t>(d)] && !vh::close(b.mom[static_cast<std::size_t>(d)], a.mom[static_cast<std::size_t>(d)], 0, tol * (a.amom + b.amom))) return bad(vh::cat("momentum ", d), b.mom[static_cast<std::size_t>(d)], a.mom[static_cast<std::size_t>(d)]);
        clamped = clamped || b.clamped;
        for (std::size_t f = 0; f < b.fx.size() && !clamped; ++f)
            if (!vh::close(b.fx[f], a.fx[f], 0, tol * b.mass)) return bad(vh::cat("scalar ", f), b.fx[f], a.fx[f]);
        vh::state(z.hash());
    }
    if (clamped) vh::counter("runs with a scalar at a bound");
    vh::transitions(static_cast<std::uint64_t>(s.mpi.nranks) * steps);
    vh::trace_validated();
}

void decompose(sim::Spec& s, int idx)
{
    std::vector<std::array<int, 3>> all;
    for (int p = 1; p <= (sim::ndim() == 1 ? 4 : 8); ++p)
        for (auto const& d : component::splits(p, s.n, s.ng)) all.push_back(d);
    auto const d = all[static_cast<std::size_t>(idx) % all.size()];
    s.mpi.nranks = d[0] * d[1] * d[2];
    s.mpi.cart_perm = component::placement(s.mpi.nranks, idx % 3);
    for (int q = 0; q < sim::ndim(); ++q) s.ini.set("Parallelization", "mpi_dims_cart_x" + std::to_string(q), d[static_cast<std::size_t>(q)]);
}

sim::Cell mild(int c, int nfx)
{
    sim::Cell z = alpha::state(c, nfx);
    for (double& f : z.fx) f = 0.35 + 0.3 * f;
    return z;
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough(), sph = sim::spherical();
        double const pi = std::numbers::pi;
        int const steps = th ? 8 : 4;
        long idx = 0;
        if (!sph) {
            std::array<int, 3> const n = nd == 1 ? std::array<int, 3> {5, 1, 1} : nd == 2 ? std::array<int, 3> {4, 2, 1} : std::array<int, 3> {4, 2, 2};
            int const base = nd == 1 ? (th ? 4 : 3) : 2;
            long const codes = nd == 3 ? (th ? 4096 : 96) : alpha::ipow(base, n[0] * n[1] * n[2]);
            for (char const* sv : alpha::solvers)
                for (char const* lm : alpha::limiters)
                    for (int kinds = 0; kinds < (1 << nd); ++kinds)
                        for (int pat = 0; pat < 2; ++pat)
                            for (long code = 0; code < codes; ++code) {
                                ++idx;
                                if (nd == 2 && !th && (code + kinds + pat) % 2) continue; // every initial state, one of two with each kind
                                x.run(vh::cat(sv, " ", lm, " periodic ", kinds, " grid ", pat, " init ", code), [=] {
                                    sim::Spec s;
                                    s.n = n;
                                    s.ng = 2;
                                    s.nfx = static_cast<int>(code % 3);
                                    std::array<bool, 3> per {};
                                    for (int d = 0; d < nd; ++d) {
                                        per[static_cast<std::size_t>(d)] = kinds >> d & 1;
                                        s.ini.set("Boundary Condition", "BC_X" + std::to_string(d), per[static_cast<std::size_t>(d)] ? "Periodic" : "Reflexive");
                                    }
                                    if (pat) closed::grid(s, {-0.3, 0, 0.1}, {0.9, 0.6, 1.1}, {1, 2, 3}, per);
                                    s.ini.set("Run", "t_end", 100.);
                                    int const nfx = s.nfx;
                                    // in 3D the bits are spread over the cells
                                    long const c = nd == 3 ? (code * 40503 + 12345 + kinds * 77) % 65536 : code;
                                    s.init = [=](int i, int j, int k) {
                                        long m = c;
                                        for (int q = (k * n[1] + j) * n[0] + i; q > 0; --q) m /= base;
                                        return mild(static_cast<int>(m % base) + 2 * (code % 2), nfx);
                                    };
                                    s.ini.set("Hydro", "riemann_solver", sv).set("Hydro", "reconstruction", lm);
                                    s.ini.set("Output", "iter_frequency", 1).set("Output", "max_iter", steps);
                                    decompose(s, static_cast<int>(idx % 1009));
                                    judge(vh::cat(sv, " ", lm, pat ? " user grid" : ""), s, per, static_cast<std::size_t>(steps));
                                });
                            }
            // more steps on more cells
            for (char const* sv : alpha::solvers)
                for (char const* lm : alpha::limiters)
                    for (int kinds = 0; kinds < (1 << nd); ++kinds)
                        for (int v = 0; v < 4; ++v) {
                            ++idx;
                            x.run(vh::cat("long ", sv, " ", lm, " periodic ", kinds, " ", v), [=] {
                                sim::Spec s;
                                s.n = nd == 1 ? std::array<int, 3> {24, 1, 1} : nd == 2 ? std::array<int, 3> {8, 7, 1} : std::array<int, 3> {6, 5, 4};
                                s.ng = 2 + v / 3;
                                s.nfx = 1;
                                std::array<bool, 3> per {};
                                for (int d = 0; d < nd; ++d) {
                                    per[static_cast<std::size_t>(d)] = kinds >> d & 1;
                                    s.ini.set("Boundary Condition", "BC_X" + std::to_string(d), per[static_cast<std::size_t>(d)] ? "Periodic" : "Reflexive");
                                }
                                if (v % 2) closed::grid(s, {-0.3, 0, 0.1}, {0.9, 0.6, 1.1}, {v, (v + 1) % 4, 2}, per);
                                s.ini.set("Run", "t_end", 100.).set("Run", "cfl", v == 2 ? 0.8 : 0.4);
                                s.init = [=](int i, int j, int k) { return mild((i * (v + 1) + j * 2 + k * 3) / 2 % 5, 1); };
                                s.ini.set("Hydro", "riemann_solver", sv).set("Hydro", "reconstruction", lm);
                                int const st = th ? 60 : 20;
                                s.ini.set("Output", "iter_frequency", 1).set("Output", "max_iter", st);
                                decompose(s, static_cast<int>(idx % 1009));
                                judge(vh::cat("long ", sv, " ", lm), s, per, static_cast<std::size_t>(st));
                            });
                        }
            return;
        }
        // spherical: from the origin, from axis to axis, the full circle; gas at rest at the outer wall, that nothing reaches
        int const st = th ? 4 : 3;
        int const inner = nd == 1 ? (th ? 6 : 5) : nd == 2 ? 2 : 1;
        int const n0 = inner + 2 * st + 1;
        std::array<int, 3> const n {n0, nd > 1 ? 3 : 1, nd > 2 ? 4 : 1};
        int const cells = inner * n[1] * n[2];
        int const base = nd == 1 ? 4 : 2;
        long const codes = std::min<long>(alpha::ipow(base, cells), th ? 4096 : 256);
        for (char const* sv : alpha::solvers)
            for (char const* lm : alpha::limiters)
                for (int pat = 0; pat < 2; ++pat)
                    for (int outer = 0; outer < 2; ++outer)
                        for (long code = 0; code < codes; ++code) {
                            ++idx;
                            if (!th && nd == 1 && (code + pat + outer) % 2) continue;
                            if (!th && nd > 1 && (code + pat + outer) % 4) continue;
                            x.run(vh::cat(sv, " ", lm, " grid ", pat, outer ? " far from the origin" : "", " init ", code), [=] {
                                sim::Spec s;
                                s.n = n;
                                s.ng = 2;
                                s.nfx = 1 + static_cast<int>(code % 2);
                                double const r0 = outer ? 1.5 : 0;
                                // away from the origin the inner wall has gas at rest in front of it as well
                                int const off = outer ? 2 * st : 0;
                                if (outer) s.n[0] += 2 * st;
                                closed::grid(s, {r0, 0, 0}, {r0 + 2, pi, 2 * pi}, {pat, 2 * pat, 3 * pat}, {false, false, true});
                                if (nd == 1) s.ini.set("Grid", "x1min", 0.).set("Grid", "x1max", pi).set("Grid", "x2min", 0.).set("Grid", "x2max", 2 * pi);
                                s.ini.set("Boundary Condition", "BC_X0", "Reflexive");
                                if (nd > 1) s.ini.set("Boundary Condition", "BC_X1", "Reflexive");
                                if (nd > 2) s.ini.set("Boundary Condition", "BC_X2", "Periodic");
                                s.ini.set("Run", "t_end", 100.);
                                int const nfx = s.nfx;
                                long const c = cells > 8 ? code * 2654435761 % (1L << std::min(cells, 30)) : code;
                                s.init = [=](int i, int j, int k) {
                                    if (i < off || i >= off + inner) return mild(0, nfx);
                                    long m = c;
                                    for (int q = (k * n[1] + j) * inner + i - off; q > 0; --q) m /= base;
                                    return mild(static_cast<int>(m % base) + 2 * (code % 2), nfx);
                                };
                                s.ini.set("Hydro", "riemann_solver", sv).set("Hydro", "reconstruction", lm);
                                s.ini.set("Output", "iter_frequency", 1).set("Output", "max_iter", st);
                                decompose(s, static_cast<int>(idx % 1009));
                                judge(vh::cat(sv, " ", lm, outer ? " far" : ""), s, {}, static_cast<std::size_t>(st));
                            });
                        }
    });
}
