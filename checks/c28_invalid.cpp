// C28: invalid states stop the run at once, on every process, valid ones never do.
#include "common.hpp"
#include <limits>

namespace {

double const nan = std::numeric_limits<double>::quiet_NaN();

char const* const kinds[] = {"negative pressure", "tiny negative pressure", "NaN pressure", "NaN density", "NaN velocity", "very negative pressure", "fast along x0, negative pressure", "fast along x1, negative pressure", "fast along x2, negative pressure"};
// kinds of energy added by a step: to below zero, NaN
char const* const injected[] = {"negative", "NaN"};

sim::Cell damage(sim::Cell c, int kind)
{
    switch (kind) {
    case 0: c.P = -0.3 * alpha::pscale(); break;
    case 1:
        c.P = -1e-280;
        c.u = {0, 0, 0};
        break;
    case 2: c.P = nan; break;
    case 3: c.rho = nan; break;
    case 4: c.u[0] = nan; break;
    case 5: c.P = -1e200; break;
    case 6: // the energy is positive, the kinetic energy of this direction alone is larger
    case 7:
    case 8:
        c.rho = 1;
        c.P = -0.01 * alpha::pscale();
        c.u = {0, 0, 0};
        c.u[static_cast<std::size_t>(kind - 6)] = 2 * alpha::uscale() * (kind == 7 ? -1 : 1);
        break;
    }
    return c;
}

struct Case
{
    std::array<int, 3> n {4, 1, 1};
    int p = 1, perm = 0;
    std::array<int, 3> bad {0, 0, 0}, bad2 {-1, 0, 0};
    int kind = 0;
    int step = 0; // 0: initial state; m: during step m
    int fi = 1;
    std::string solver = "HLL", user;
};

void check(Case const& c)
{
    sim::Spec s;
    s.n = c.n;
    s.nfx = 1;
    alpha::domain(s);
    s.mpi.nranks = c.p;
    for (int r = 0; r < c.p && c.perm; ++r) s.mpi.cart_perm.push_back(c.p - 1 - r);
    if (c.p > 1 && sim::gravity() == "Internal_mass") s.ini.set("Parallelization", "mpi_dims_cart_x0", 1);
    s.ini.set("Boundary Condition", "BC", "NullGradient").set("Output", "max_iter", c.step + 5).set("Run", "t_end", 1e9).set("Hydro", "riemann_solver", c.solver);
    if (c.fi) s.ini.set("Output", "iter_frequency", c.fi);
    auto is = [=](int i, int j, int k) { return (c.bad == std::array<int, 3> {i, j, k}) || (c.bad2 == std::array<int, 3> {i, j, k}); };
    s.init = [=](int i, int j, int k) {
        sim::Cell v = alpha::state((i + 2 * j + 3 * k) % 2, 1);
        return c.step == 0 && is(i, j, k) ? damage(v, c.kind) : v;
    };
    long calls = 0;
    s.user_step = true;
    s.on_user_step = [&](double, double) { calls += kmpi::world_rank() == 0; };
    std::vector<double> times {0};
    // the step in which the energy is spoiled is recognised by its number on each process
    std::vector<long> count(static_cast<std::size_t>(c.p), 0);
    auto base = s.on_user_step;
    s.on_user_step = [&](double t, double dt) {
        base(t, dt);
        ++count[static_cast<std::size_t>(kmpi::world_rank())];
        if (kmpi::world_rank() == 0) times.push_back(t + dt);
    };
    s.user_heat = [&](int i, int j, int k, double, double, double) {
        if (c.step == 0 || count[static_cast<std::size_t>(kmpi::world_rank())] != c.step || !is(i, j, k)) return 0.;
        return c.kind == 0 ? -1e3 * alpha::pscale() : nan;
    };
    prog::ScopedFs fs;
    auto const r = sim::run(s);
    vh::trace_validated();
    vh::transitions(static_cast<std::uint64_t>(calls) + 1);
    for (auto const& q : r.snaps) vh::state(q.hash());
    std::string const what = c.step ? std::string(injected[c.kind]) + " energy after a step" : kinds[c.kind];
    if (!alpha::refused(r.out)) return vh::violate("not detected: " + what, r.out.summary());
    if (calls != c.step) return vh::violate("steps made after the detection, or detected too early: " + what, vh::cat(calls, " steps"));
    // the message, on every process
    std::ostringstream m;
    m << "Time = " << times.back() << ", iteration = " << c.step << ":";
    for (auto const& e : r.out.err)
        if (e.find(m.str()) == std::string::npos) return vh::violate("message", e + " instead of " + m.str());
    // snapshots: the regular ones, and the one of the invalid state
    std::size_t const regular = c.fi ? static_cast<std::size_t>(c.step / c.fi) + 1 : 0;
    if (r.snaps.size() != regular + 1) return vh::violate("number of snapshots", vh::cat(r.snaps.size(), " instead of ", regular + 1));
    auto const& q = r.snaps.back();
    if (q.iter != c.step || !vh::close(q.t, times.back(), 1e-12, 0) || q.output_id != static_cast<int>(regular)) return vh::violate("last snapshot", vh::cat("iteration ", q.iter, " time ", q.t));
    // it shows the invalid state where it is, and nowhere else when it is the initial one
    for (int k = 0; k < c.n[2]; ++k)
        for (int j = 0; j < c.n[1]; ++j)
            for (int i = 0; i < c.n[0]; ++i) {
                std::size_t const a = q.at(i, j, k);
                double ek = 0;
                for (int d = 0; d < sim::ndim(); ++d) ek += q.rho[a] * q.u[d][a] * q.u[d][a] / 2;
                bool const valid = q.E[a] - ek >= 0;
                if (valid == is(i, j, k)) return vh::violate("the last snapshot does not show the invalid state", vh::cat("cell ", i, ",", j, ",", k, " E ", q.E[a]));
            }
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        bool const th = vh::thorough();
        int const nd = sim::ndim();
        std::array<int, 3> const n = nd == 1 ? std::array<int, 3> {7, 1, 1} : nd == 2 ? std::array<int, 3> {5, 4, 1} : std::array<int, 3> {4, 4, 4};
        int const pmax = nd == 1 && sim::gravity() == "Internal_mass" ? 1 : nd == 1 ? 3 : nd == 2 ? 4 : 4;
        for (int p = 1; p <= pmax; ++p) {
            if (nd > 1 && p == 3) continue;
            for (int perm = 0; perm < (p > 1 ? 2 : 1); ++perm)
                for (int i = 0; i < n[0]; ++i)
                    for (int j = 0; j < n[1]; ++j)
                        for (int k = 0; k < n[2]; ++k) {
                            if (!th && nd == 3 && (i + j + k) % 3 != 0 && p != 4) continue;
                            for (int kind = 0; kind < 6 + nd; ++kind)
                                for (int fi : {0, 1}) {
                                    // with radiation, a negative pressure does not imply a negative energy
                                    if (sim::radgas() && (kind == 0 || kind >= 5)) continue;
                                    Case c;
                                    c.n = n;
                                    c.p = p;
                                    c.perm = perm;
                                    c.bad = {i, j, k};
                                    c.kind = kind;
                                    c.fi = fi;
                                    x.run(vh::cat(kinds[kind], " at ", i, ",", j, ",", k, " on ", p, " placement ", perm, " every ", fi), [=] { check(c); });
                                    // two invalid cells, on different processes when there are several
                                    if (kind < 3 && fi == 1) {
                                        c.bad2 = {n[0] - 1 - i, n[1] - 1 - j, n[2] - 1 - k};
                                        x.run(vh::cat("two ", kinds[kind], " at ", i, ",", j, ",", k, " on ", p, " placement ", perm), [=] { check(c); });
                                    }
                                }
                            for (int step = 1; step <= 3; ++step)
                                for (int kind = 0; kind < 2; ++kind)
                                    for (int fi : {0, 1, 2}) {
                                        if (fi != 1 && (step + i + j) % 2) continue;
                                        Case c;
                                        c.n = n;
                                        c.p = p;
                                        c.perm = perm;
                                        c.bad = {i, j, k};
                                        c.kind = kind;
                                        c.step = step;
                                        c.fi = fi;
                                        c.solver = alpha::solvers[(i + step) % 3];
                                        x.run(vh::cat(injected[kind], " in step ", step, " at ", i, ",", j, ",", k, " on ", p, " placement ", perm, " every ", fi), [=] { check(c); });
                                    }
                        }
        }
        // late, in a large domain
        for (int v = 0; v < (th ? 24 : 8); ++v)
            x.run(vh::cat("late ", v), [=] {
                Case c;
                c.n = alpha::large();
                c.p = nd == 1 && sim::gravity() == "Internal_mass" ? 1 : std::array<int, 4> {1, 4, 6, 8}[static_cast<std::size_t>(v % 4)];
                c.perm = v / 2 % 2;
                for (std::size_t d = 0; d < 3; ++d) c.bad[d] = static_cast<int>((v * 37 + 11 * static_cast<int>(d)) % c.n[d]);
                c.kind = v % 2;
                c.step = nd == 1 ? 41 + v : nd == 2 ? 17 + v : 6 + v % 3;
                c.fi = std::array<int, 3> {0, 7, 10}[static_cast<std::size_t>(v % 3)];
                c.solver = alpha::solvers[v % 2];
                check(c);
            });
        // valid states, however extreme
        double const rhos[] = {1e-200, 1e-30, 1, 1e30, 1e100}, Ps[] = {1e-280, 1e-30, 1, 1e30, 1e200};
        for (double rho : rhos)
            for (double P : Ps)
                for (int p = 1; p <= std::min(pmax, 2); ++p)
                    for (char const* sv : alpha::solvers) {
                        if (sim::radgas() && (P > 1e100)) continue;
                        // the squared sound speed and the step must be representable
                        if (P / rho > 1e100 || P / rho < 1e-100) continue;
                        x.run(vh::cat("valid rho ", rho, " P ", P, " ", sv, " on ", p), [=] {
                            sim::Spec s;
                            s.n = n;
                            alpha::domain(s);
                            s.mpi.nranks = p;
                            if (p > 1 && sim::gravity() == "Internal_mass") s.ini.set("Parallelization", "mpi_dims_cart_x0", 1);
                            // no gravity: the gas stays at rest
                            s.ini.set("Gravity", "M", 0.).set("Gravity", "gx0", 0.).set("Gravity", "gx1", 0.).set("Gravity", "gx2", 0.);
                            s.ini.set("Boundary Condition", "BC", "NullGradient").set("Output", "iter_frequency", 1).set("Output", "max_iter", 3).set("Run", "t_end", 1e300).set("Hydro", "riemann_solver", sv);
                            if (sim::gravity() == "Internal_mass" && rho > 1) return; // heavy
                            s.init = [=](int, int, int) {
                                sim::Cell c;
                                c.rho = rho;
                                c.P = P;
                                return c;
                            };
                            auto const r = sim::run_alone(s);
                            vh::trace_validated();
                            if (!r.ok()) return vh::violate("a valid state stops the run", r.problem);
                            if (r.snaps.size() != 4) vh::violate("a valid state ends the run early", "");
                        });
                    }
        // strong contrasts
        for (long code = 0; code < alpha::ipow(3, 4); ++code)
            for (char const* sv : {"HLL", "HLLC"})
                x.run(vh::cat("contrast ", code, " ", sv), [=] {
                    static double const r3[] = {1, 1e-4, 1e3}, p3[] = {1, 1e-5, 1e4};
                    sim::Spec s;
                    s.n = nd == 1 ? std::array<int, 3> {4, 1, 1} : nd == 2 ? std::array<int, 3> {2, 2, 1} : std::array<int, 3> {2, 2, 2};
                    alpha::domain(s);
                    auto const nn = s.n;
                    s.ini.set("Gravity", "M", 0.).set("Gravity", "gx0", 0.).set("Gravity", "gx1", 0.).set("Gravity", "gx2", 0.);
                    s.ini.set("Boundary Condition", "BC", "Reflexive").set("Output", "iter_frequency", 1).set("Output", "max_iter", 3).set("Hydro", "riemann_solver", sv).set("Hydro", "reconstruction", "Constant").set("Run", "cfl", 0.2);
                    s.init = [=](int i, int j, int k) {
                        long c = code;
                        for (int m = ((k * nn[1] + j) * nn[0] + i) % 4; m > 0; --m) c /= 3;
                        sim::Cell v;
                        v.rho = r3[c % 3];
                        v.P = p3[c % 3] * alpha::pscale();
                        return v;
                    };
                    auto const r = ref::conform(s, 1e-9);
                    if (!r.diff.empty()) vh::violate("strong contrast", r.diff);
                    if (!r.model.error.empty()) vh::counter("contrasts that end in an invalid state");
                });
    });
}
