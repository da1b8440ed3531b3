// C23: restarting from any snapshot continues the run.
#include "common.hpp"
#include <algorithm>

namespace {

struct Variant
{
    std::string name;
    sim::Spec s; // of the uninterrupted run
    std::function<void(sim::Spec&, int iter)> adapt; // before restarting at this iteration
    double reopened = 1e300; // outer radius from which the run has replaced a boundary that was not open
};

std::vector<Variant> variants()
{
    int const nd = sim::ndim();
    std::vector<Variant> out;
    bool const sph = sim::spherical();
    std::vector<std::string> kinds = {"plain", "scalars", "times", "times-and-iterations", "user grid", "shift", "shift-every-other", "shift-limit", "shift-limit-closed", "repair", "user boundary", "user step", "one scalar"};
    if (!sph) kinds.push_back("periodic");
    int m = 0;
    for (auto const& k : kinds) {
        for (int sv = 0; sv < 3; ++sv) {
            if (!vh::thorough() && (sv + m) % 3 == 2) continue;
            Variant v;
            v.name = k + " " + alpha::solvers[sv];
            auto& s = v.s;
            s.n = nd == 1 ? std::array<int, 3> {7, 1, 1} : nd == 2 ? std::array<int, 3> {6, 6, 1} : std::array<int, 3> {4, 6, 6};
            s.nfx = k == "scalars" ? 6 : k == "one scalar" ? 1 : k == "plain" ? 0 : 2;
            alpha::domain(s);
            s.ini.set("Hydro", "riemann_solver", alpha::solvers[sv]).set("Hydro", "reconstruction", alpha::limiters[(m + sv) % 4]);
            s.ini.set("Output", "iter_frequency", 1).set("Output", "max_iter", 6);
            s.ini.set("Perfect Gas", "gamma", 1.4);
            s.ini.set("Boundary Condition", "BC", k == "periodic" ? "Periodic" : m % 2 && k.rfind("shift", 0) != 0 ? "Reflexive" : "NullGradient");
            if (k.rfind("times", 0) == 0) {
                // a step is about 0.03
                double const D = 0.05 / alpha::uscale();
                s.ini.set("Output", "iter_frequency", k == "times" ? 0 : 2).set("Output", "time_frequency", D).set("Output", "time_first_output", 0.7 * D).set("Output", "max_iter", 1000).set("Run", "t_end", 4.3 * D).set("Run", "t_ini", 0.2 * D);
            }
            if (k == "user grid") {
                auto const p = ref::params(s);
                s.faces = p.faces;
                for (int d = 0; d < nd; ++d)
                    for (std::size_t i = 0; i < s.faces[d].size(); ++i) s.faces[d][i] += 0.08 * (p.faces[d][1] - p.faces[d][0]) * std::sin(1.7 * static_cast<double>(i) + d);
            }
            if (k == "shift" || k.rfind("shift-limit", 0) == 0) s.shift = [](long) { return true; };
            if (k == "shift-limit-closed") s.ini.set("Boundary Condition", "BC_X0_right", "Reflexive");
            if (k.rfind("shift-limit", 0) == 0) s.ini.set("Problem", "rmax_shift", ref::params(s).faces[0].back() + 0.9 * (ref::params(s).xmax[0] - ref::params(s).xmin[0]) / s.n[0]);
            if (k == "shift-limit-closed") v.reopened = ref::params(s).rmax_shift;
            if (k == "shift-every-other") {
                s.shift = [](long c) { return c % 2 == 0; };
                v.adapt = [](sim::Spec& r, int iter) { r.shift = [=](long c) { return (c + iter) % 2 == 0; }; };
            }
            if (k == "repair") s.ini.set("Pressure fix", "pressure_fix", "On").set("Pressure fix", "eps_pf", 0.5);
            if (k == "user boundary") {
                s.ini.set("Boundary Condition", "BC_X0_right", "UserDefined");
                s.user_value = [](int d, int f) { return alpha::state(2 * d + f, 2); };
            }
            if (k == "user step") {
                s.user_step = true;
                s.user_heat = [](int i, int j, int q, double rho, double t, double dt) { return rho * dt * alpha::pscale() * alpha::uscale() * (0.1 + 0.02 * i + 0.01 * j + 0.03 * q) * (1 + t * alpha::uscale()); };
            }
            int const nfx = s.nfx, mm = m;
            s.init = [=](int i, int j, int q) {
                sim::Cell c = alpha::state((i * 3 + j * 5 + q * 7 + mm) % 5, nfx);
                c.rho *= 1 + 0.01 * i + 0.017 * j + 0.023 * q;
                return c;
            };
            out.push_back(v);
        }
        ++m;
    }
    return out;
}

void procs(sim::Spec& s, int p, int mode)
{
    s.mpi.nranks = p;
    s.mpi.cart_perm.clear();
    if (mode && p > 1)
        for (int r = 0; r < p; ++r) s.mpi.cart_perm.push_back(p - 1 - r);
    // the self-gravity model keeps the first direction whole
    for (int d = 0; d < 3; ++d) s.ini.unset("Parallelization", "mpi_dims_cart_x" + std::to_string(d));
    if (p > 1 && sim::gravity() == "Internal_mass") s.ini.set("Parallelization", "mpi_dims_cart_x0", 1);
}

// the run has reached the limit of the shifts: it goes on with an open outer boundary, which no snapshot tells
char const* const known = "restart past the shift limit with an outer boundary other than NullGradient: the boundary is the one of the input file again";
bool past(Variant const& v, sim::Snap const& s) { return s.x[0][static_cast<std::size_t>(s.n[0] + v.s.ng + 1)] >= v.reopened; }

sim::Spec restarted(Variant const& v, sim::Snap const& from)
{
    sim::Spec r = v.s;
    r.ini.set("Problem", "restart", "true").set("Problem", "restart_file", from.path);
    r.init = [](int, int, int) -> sim::Cell {
        vh::violate("a restart recomputes the initial conditions", "");
        return {};
    };
    if (v.adapt) v.adapt(r, from.iter);
    return r;
}

// what a stop at this snapshot leaves on disk
void until(kio::Fs const& all, kio::Fs& some, std::string const& last)
{
    for (auto const& [p, f] : all.files)
        if (p <= last) some.files[p] = f;
    some.next_serial = all.next_serial;
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        bool const th = vh::thorough();
        int const nd = sim::ndim();
        int const pmax = (nd == 1 && sim::gravity() == "Internal_mass") ? 1 : nd == 1 ? 3 : 4;
        for (auto const& v : variants()) {
            for (int p0 = 1; p0 <= pmax; ++p0) {
                if (p0 > 1 && p0 < pmax && !th) continue;
                x.run(vh::cat(v.name, " from ", p0, " processes"), [=] {
                    sim::Spec s = v.s;
                    procs(s, p0, 1);
                    prog::ScopedFs full;
                    auto const a = sim::run(s);
                    if (!a.ok()) return vh::violate("the uninterrupted run fails", a.problem);
                    if (a.snaps.size() < 4) return vh::violate("harness: too few snapshots", "");
                    // stopping at the end leaves nothing to compare
                    for (std::size_t k = 0; k + 1 < a.snaps.size(); ++k)
                        for (int p = 1; p <= pmax; ++p) {
                            if (!th && p != p0 && (k + static_cast<std::size_t>(p)) % 2) continue;
                            sim::Spec r = restarted(v, a.snaps[k]);
                            procs(r, p, static_cast<int>(k) % 2);
                            prog::ScopedFs part;
                            until(full.fs, part.fs, a.snaps[k].path);
                            auto const b = sim::run(r);
                            vh::transitions(a.snaps.size() - k);
                            vh::trace_validated();
                            if (!b.ok()) {
                                vh::violate("the restart fails", vh::cat("snapshot ", k, " on ", p, ": ", b.problem));
                                continue;
                            }
                            for (auto const& q : b.snaps) vh::state(q.hash());
                            std::string const e = sim::diff(a.snaps, b.snaps, 1e-11);
                            if (!e.empty()) vh::violate(past(v, a.snaps[k]) ? known : "results differ after a restart", vh::cat("snapshot ", k, " on ", p, ": ", e));
                            // a second stop and restart
                            for (std::size_t k2 = k + 1; k2 + 1 < b.snaps.size(); ++k2) {
                                if (!th && (p != pmax || (k + k2) % 3)) continue;
                                sim::Spec r2 = restarted(v, b.snaps[k2]);
                                procs(r2, 1 + (p + static_cast<int>(k2)) % pmax, 0);
                                prog::ScopedFs part2;
                                until(part.fs, part2.fs, b.snaps[k2].path);
                                auto const c = sim::run(r2);
                                vh::trace_validated();
                                std::string const e2 = c.ok() ? sim::diff(a.snaps, c.snaps, 1e-11) : c.problem;
                                if (!e2.empty()) vh::violate(past(v, a.snaps[k]) || past(v, b.snaps[k2]) ? known : "results differ after two restarts", vh::cat("snapshots ", k, ",", k2, ": ", e2));
                            }
                        }
                });
            }
        }
        // late snapshots of a long run: numbers, iterations and times far from the first ones
        for (int k = 0; k < (th ? 12 : 3); ++k)
            x.run(vh::cat("long run ", k), [=] {
                Variant v;
                auto& s = v.s;
                s.n = nd == 1 ? std::array<int, 3> {23, 1, 1} : nd == 2 ? std::array<int, 3> {11, 9, 1} : std::array<int, 3> {6, 7, 7};
                s.nfx = k % 2 ? 1 : 10;
                s.ng = 2 + k % 2;
                alpha::domain(s);
                s.init = alpha::smooth(s.n, s.nfx, k);
                int const every = nd == 3 ? 7 : 13, count = nd == 3 ? 13 : 17;
                s.ini.set("Hydro", "riemann_solver", alpha::solvers[k % 3]).set("Hydro", "reconstruction", alpha::limiters[(k + 1) % 4]);
                s.ini.set("Boundary Condition", "BC", k % 2 ? "NullGradient" : "Reflexive").set("Run", "t_end", 1e9).set("Run", "t_ini", k == 2 ? 1.5 : 0.);
                s.ini.set("Output", "iter_frequency", every).set("Output", "max_iter", every * count - 4);
                if (k % 3 == 1) {
                    s.ini.set("Boundary Condition", "BC", "NullGradient");
                    s.shift = [](long c) { return c % 9 == 4; };
                    v.adapt = [](sim::Spec& r, int iter) { r.shift = [=](long c) { return (c + iter) % 9 == 4; }; };
                }
                prog::ScopedFs full;
                procs(s, pmax, 1);
                auto const a = sim::run(s);
                if (!a.ok()) return vh::violate("the uninterrupted run fails", a.problem);
                if (a.snaps.size() != static_cast<std::size_t>(count) + 1) return vh::violate("number of snapshots of a long run", vh::cat(a.snaps.size()));
                for (std::size_t from : {9u, 10u, static_cast<unsigned>(count) - 1}) {
                    sim::Spec r = restarted(v, a.snaps[from]);
                    procs(r, from == 10 ? 1 : pmax, 0);
                    prog::ScopedFs part;
                    until(full.fs, part.fs, a.snaps[from].path);
                    auto const b = sim::run(r);
                    vh::transitions(a.snaps.size() - from);
                    vh::trace_validated();
                    std::string const e = b.ok() ? sim::diff(a.snaps, b.snaps, 1e-8) : b.problem;
                    if (!e.empty()) vh::violate("results differ after a restart of a long run", vh::cat("snapshot ", from, ": ", e));
                }
            });
        // a run that has been going for very long: the same state under late counters and times
        struct Age { int outputs, steps; long periods; };
        for (Age const g : {Age {0, 32764, 0}, {250, 65530, 0}, {32763, 8388600, 0}, {65532, 16777212, 0}, {9999994, 2147483600, 0}, {99999, 0, 99990}, {0, 0, 1000}})
            for (int q = 0; q < 4; ++q)
                x.run(vh::cat("aged by ", g.outputs, " outputs ", g.steps, " steps ", g.periods, " periods, ", q), [=] {
                    double const D = 0.05 / alpha::uscale();
                    int const every = 1 + q % 2;
                    Variant v;
                    auto& s = v.s;
                    s.n = nd == 1 ? std::array<int, 3> {7, 1, 1} : nd == 2 ? std::array<int, 3> {6, 6, 1} : std::array<int, 3> {4, 6, 6};
                    s.nfx = q;
                    alpha::domain(s);
                    s.init = [=](int i, int j, int k) { return alpha::state((i + j * 2 + k * 3) % 5, q); };
                    s.ini.set("Boundary Condition", "BC", "Reflexive").set("Hydro", "riemann_solver", alpha::solvers[q % 3]);
                    if (g.periods) s.ini.set("Output", "time_frequency", D).set("Output", "time_first_output", 0.6 * D).set("Run", "t_end", 6.3 * D);
                    else s.ini.set("Output", "iter_frequency", every).set("Output", "max_iter", 13);
                    prog::ScopedFs fs;
                    auto const a = sim::run(s);
                    if (!a.ok() || a.snaps.size() < 5) return vh::violate("the uninterrupted run fails", a.problem);
                    // what the snapshots of the other run look like
                    int const steps = g.steps / every * every;
                    auto older = a.snaps;
                    auto const path = [](int id) {
                        char b[40];
                        std::snprintf(b, sizeof b, "result_%08d.h5", id);
                        return std::string(b);
                    };
                    for (auto& z : older) {
                        z.iter += steps;
                        z.output_id += g.outputs;
                        z.iter_output_id += steps / every;
                        z.time_output_id += static_cast<int>(g.periods);
                        z.t += static_cast<double>(g.periods) * D;
                        z.path = path(z.output_id);
                    }
                    std::size_t const k = 2;
                    prog::ScopedFs part;
                    kio::File f = fs.fs.files.at(a.snaps[k].path);
                    auto const put = [&](char const* nm, auto value) {
                        auto& d = f.dsets.at(nm);
                        if (d.bytes.size() != sizeof value) throw std::runtime_error(std::string("size of ") + nm);
                        std::memcpy(d.bytes.data(), &value, sizeof value);
                    };
                    put("iter", older[k].iter);
                    put("output_id", older[k].output_id);
                    put("iter_output_id", older[k].iter_output_id);
                    put("time_output_id", older[k].time_output_id);
                    put("current_time", older[k].t);
                    part.fs.files[older[k].path] = f;
                    sim::Spec r = restarted(v, older[k]);
                    if (g.periods) r.ini.set("Run", "t_end", 6.3 * D + static_cast<double>(g.periods) * D).set("Output", "max_iter", 10000);
                    else r.ini.set("Output", "max_iter", steps + 13).set("Run", "t_end", 3 * older.back().t); // never reached
                    procs(r, 1 + q % pmax, 0);
                    auto const b = sim::run(r);
                    vh::transitions(older.size() - k);
                    vh::trace_validated();
                    if (!b.ok()) return vh::violate("the restart of a long-lived run fails", b.problem);
                    older.erase(older.begin(), older.begin() + static_cast<std::ptrdiff_t>(k));
                    std::string const e = sim::diff(older, b.snaps, 1e-8);
                    if (!e.empty()) vh::violate("results differ after a restart of a long-lived run", e);
                    for (auto const& z : b.snaps) vh::state(z.hash());
                });
        // stopped by the iteration limit or the end time, then asked to go further
        for (double D : {0.05, 0.031, 0.117})
            for (double f : {0.7, 1., 1.31})
                for (double stop : {0.5, 1., 2., 2.6, 3.})
                    x.run(vh::cat("longer ", D, " ", f, " ", stop), [=] {
                        double const u = D / alpha::uscale();
                        Variant v;
                        auto& s = v.s;
                        s.n = nd == 1 ? std::array<int, 3> {6, 1, 1} : std::array<int, 3> {4, 4, nd == 3 ? 4 : 1};
                        alpha::domain(s);
                        s.init = [](int i, int j, int q) { return alpha::state((i + j * 2 + q * 3) % 5); };
                        s.ini.set("Boundary Condition", "BC", "Reflexive").set("Output", "time_frequency", u).set("Output", "time_first_output", f * u).set("Run", "t_end", stop * u);
                        prog::ScopedFs fs;
                        auto const a = sim::run(s);
                        if (!a.ok()) return vh::violate("the uninterrupted run fails", a.problem);
                        sim::Spec r = restarted(v, a.last());
                        double const end = 5.2 * u;
                        r.ini.set("Run", "t_end", end);
                        procs(r, nd == 1 && sim::gravity() == "Internal_mass" ? 1 : 2, 0);
                        auto const b = sim::run(r);
                        vh::trace_validated();
                        if (!b.ok()) return vh::violate("the restart fails", b.problem);
                        // every requested time, once; then the end
                        std::vector<double> want = {0};
                        for (int m = 0; f * u + m * u <= end * (1 + 1e-9); ++m) want.push_back(f * u + m * u);
                        want.push_back(stop * u);
                        want.push_back(end);
                        std::sort(want.begin(), want.end());
                        auto const same = [&](double p, double q) { return std::fabs(p - q) < 1e-7 * u; };
                        want.erase(std::unique(want.begin(), want.end(), same), want.end());
                        std::vector<double> have;
                        for (auto const& q : b.snaps) have.push_back(q.t);
                        bool ok = have.size() == want.size();
                        for (std::size_t i = 0; ok && i < want.size(); ++i) ok = same(have[i], want[i]);
                        if (!ok) {
                            std::string l;
                            for (double h : have) l += vh::cat(" ", h / u);
                            l += " instead of";
                            for (double h : want) l += vh::cat(" ", h / u);
                            vh::violate("requested times after a restart with a later end", l);
                        }
                        for (std::size_t i = 0; i < b.snaps.size(); ++i)
                            if (b.snaps[i].output_id != static_cast<int>(i)) vh::violate("output numbers after a restart", "");
                    });
        // files that cannot be restarted from
        auto broken = [&](std::string const& what, std::function<void(kio::Fs&, sim::Spec&)> const& damage) {
            for (int p : {1, 2}) {
                if (p > pmax) continue;
                x.run("broken file: " + what + " on " + std::to_string(p), [=] {
                    Variant v;
                    auto& s = v.s;
                    s.n = nd == 1 ? std::array<int, 3> {6, 1, 1} : std::array<int, 3> {4, 4, nd == 3 ? 4 : 1};
                    s.nfx = 2;
                    alpha::domain(s);
                    s.init = [](int i, int j, int q) { return alpha::state((i + j * 2 + q * 3) % 5, 2); };
                    s.ini.set("Boundary Condition", "BC", "Reflexive").set("Output", "iter_frequency", 1).set("Output", "max_iter", 3);
                    prog::ScopedFs fs;
                    auto const a = sim::run(s);
                    if (!a.ok()) return vh::violate("the uninterrupted run fails", a.problem);
                    auto const before = fs.fs.files.size();
                    sim::Spec r = restarted(v, a.snaps[1]);
                    procs(r, p, 0);
                    damage(fs.fs, r);
                    auto const n = fs.fs.files.size();
                    auto const b = sim::run(r);
                    vh::trace_validated();
                    (void)before;
                    bool stops = true;
                    for (int rc : b.out.rc) stops = stops && rc != 0;
                    if (!stops || b.out.mpi.deadlock) vh::violate("a bad restart file is accepted: " + what, b.out.summary());
                    if (fs.fs.files.size() != n) vh::violate("snapshots written after a failed restart", "");
                });
            }
        };
        char const* const file = "result_00000001.h5";
        broken("missing", [=](kio::Fs& f, sim::Spec&) { f.files.erase(file); });
        broken("no name", [=](kio::Fs&, sim::Spec& s) { s.ini.unset("Problem", "restart_file"); });
        broken("other name", [=](kio::Fs&, sim::Spec& s) { s.ini.set("Problem", "restart_file", "result_1.h5"); });
        for (char const* d : {"rho", "P", "ux0", "fx0", "fx1", "x0", "x1", "x2", "iter", "output_id", "iter_output_id", "time_output_id", "current_time"})
            broken(std::string("without ") + d, [=](kio::Fs& f, sim::Spec&) { f.files[file].dsets.erase(d); });
        for (int d = 0; d < nd; ++d)
            for (int by : {-1, 1, 2}) broken(vh::cat("size ", d, " ", by), [=](kio::Fs&, sim::Spec& s) { s.n[static_cast<std::size_t>(d)] += by; });
        broken("ghosts", [=](kio::Fs&, sim::Spec& s) { s.ng = 3; });
        broken("more scalars", [=](kio::Fs&, sim::Spec& s) { s.nfx = 3; });
    });
}
