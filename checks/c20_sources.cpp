// C20: energy repair, radioactive heating, user-defined step.
#include "common.hpp"

namespace {

// states on both sides of the threshold, ratio e/ek: 33, .8, .09, .02, .003
sim::Cell fast(int s, int nfx)
{
    static double const tab[5][5] = {{1, 0.3, 0.1, 0, 1}, {1, 2, -0.5, 0.3, 1.15}, {0.8, 3, 1, -0.6, 0.25}, {1.1, -2.9, 0.7, 1.2, 0.075}, {0.9, 3.3, -1.5, 0.4, 0.013}};
    sim::Cell c;
    double const* a = tab[s % 5];
    c.rho = a[0];
    for (int d = 0; d < 3; ++d) c.u[static_cast<std::size_t>(d)] = a[1 + d] * alpha::uscale();
    c.P = a[4] * alpha::pscale();
    for (int q = 0; q < nfx; ++q) c.fx.push_back(0.2 + 0.1 * s);
    return c;
}

void conform(std::string const& key, sim::Spec const& s)
{
    auto const r = ref::conform(s, 1e-9);
    if (!r.diff.empty()) vh::violate(key, r.diff);
    if (!r.model.error.empty()) vh::counter("stopped on an invalid state");
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough();
        std::array<int, 3> const n = nd == 1 ? std::array<int, 3> {4, 1, 1} : nd == 2 ? std::array<int, 3> {3, 2, 1} : std::array<int, 3> {2, 2, 2};
        int const base = nd == 1 ? 5 : nd == 2 ? (th ? 4 : 3) : (th ? 3 : 2);
        long const codes = alpha::ipow(base, n[0] * n[1] * n[2]);
        for (double eps : {0.05, 0.5, 5.})
            for (char const* sv : {"HLL", "HLLC"})
                for (long code = 0; code < codes; ++code)
                    x.run(vh::cat("repair eps ", eps, " ", sv, " init ", code), [=] {
                        sim::Spec s;
                        s.n = n;
                        s.nfx = 1;
                        alpha::domain(s);
                        int const off = base < 5 ? 1 : 0;
                        s.init = [=](int i, int j, int k) {
                            long c = code;
                            for (int m = (k * n[1] + j) * n[0] + i; m > 0; --m) c /= base;
                            return fast(static_cast<int>(c % base) + off, 1);
                        };
                        s.ini.set("Hydro", "riemann_solver", sv).set("Run", "cfl", 0.2).set("Boundary Condition", "BC", code % 2 ? "NullGradient" : "Reflexive");
                        s.ini.set("Output", "iter_frequency", 1).set("Output", "max_iter", 1);
                        auto const off_run = sim::run_alone(s);
                        s.ini.set("Pressure fix", "pressure_fix", "Off");
                        auto const off2 = sim::run_alone(s);
                        s.ini.set("Pressure fix", "pressure_fix", "On").set("Pressure fix", "eps_pf", eps);
                        auto const on = sim::run_alone(s);
                        if (!off_run.ok() || !on.ok()) return vh::violate("repair run fails", off_run.problem + on.problem);
                        std::string const same = sim::diff(off_run.snaps, off2.snaps, 0);
                        if (!same.empty()) vh::violate("repair is off by default", same);
                        sim::Snap const &a = off_run.last(), &b = on.last(), &o = off_run.snaps.front();
                        if (a.rho != b.rho || a.u != b.u || a.fx != b.fx || a.t != b.t) vh::violate("repair changes something else than the energy", "");
                        for (std::size_t c = 0; c < a.rho.size(); ++c) {
                            double ek = 0;
                            for (int d = 0; d < nd; ++d) ek += o.rho[c] * o.u[d][c] * o.u[d][c] / 2;
                            bool const low = o.E[c] - ek < eps * ek;
                            vh::counter(low ? "cells to repair" : "cells to leave");
                            if (!low && std::fabs((o.E[c] - ek) / ek - eps) > 1e-9 * eps && (a.E[c] != b.E[c] || a.P[c] != b.P[c])) vh::violate("repair touches a cell above the threshold", vh::cat("cell ", c, ": ", a.E[c], " became ", b.E[c]));
                        }
                        s.ini.set("Output", "max_iter", 2);
                        conform("repair", s);
                    });
        // heating
        for (double t0 : {0., 3e5, 9e6, 4e8})
            for (int nfx : {1, 2, 3})
                for (long code = 0; code < (th ? 256 : 81); ++code)
                    x.run(vh::cat("heating from ", t0, " nfx ", nfx, " init ", code), [=] {
                        sim::Spec s;
                        s.n = nd == 1 ? std::array<int, 3> {4, 1, 1} : nd == 2 ? std::array<int, 3> {2, 2, 1} : std::array<int, 3> {2, 2, 2};
                        s.nfx = nfx;
                        alpha::domain(s);
                        if (sim::gravity() == "Uniform") s.ini.set("Gravity", "gx0", 0.);
                        double const L = 1e9; // time step of minutes: the heating matters
                        for (int d = 0; d < nd; ++d)
                            for (char const* m : {"min", "max"}) {
                                auto const p = ref::params(s);
                                s.ini.set("Grid", "x" + std::to_string(d) + m, (m[1] == 'i' ? p.xmin[d] : p.xmax[d]) * (d == 0 || !sim::spherical() ? L : 1));
                            }
                        int const bb = th ? 4 : 3;
                        auto const nn = s.n;
                        s.init = [=](int i, int j, int k) {
                            long c = code;
                            for (int m = ((k * nn[1] + j) * nn[0] + i) % 4; m > 0; --m) c /= bb;
                            int const d = static_cast<int>(c % bb);
                            sim::Cell q;
                            q.rho = 1 + d;
                            q.u = {1e5 * (d - 1), -2e4, 3e4};
                            q.P = 1e10 * (1 + d);
                            for (int f = 0; f < nfx; ++f) q.fx.push_back(f == 0 ? 0.5 * (d % 3) : 0.3);
                            return q;
                        };
                        s.ini.set("Run", "t_ini", t0).set("Run", "t_end", t0 + 1e7).set("User step", "user_step", "Heat_nickel").set("Boundary Condition", "BC", "Reflexive");
                        s.ini.set("Output", "iter_frequency", 1).set("Output", "max_iter", 2);
                        conform("heating", s);
                        if (code == 40) { // switched off: as if absent
                            s.ini.set("User step", "user_step", "Off");
                            auto const off = sim::run_alone(s);
                            s.ini.unset("User step", "user_step");
                            auto const none = sim::run_alone(s);
                            std::string const d = off.ok() && none.ok() ? sim::diff(off.snaps, none.snaps, 0) : off.problem + none.problem;
                            if (!d.empty()) vh::violate("user step off", d);
                        }
                    });
        // user-defined step: every interior cell, once per iteration, with the time and step of the iteration
        for (int p = 1; p <= (nd == 1 ? 3 : 4); ++p)
            for (int shift = 0; shift < 2; ++shift)
                for (int v = 0; v < 4; ++v)
                    x.run(vh::cat("user step on ", p, " shift ", shift, " variant ", v), [=] {
                        sim::Spec s;
                        s.n = nd == 1 ? std::array<int, 3> {9, 1, 1} : nd == 2 ? std::array<int, 3> {6, 5, 1} : std::array<int, 3> {6, 4, 2};
                        if (sim::gravity() == "Internal_mass" && p > 1) return;
                        alpha::domain(s);
                        s.init = [](int i, int j, int k) { return alpha::state(i + 2 * j + k); };
                        s.ini.set("Boundary Condition", "BC", "NullGradient").set("Output", "iter_frequency", 1).set("Output", "max_iter", 5);
                        if (v & 1) s.ini.set("Output", "time_frequency", 0.013);
                        if (v & 2) s.ini.set("Pressure fix", "pressure_fix", "On").set("Pressure fix", "eps_pf", 1.);
                        if (shift) s.shift = [](long c) { return c == 1; };
                        s.user_step = true;
                        // distinct amount for each cell and time
                        s.user_heat = [](int i, int j, int k, double rho, double t, double dt) { return alpha::pscale() * rho * dt * (0.1 * (i + 1) + 0.03 * j + 0.02 * k + t); };
                        std::vector<std::pair<double, double>> calls;
                        s.on_user_step = [&](double t, double dt) { calls.emplace_back(t, dt); };
                        s.mpi.nranks = p;
                        auto const r = ref::conform(s, 1e-9);
                        if (!r.diff.empty()) return vh::violate("user step", r.diff);
                        if (calls.size() != static_cast<std::size_t>(p * r.model.iter)) return vh::violate("number of calls of the user step", vh::cat(calls.size()));
                        auto const& sn = r.res.snaps;
                        std::map<double, int> seen;
                        for (auto const& c : calls) ++seen[c.first];
                        for (std::size_t q = 0; q + 1 < sn.size(); ++q) {
                            bool ok = seen[sn[q].t] == p;
                            for (auto const& c : calls)
                                if (c.first == sn[q].t) ok = ok && vh::close(c.first + c.second, sn[q + 1].t, 1e-14);
                            if (!ok) vh::violate("time of the user step", vh::cat("iteration ", q));
                        }
                    });
    });
}
