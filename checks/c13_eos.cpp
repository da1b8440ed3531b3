// C13: equations of state and the conversions of variables.
#include "component.hpp"

#ifndef VH_RUNS_ONLY
#include <array_conversion.hpp>
#endif
#include <perfect_gas.hpp>
#include <rad_gas.hpp>

#include <cfloat>

namespace {
using namespace hclpp;
using thermodynamics::PerfectGas;
using thermodynamics::RadGas;

struct Grid2
{
    std::vector<double> rho, T;
};

// relations of one equation of state over densities x temperatures
template <class E>
void relations(E const& e, bool rad, double rho, std::vector<double> const& temps)
{
    ref::Eos m;
    m.rad = rad;
    m.gamma = e.adiabatic_index();
    m.mu = e.mean_molecular_weight();
    double pT = -1, pP = -1, pe = -1, pc = -1;
    int bad = 0;
    for (double T : temps) {
        double const rt = rad ? std::fmax(1e-11, 3e-12 / (T * T)) : 1e-13; // the program solves for the temperature to 1e-6 K
        double const P = e.compute_pres_from_temp(rho, T), ev = e.compute_evol_from_temp(rho, T);
        auto check = [&](char const* what, double a, double b, double tol) {
            if (vh::close(a, b, tol) || bad > 3) return;
            ++bad;
            vh::violate(vh::cat(rad ? "gas with radiation: " : "perfect gas: ", what), vh::cat("density ", rho, " temperature ", T, " gamma ", m.gamma, " mu ", m.mu, ": ", a, " against ", b));
        };
        check("pressure of a temperature", P, m.pres_from_temp(rho, T), 1e-13);
        check("energy of a temperature", ev, m.evol_from_temp(rho, T), 1e-13);
        check("temperature of a pressure", e.compute_temp_from_pres(rho, P), T, rt);
        check("temperature of an energy", e.compute_temp_from_evol(rho, ev), T, rt);
        check("energy of a pressure", e.compute_evol_from_pres(rho, P), ev, 4 * rt);
        check("pressure of an energy", e.compute_pres_from_evol(rho, ev), P, 4 * rt);
        check("pressure of the energy of a pressure", e.compute_pres_from_evol(rho, e.compute_evol_from_pres(rho, P)), P, 8 * rt);
        double const c = e.compute_speed_of_sound(rho, P);
        check("speed of sound", c, m.sound(rho, P), 4 * rt);
        // the definition: c^2 is the derivative of the pressure with density at constant entropy,
        // de = (e + P) / rho drho along it
        {
            double const h = 1e-4;
            auto pres = [&](double s) { // fourth-order step along the isentrope in log density
                double r = rho, en = ev;
                double const dr = s * rho / 8;
                for (int q = 0; q < 8; ++q) {
                    auto f = [&](double rr, double ee) { return (ee + m.pres(rr, ee)) / rr; };
                    double const k1 = f(r, en), k2 = f(r + dr / 2, en + dr / 2 * k1), k3 = f(r + dr / 2, en + dr / 2 * k2), k4 = f(r + dr, en + dr * k3);
                    en += dr / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
                    r += dr;
                }
                return m.pres(rho * (1 + s), en);
            };
            double const c2 = (8 * (pres(h) - pres(-h)) - (pres(2 * h) - pres(-2 * h))) / (12 * h * rho);
            check("the speed of sound is not that of its definition", c * c, c2, 1e-8 + 10 * rt);
        }
        if (T > pT && pT > 0) {
            if (!(P > pP) || !(ev > pe) || !(c > pc)) check("not increasing with the temperature", P, pP, 0);
            if (!(e.compute_temp_from_pres(rho, P) > e.compute_temp_from_pres(rho, pP))) check("temperature not increasing with the pressure", T, pT, 0);
        }
        if (!e.is_valid(rho, P)) check("a valid state is not accepted", rho, P, 0);
        pT = T, pP = P, pe = ev, pc = c;
        vh::transitions(1);
        vh::trace_validated();
        vh::Hash h;
        h << P << c;
        vh::state(h);
    }
}

template <class E>
void validity(char const* name)
{
    double const inf = INFINITY, nan = NAN;
    std::vector<double> const v = {0., -0., 1., -1., DBL_MIN, -DBL_MIN, DBL_TRUE_MIN, -DBL_TRUE_MIN, DBL_MAX, -DBL_MAX, inf, -inf, nan, -nan, 1e-300, 1e300, 3.7, std::nextafter(DBL_MIN, 0)};
    for (double a : v)
        for (double b : v) {
            auto ok = [](double z) { return std::isfinite(z) && z > 0; };
            if (E::is_valid(a, b) != (ok(a) && ok(b))) vh::violate(vh::cat(name, ": validity of a state"), vh::cat("density ", a, " pressure ", b, ": ", E::is_valid(a, b)));
            vh::transitions(1);
        }
    // parameters
    std::vector<double> g = v, mu = v;
    for (double z : {1 + DBL_EPSILON, 1 - DBL_EPSILON / 2, 1.0001, 1.4, 5. / 3, 2., 0.5, 0.999999}) g.push_back(z), mu.push_back(z);
    for (double a : g)
        for (double b : mu) {
            bool const want = std::isfinite(a) && a > 1 && std::isfinite(b) && b > 0;
            bool got = true;
            try {
                E const e(a, b);
                if (want && (e.adiabatic_index() != a || e.mean_molecular_weight() != b)) vh::violate(vh::cat(name, ": parameters"), vh::cat(a, " ", b, " became ", e.adiabatic_index(), " ", e.mean_molecular_weight()));
            } catch (std::exception const&) {
                got = false;
            }
            if (got != want) vh::violate(vh::cat(name, ": parameters ", got ? "accepted" : "refused"), vh::cat("gamma ", a, " molecular weight ", b));
            vh::transitions(1);
        }
    vh::trace_validated();
}

#ifndef VH_RUNS_ONLY
// conversions on arrays: all states of a lattice, with layers around the range left untouched
template <class E>
void conversions(E const& e, bool rad, int layers, int part)
{
    ref::Eos m;
    m.rad = rad;
    m.gamma = e.adiabatic_index();
    m.mu = e.mean_molecular_weight();
    double const us = rad ? 2e5 : 1, ps = rad ? 4e10 : 1;
    std::vector<double> const rhos = {1e-6, 0.3, 1, 25, 1e5}, us_ = {-40, -1, -0.3, 0, 0.002, 2}, Ps = {1e-5, 0.1, 1, 17, 1e6};
    std::vector<ref::Prim> st;
    for (double rho : rhos)
        for (double P : Ps)
            for (long q = 0; q < alpha::ipow(static_cast<long>(us_.size()), ndim); ++q) {
                ref::Prim p;
                p.rho = rho;
                p.P = P * ps;
                long z = q;
                for (int d = 0; d < ndim; ++d, z /= static_cast<long>(us_.size())) p.u[static_cast<std::size_t>(d)] = us_[static_cast<std::size_t>(z % static_cast<long>(us_.size()))] * us;
                st.push_back(p);
            }
    int const ng = 2;
    std::array<int, 3> n {4, ndim > 1 ? 3 : 1, ndim > 2 ? 2 : 1}, ext {};
    for (int d = 0; d < 3; ++d) ext[static_cast<std::size_t>(d)] = n[static_cast<std::size_t>(d)] + (d < ndim ? 2 * ng : 0);
    Range const range({0, n[0]}, {0, n[1]}, {0, n[2]}, ng);
    std::size_t const cells = static_cast<std::size_t>(ext[0]) * ext[1] * ext[2];
    std::size_t const total = std::max(cells, (st.size() / 8 / cells + 1) * cells);
    for (std::size_t first = 0; first < total; first += cells) {
        KV_double_3d const rho("rho", ext[0], ext[1], ext[2]), P("P", ext[0], ext[1], ext[2]), E2("E", ext[0], ext[1], ext[2]), P2("P2", ext[0], ext[1], ext[2]);
        KV_double_4d const u("u", ext[0], ext[1], ext[2], ndim), mo("m", ext[0], ext[1], ext[2], ndim), u2("u2", ext[0], ext[1], ext[2], ndim);
        auto each = [&](auto const& f) {
            std::size_t q = first;
            for (int k = 0; k < ext[2]; ++k)
                for (int j = 0; j < ext[1]; ++j)
                    for (int i = 0; i < ext[0]; ++i) {
                        std::array<int, 3> const a {i, j, k};
                        bool in = true;
                        for (int d = 0; d < ndim; ++d) in = in && a[static_cast<std::size_t>(d)] >= ng - layers && a[static_cast<std::size_t>(d)] < ext[static_cast<std::size_t>(d)] - ng + layers;
                        f(i, j, k, st[(q++ * 8 + static_cast<std::size_t>(part)) % st.size()], in);
                    }
        };
        each([&](int i, int j, int k, ref::Prim const& p, bool) {
            rho.kshim_at(i, j, k) = p.rho;
            P.kshim_at(i, j, k) = p.P;
            E2.kshim_at(i, j, k) = P2.kshim_at(i, j, k) = -7;
            for (int d = 0; d < ndim; ++d) {
                u.kshim_at(i, j, k, d) = p.u[static_cast<std::size_t>(d)];
                mo.kshim_at(i, j, k, d) = u2.kshim_at(i, j, k, d) = -7;
            }
        });
        conv_prim_to_cons(range.with_ghosts(layers), e, rho, u, P, mo, E2);
        conv_cons_to_prim(range.with_ghosts(layers), e, rho, mo, E2, u2, P2);
        kshim::fence();
        int bad = 0;
        each([&](int i, int j, int k, ref::Prim const& p, bool in) {
            auto check = [&](char const* what, double a, double b, double tol) {
                if (std::fabs(a - b) <= tol || bad > 3) return;
                ++bad;
                vh::violate(vh::cat("conversions", rad ? " with radiation: " : ": ", what), vh::cat("density ", p.rho, " velocity ", p.u[0], ",", p.u[1], ",", p.u[2], " pressure ", p.P, ": ", a, " against ", b));
            };
            if (!in) {
                check("cells outside of the range changed", E2.kshim_at(i, j, k), -7, 0);
                check("cells outside of the range changed", P2.kshim_at(i, j, k), -7, 0);
                for (int d = 0; d < ndim; ++d) {
                    check("cells outside of the range changed", mo.kshim_at(i, j, k, d), -7, 0);
                    check("cells outside of the range changed", u2.kshim_at(i, j, k, d), -7, 0);
                }
                return;
            }
            ref::Cons const c = ref::cons(p, m);
            double const rt = rad ? 1e-10 : 1e-13;
            check("density changed", rho.kshim_at(i, j, k), p.rho, 0);
            check("energy", E2.kshim_at(i, j, k), c.E, rt * c.E);
            for (int d = 0; d < ndim; ++d) {
                check("momentum", mo.kshim_at(i, j, k, d), c.m[static_cast<std::size_t>(d)], 1e-14 * std::fabs(c.m[static_cast<std::size_t>(d)]));
                check("velocity after there and back", u2.kshim_at(i, j, k, d), p.u[static_cast<std::size_t>(d)], 1e-14 * std::fabs(p.u[static_cast<std::size_t>(d)]));
            }
            check("pressure after there and back", P2.kshim_at(i, j, k), p.P, rt * p.P + 1e-14 * c.E);
            // functions of one state
            EulerPrim a;
            a.rho = p.rho;
            a.P = p.P;
            for (int d = 0; d < ndim; ++d) a.u[d] = p.u[static_cast<std::size_t>(d)];
            EulerCons const b = to_cons(a, e);
            double const ek = c.E - m.evol(p.rho, p.P);
            check("kinetic energy", compute_ek(a), ek, 1e-12 * c.E);
            check("kinetic energy", compute_ek(b), ek, 1e-12 * c.E);
            check("internal energy", compute_evol(b), m.evol(p.rho, p.P), 1e-12 * c.E);
            vh::transitions(1);
        });
        vh::trace_validated();
    }
}
#endif

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        bool const th = vh::thorough();
        if (sim::ndim() == 1) {
            std::vector<double> T;
            for (double t = 0.05; t < 1.1e10; t *= th ? 1.02 : 1.19) T.push_back(t);
            std::vector<double> wide;
            for (double t = 1e-60; t < 1e60; t *= th ? 1.7 : 20) wide.push_back(t);
            for (double g : {1.0001, 1.1, 4. / 3, 1.4, 5. / 3, 3.})
                for (double mu : {0.01, 0.6, 1., 56.})
                    for (int q = -28; q <= 14; q += th ? 1 : 3)
                        x.run(vh::cat("gamma ", g, " mu ", mu, " density e", q), [=] {
                            double const rho = 3.7 * std::pow(10., q);
                            relations(PerfectGas(g, mu), false, rho, T);
                            relations(PerfectGas(g, mu), false, rho * std::pow(10., 3 * q), wide);
                            relations(RadGas(g, mu), true, rho, T);
                        });
            x.run("validity perfect gas", [] { validity<PerfectGas>("perfect gas"); });
            x.run("validity radiation", [] { validity<RadGas>("gas with radiation"); });
        }
#ifndef VH_RUNS_ONLY
        for (int l = 0; l <= 2; ++l)
            for (int p = 0; p < 8; ++p) {
                x.run(vh::cat("arrays ", l, " ", p), [=] {
                    conversions(PerfectGas(5. / 3, 1), false, l, p);
                    conversions(PerfectGas(1.2, 0.6), false, l, p);
                });
                x.run(vh::cat("arrays radiation ", l, " ", p), [=] {
                    conversions(RadGas(5. / 3, 1), true, l, p);
                    conversions(RadGas(1.2, 0.6), true, l, p);
                });
            }
#endif
        // the stored fields of real runs agree: C24; here the conversion of the initial state in the program
        for (int v = 0; v < 12; ++v)
            x.run(vh::cat("initial state ", v), [=] {
                sim::Spec s;
                s.n = {4, sim::ndim() > 1 ? 3 : 1, sim::ndim() > 2 ? 2 : 1};
                alpha::domain(s);
                double const g = v % 3 == 0 ? 1.4 : v % 3 == 1 ? 5. / 3 : 1.05, mu = v % 2 ? 0.6 : 2;
                s.ini.set("Perfect Gas", "gamma", g).set("Perfect Gas", "mu", mu).set("Boundary Condition", "BC", "NullGradient");
                s.ini.set("Output", "iter_frequency", 1).set("Output", "max_iter", 1);
                auto cell = [=](int i, int j, int k) {
                    sim::Cell c = alpha::state((i + 2 * j + 3 * k + v) % 5);
                    c.rho *= std::pow(10., (i + v) % 4 - 2);
                    c.P *= std::pow(10., (j + v) % 3 - 1);
                    return c;
                };
                s.init = cell;
                auto const r = sim::run_alone(s);
                if (!r.ok() || r.snaps.empty()) return vh::violate("the run fails", r.problem);
                ref::Eos m;
                m.rad = sim::radgas();
                m.gamma = g;
                m.mu = mu;
                auto const& f = r.snaps[0];
                for (int k = 0; k < s.n[2]; ++k)
                    for (int j = 0; j < s.n[1]; ++j)
                        for (int i = 0; i < s.n[0]; ++i) {
                            sim::Cell const c = cell(i, j, k);
                            ref::Prim p {c.rho, {0, 0, 0}, c.P};
                            for (int d = 0; d < sim::ndim(); ++d) p.u[static_cast<std::size_t>(d)] = c.u[static_cast<std::size_t>(d)];
                            std::size_t const q = (static_cast<std::size_t>(k) * s.n[1] + j) * s.n[0] + i;
                            if (!vh::close(f.E[q], ref::cons(p, m).E, 1e-11)) return vh::violate("energy of the initial state", vh::cat(f.E[q], " against ", ref::cons(p, m).E));
                            if (!vh::close(f.P[q], c.P, 1e-10)) return vh::violate("pressure of the initial state", vh::cat(f.P[q], " against ", c.P));
                            if (!vh::close(f.T[q], m.temp_from_pres(c.rho, c.P), 1e-9)) return vh::violate("temperature of the initial state", vh::cat(f.T[q], " against ", m.temp_from_pres(c.rho, c.P)));
                        }
                vh::trace_validated();
            });
    });
}
