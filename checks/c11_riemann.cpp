// C11: fluxes of the Riemann solvers on all pairs of states of a lattice.
#ifdef VH_RUNS_ONLY
#include "runs_only.hpp"

int main(int argc, char** argv) { return runs_only::sweep(argc, argv, true); }
#else
#include "common.hpp"

#include <perfect_gas.hpp>
#include <rad_gas.hpp>
#include <riemann_solver.hpp>

namespace {
using namespace hclpp;
using thermodynamics::PerfectGas;
using thermodynamics::RadGas;

template <class E>
ref::Eos model(E const& e, bool rad)
{
    ref::Eos r;
    r.rad = rad;
    r.gamma = e.adiabatic_index();
    r.mu = e.mean_molecular_weight();
    return r;
}

struct Lattice
{
    std::vector<double> rho, un, ut, P; // velocities in units of uscale, pressures of pscale
};

using Prim = EulerPrim;

template <class E>
EulerCons cons(Prim const& p, E const& e)
{
    return to_cons(p, e);
}
ref::Prim rp(Prim const& p)
{
    ref::Prim r;
    r.rho = p.rho;
    for (int d = 0; d < ndim; ++d) r.u[static_cast<std::size_t>(d)] = p.u[d];
    r.P = p.P;
    return r;
}

std::string str(Prim const& p)
{
    std::string u;
    for (int d = 0; d < ndim; ++d) u += vh::cat(d ? "," : "", p.u[d]);
    return vh::cat("(", p.rho, " [", u, "] ", p.P, ")");
}

// size of each component of the flux of a pair: to measure rounding with
struct Size
{
    double rho, m, E;
};

template <class S, class E>
struct Judge
{
    S solver;
    char const* name;
    E eos;
    ref::Eos mod;
    double eps;

    EulerFlux f(Prim const& l, Prim const& r, int d) const { return solver(cons(l, eos), cons(r, eos), d, eos); }

    Size size(Prim const& l, Prim const& r) const
    {
        Size s {0, 0, 0};
        double u = 0, cond = 1;
        for (Prim const* p : {&l, &r}) {
            double v = eos.compute_speed_of_sound(p->rho, p->P);
            for (int d = 0; d < ndim; ++d) v += std::fabs(p->u[d]);
            u = std::fmax(u, v);
        }
        for (Prim const* p : {&l, &r}) {
            EulerCons const c = cons(*p, eos);
            s.rho = std::fmax(s.rho, c.rho * u);
            s.m = std::fmax(s.m, c.rho * u * u + p->P);
            s.E = std::fmax(s.E, (c.E + p->P) * u);
            // the pressure is a difference of energies
            cond = std::fmax(cond, c.E / compute_evol(c));
        }
        s.rho *= cond;
        s.m *= cond;
        s.E *= cond;
        return s;
    }

    // "" or the component that differs
    template <class A, class B>
    std::string differs(A const& a, B const& b, Size const& s) const
    {
        auto no = [&](double x, double y, double z) { return !(std::fabs(x - y) <= eps * z); };
        if (no(a.rho, b.rho, s.rho)) return vh::cat("mass flux ", a.rho, " against ", b.rho);
        for (int d = 0; d < ndim; ++d)
            if (no(a.rhou[d], b.rhou[d], s.m)) return vh::cat("momentum flux ", d, " ", a.rhou[d], " against ", b.rhou[d]);
        if (no(a.E, b.E, s.E)) return vh::cat("energy flux ", a.E, " against ", b.E);
        return "";
    }
    static EulerFlux of(ref::Cons const& c)
    {
        EulerFlux f;
        f.rho = c.rho;
        for (int d = 0; d < ndim; ++d) f.rhou[d] = c.m[static_cast<std::size_t>(d)];
        f.E = c.E;
        return f;
    }

    bool pair(Prim const& l, Prim const& r, int d, bool pg) const
    {
        bool const hll = std::string(name) != "Low Mach", hllc = std::string(name) == "HLLC";
        Size const s = size(l, r);
        EulerFlux const F = f(l, r, d);
        bool good = true;
        auto check = [&](char const* what, EulerFlux const& a, EulerFlux const& b, Size const& z) {
            std::string const e = differs(a, b, z);
            if (e.empty() || !good) return;
            good = false;
            vh::violate(vh::cat(name, " ", what), vh::cat("direction ", d, " left ", str(l), " right ", str(r), ": ", e));
        };
        double const cl = eos.compute_speed_of_sound(l.rho, l.P), cr = eos.compute_speed_of_sound(r.rho, r.P);
        // ---- upwind
        if (hll && l.u[d] - cl > 0 && r.u[d] - cr > 0) check("does not take the upwind flux", F, of(ref::flux(rp(l), d, mod)), s);
        if (hll && l.u[d] + cl < 0 && r.u[d] + cr < 0) check("does not take the upwind flux", F, of(ref::flux(rp(r), d, mod)), s);
        // ---- mirror
        {
            Prim a = r, b = l;
            a.u[d] = -a.u[d];
            b.u[d] = -b.u[d];
            EulerFlux m = f(a, b, d);
            m.rho = -m.rho;
            m.E = -m.E;
            for (int q = 0; q < ndim; ++q)
                if (q != d) m.rhou[q] = -m.rhou[q];
            check("is not mirror symmetric", m, F, s);
        }
        // ---- exchange of directions, tangential ones included
        for (int q = 0; q < ndim; ++q)
            for (int t = q + 1; t < ndim; ++t) {
                Prim a = l, b = r;
                std::swap(a.u[q], a.u[t]);
                std::swap(b.u[q], b.u[t]);
                EulerFlux m = f(a, b, d == q ? t : d == t ? q : d);
                std::swap(m.rhou[q], m.rhou[t]);
                check("depends on the names of the directions", m, F, s);
            }
        // ---- frame moving sideways
        for (int q = 0; q < ndim; ++q) {
            if (q == d) continue;
            double const w = 0.75 * alpha::uscale();
            Prim a = l, b = r;
            a.u[q] += w;
            b.u[q] += w;
            Size z = size(a, b);
            EulerFlux m = f(a, b, d);
            // back to the first frame
            m.E += -w * m.rhou[q] + w * w / 2 * m.rho;
            m.rhou[q] -= w * m.rho;
            z.E += s.E + w * z.m + w * w * z.rho;
            z.m += s.m;
            check("depends on a common tangential velocity", m, F, z);
        }
        // ---- units
        if (pg) {
            for (double k : {0.125, 1000.}) {
                Prim a = l, b = r;
                a.rho *= k, a.P *= k, b.rho *= k, b.P *= k;
                EulerFlux m = f(a, b, d);
                m.rho /= k;
                m.E /= k;
                for (int q = 0; q < ndim; ++q) m.rhou[q] /= k;
                check("does not scale with density", m, F, s);
                a = l, b = r;
                a.P *= k * k, b.P *= k * k;
                for (int q = 0; q < ndim; ++q) a.u[q] *= k, b.u[q] *= k;
                m = f(a, b, d);
                m.rho /= k;
                m.E /= k * k * k;
                for (int q = 0; q < ndim; ++q) m.rhou[q] /= k * k;
                check("does not scale with velocity", m, F, s);
            }
        }
        // ---- contact, at rest (bit for bit up to the conversion) and moving
        if (l.u[d] == r.u[d] && l.P == r.P) {
            bool const rest = l.u[d] == 0;
            if ((hllc || !hll) && rest) {
                EulerFlux m {};
                m.rhou[d] = l.P;
                check("smears a contact at rest", F, m, s);
            }
            if (hllc || !hll) check("does not advect a contact", F, of(ref::flux(rp(l.u[d] > 0 ? l : r), d, mod)), s);
        }
        // ---- the solver of that name
        check("is not the solver of that name", F, of(ref::riemann(name, ref::cons(rp(l), mod), ref::cons(rp(r), mod), d, mod)), s);
        return good;
    }

    void run(Lattice const& g, long part, long parts, bool pg) const
    {
        std::vector<Prim> st;
        double const us = pg ? 1 : 2e5, ps = pg ? 1 : 4e10;
        auto build = [&](int d) {
            st.clear();
            for (double rho : g.rho)
                for (double un : g.un)
                    for (double P : g.P) {
                        long const nt = alpha::ipow(static_cast<long>(g.ut.size()), ndim - 1);
                        for (long t = 0; t < nt; ++t) {
                            Prim p;
                            p.rho = rho;
                            p.P = P * ps;
                            long m = t;
                            for (int q = 0; q < ndim; ++q) {
                                if (q == d) p.u[q] = un * us;
                                else {
                                    p.u[q] = g.ut[static_cast<std::size_t>(m % static_cast<long>(g.ut.size()))] * us;
                                    m /= static_cast<long>(g.ut.size());
                                }
                            }
                            st.push_back(p);
                        }
                    }
        };
        for (int d = 0; d < ndim; ++d) {
            build(d);
            long const n = static_cast<long>(st.size());
            int bad = 0;
            for (long a = part; a < n && bad < 5; a += parts) {
                Prim const& l = st[static_cast<std::size_t>(a)];
                // ---- consistency
                {
                    Size const s = size(l, l);
                    std::string const e = differs(f(l, l, d), of(ref::flux(rp(l), d, mod)), s);
                    if (!e.empty()) vh::violate(vh::cat(name, " is not consistent"), vh::cat("direction ", d, " state ", str(l), ": ", e)), ++bad;
                    // the flux function itself, in both forms
                    std::string const e1 = differs(compute_flux(l, d, eos), of(ref::flux(rp(l), d, mod)), s);
                    std::string const e2 = differs(compute_flux(cons(l, eos), d, eos), of(ref::flux(rp(l), d, mod)), s);
                    if (!e1.empty() || !e2.empty()) vh::violate("flux function", vh::cat("direction ", d, " state ", str(l), ": ", e1, " ", e2)), ++bad;
                }
                for (long b = 0; b < n && bad < 5; ++b) bad += !pair(l, st[static_cast<std::size_t>(b)], d, pg);
                vh::transitions(static_cast<std::uint64_t>(n));
                vh::trace_validated(static_cast<std::uint64_t>(n));
                vh::Hash h;
                h << name << d << f(l, st[0], d).E;
                vh::state(h);
            }
        }
    }
};

template <class E>
void explore(vh::Explorer& x, char const* en, E const& eos, bool pg, Lattice const& g, long parts, double eps)
{
    for (long p = 0; p < parts; ++p) {
        ref::Eos const m = model(eos, !pg);
        x.run(vh::cat("HLL ", en, " ", p), [=] { Judge<HLL, E> {HLL(), "HLL", eos, m, eps}.run(g, p, parts, pg); });
        x.run(vh::cat("HLLC ", en, " ", p), [=] { Judge<HLLC, E> {HLLC(), "HLLC", eos, m, eps}.run(g, p, parts, pg); });
        x.run(vh::cat("Low Mach ", en, " ", p), [=] { Judge<Splitting, E> {Splitting(), "Low Mach", eos, m, eps}.run(g, p, parts, pg); });
    }
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        bool const th = vh::thorough();
        Lattice g;
        if (ndim == 1) g = {{0.1, 0.5, 1, 3, 40}, {-30, -3, -1.2, -1, -0.4, -0.01, 0, 0.01, 0.25, 0.7, 1, 2, 8}, {0}, {0.001, 0.1, 0.6, 1, 7, 100}};
        else if (ndim == 2) g = {{0.1, 1, 7}, {-3, -1, -0.2, 0, 0.3, 1, 4}, {-1, 0, 0.7}, {0.01, 1, 30}};
        else g = {{0.2, 3}, {-4, -0.7, 0, 0.25, 3}, {-1, 0, 0.6}, {0.1, 2}};
        if (th) {
            if (ndim == 1) {
                for (double m : {1e-3, 0.9, 2., 1e4}) g.rho.push_back(m);
                for (double m : {-100., -1.0001, -0.5, -1e-6, 1e-6, 0.1, 0.5, 1.29099444873580562839, 30.}) g.un.push_back(m);
                for (double m : {1e-6, 0.9, 1e4}) g.P.push_back(m);
            } else {
                g.rho.push_back(0.6);
                for (double m : {-1.5, -0.05, 0.8, 20.}) g.un.push_back(m);
                g.P.push_back(0.4);
            }
        }
        explore(x, "perfect gas 5/3", PerfectGas(5. / 3, 1), true, g, 32, 2e-12);
        explore(x, "perfect gas 1.1", PerfectGas(1.1, 0.6), true, g, 32, 2e-12);
        explore(x, "radiation 1.4", RadGas(1.4, 1), false, g, 64, 1e-9);
        explore(x, "radiation 5/3", RadGas(5. / 3, 0.6), false, g, 64, 1e-9);
    });
}
#endif
