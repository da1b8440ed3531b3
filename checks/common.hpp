// Alphabets shared by the checks.
#pragma once
#include <cmath>
#include <numbers>

#include "ref.hpp"
#include "sim.hpp"

namespace alpha {

inline char const* const limiters[] = {"Constant", "VanLeer", "Minmod", "VanAlbada"};
inline char const* const solvers[] = {"HLL", "HLLC", "Low Mach"};

// scale of the pressure and of the velocity so that radiation matters with the radiative gas
inline double pscale() { return sim::radgas() ? 4e10 : 1; }
inline double uscale() { return sim::radgas() ? 2e5 : 1; }

// states of the alphabet: rest, thin rest, right-moving supersonic, left-moving, ...
inline sim::Cell state(int s, int nfx = 0)
{
    static double const tab[6][5] = {{1, 0, 0, 0, 1}, {0.25, 0, 0.1, -0.2, 0.2}, {1, 1.6, -0.4, 0.3, 0.7}, {0.6, -0.7, 0.8, 0.1, 1.3}, {2, 0.3, 0.2, -0.6, 1.1}, {0.9, -2.2, 0.1, 0.2, 1}};
    double const* a = tab[s % 6];
    sim::Cell c;
    c.rho = a[0];
    for (int d = 0; d < 3; ++d) c.u[static_cast<std::size_t>(d)] = a[1 + d] * uscale();
    c.P = a[4] * pscale();
    for (int q = 0; q < nfx; ++q) c.fx.push_back(std::fmod(0.15 + 0.31 * s + 0.43 * q, 1.0));
    return c;
}

// a domain where every geometry is regular
inline void domain(sim::Spec& s)
{
    if (sim::spherical()) {
        double const pi = std::numbers::pi;
        s.ini.set("Grid", "x0min", 1.).set("Grid", "x0max", 2.5).set("Grid", "x1min", 0.2 * pi).set("Grid", "x1max", 0.6 * pi).set("Grid", "x2min", 0.1).set("Grid", "x2max", 1.4);
        // one cell when the direction does not exist
    } else {
        s.ini.set("Grid", "x0min", -0.3).set("Grid", "x0max", 0.9).set("Grid", "x1min", 0.).set("Grid", "x1max", sim::ndim() >= 2 ? 1.1 : 1.).set("Grid", "x2min", 0.1).set("Grid", "x2max", sim::ndim() >= 3 ? 0.8 : 1.1);
    }
    if (sim::gravity() == "Uniform") s.ini.set("Gravity", "gx0", 0.3 * uscale() * uscale()).set("Gravity", "gx1", -0.2 * uscale() * uscale()).set("Gravity", "gx2", 0.15 * uscale() * uscale());
    else s.ini.set("Gravity", "M", 0.8 * uscale() * uscale() / ref::G);
    s.ini.set("Run", "t_end", 100.);
}

// cell values from the digits of a number, in base `base`
inline sim::Init digits(long code, int base, std::array<int, 3> n, int nfx, int shift = 0)
{
    return [=](int i, int j, int k) {
        long c = code;
        for (int m = (k * n[1] + j) * n[0] + i; m > 0; --m) c /= base;
        return state(static_cast<int>(c % base) + shift, nfx);
    };
}

// sizes beyond the small scopes of the enumerations
inline std::array<int, 3> large()
{
    int const nd = sim::ndim();
    return nd == 1 ? std::array<int, 3> {97, 1, 1} : nd == 2 ? std::array<int, 3> {34, 29, 1} : std::array<int, 3> {13, 12, 14};
}

// a state that varies smoothly, differently in every cell
inline sim::Init smooth(std::array<int, 3> n, int nfx, int variant = 0)
{
    return [=](int i, int j, int k) {
        double const a = 2 * std::numbers::pi * (i + 0.5) / n[0], b = 2 * std::numbers::pi * (j + 0.5) / n[1], g = 2 * std::numbers::pi * (k + 0.5) / n[2];
        double const v = 0.7 * variant;
        sim::Cell c;
        c.rho = 1 + 0.3 * std::sin(a + v) + 0.2 * std::sin(b + 2 * v) * std::cos(a) + 0.1 * std::cos(g + b);
        c.u = {0.5 * uscale() * std::cos(a + b + v), 0.4 * uscale() * std::sin(a + g + v), 0.3 * uscale() * std::cos(b - g + v)};
        c.P = pscale() * (1.2 + 0.3 * std::cos(a + v) + 0.2 * std::sin(b + g));
        for (int q = 0; q < nfx; ++q) c.fx.push_back(0.5 + 0.4 * std::sin(a * (1 + q % 3) + b + g + q));
        return c;
    };
}

// every process ended with an error, nothing was left hanging
inline bool refused(prog::Out const& o)
{
    if (o.mpi.deadlock || !o.mpi.error.empty()) return false;
    for (int rc : o.rc)
        if (rc <= 0) return false;
    return true;
}

inline long ipow(long b, int e)
{
    long r = 1;
    while (e-- > 0) r *= b;
    return r;
}

} // namespace alpha
