// Closed and periodic domains: widths of the ghost cells that continue those of the domain.
#pragma once
#include "common.hpp"

namespace closed {

// widths of the interior cells repeated through a periodic face, mirrored through a wall
inline std::vector<double> faces(double x0, std::vector<double> const& w, int ng, bool periodic)
{
    int const n = static_cast<int>(w.size());
    std::vector<double> f;
    auto width = [&](int i) {
        if (periodic) return w[static_cast<std::size_t>(((i % n) + n) % n)];
        while (i < 0 || i >= n) i = i < 0 ? -1 - i : 2 * n - 1 - i;
        return w[static_cast<std::size_t>(i)];
    };
    double x = x0;
    for (int i = -1; i >= -ng; --i) x -= width(i);
    for (int i = -ng; i < n + ng; ++i) {
        if (i == 0) x = x0;
        f.push_back(x);
        x += width(i);
    }
    f.push_back(x);
    return f;
}

// cells of the domain with widths proportional to the pattern
inline std::vector<double> widths(double length, int n, int pattern)
{
    static double const tab[4][5] = {{1, 1, 1, 1, 1}, {1, 1.4, 0.8, 1.2, 0.7}, {0.6, 1, 1.5, 1, 0.9}, {1.3, 0.8, 0.8, 1.1, 1.6}};
    std::vector<double> w;
    double s = 0;
    for (int i = 0; i < n; ++i) w.push_back(tab[pattern][i % 5]), s += w.back();
    for (double& v : w) v *= length / s;
    return w;
}

// the domain [a, b] in every direction; user-defined grid
inline void grid(sim::Spec& s, ref::V3 a, ref::V3 b, std::array<int, 3> pattern, std::array<bool, 3> periodic)
{
    for (std::size_t d = 0; d < 3; ++d) {
        bool const on = static_cast<int>(d) < sim::ndim();
        s.faces[d] = faces(a[d], widths(b[d] - a[d], s.n[d], on ? pattern[d] : 0), on ? s.ng : 0, periodic[d]);
        s.ini.set("Grid", "x" + std::to_string(d) + "min", a[d]).set("Grid", "x" + std::to_string(d) + "max", b[d]);
    }
}

struct Totals
{
    double mass = 0, energy = 0;
    ref::V3 mom {0, 0, 0};
    std::vector<double> fx;
    double amom = 0, aenergy = 0, amass = 0; // of the absolute values: scale of the rounding
    bool clamped = false; // a scalar is exactly 0 or 1
};

inline Totals totals(sim::Snap const& z, int ng)
{
    Totals t;
    t.fx.assign(z.fx.size(), 0);
    for (int k = 0; k < z.n[2]; ++k)
        for (int j = 0; j < z.n[1]; ++j)
            for (int i = 0; i < z.n[0]; ++i) {
                std::array<int, 3> const a {i, j, k};
                ref::V3 lo {}, hi {};
                for (std::size_t d = 0; d < 3; ++d) {
                    std::size_t const f = static_cast<std::size_t>(a[d] + (static_cast<int>(d) < sim::ndim() ? ng : 0));
                    lo[d] = z.x[d][f];
                    hi[d] = z.x[d][f + 1];
                }
                double const v = ref::volume(sim::ndim(), sim::spherical(), lo, hi);
                std::size_t const q = z.at(i, j, k);
                t.mass += v * z.rho[q];
                t.amass += v * std::fabs(z.rho[q]);
                t.energy += v * z.E[q];
                t.aenergy += v * std::fabs(z.E[q]);
                for (std::size_t d = 0; d < static_cast<std::size_t>(sim::ndim()); ++d) t.mom[d] += v * z.rho[q] * z.u[d][q];
                t.amom += v * std::sqrt(2 * std::fabs(z.rho[q] * z.E[q])); // |rho u| <= sqrt(2 rho E)
                for (std::size_t f = 0; f < z.fx.size(); ++f) {
                    t.fx[f] += v * z.rho[q] * z.fx[f][q];
                    t.clamped = t.clamped || z.fx[f][q] <= 0 || z.fx[f][q] >= 1;
                }
            }
    return t;
}

} // namespace closed
