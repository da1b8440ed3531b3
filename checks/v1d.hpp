// Profile files for the v1d setup.
#pragma once
#include <cmath>
#include <cstring>

#include "common.hpp"
#include "kio.hpp"

namespace v1d {

inline kio::Dataset array(std::vector<std::size_t> dims, std::vector<double> const& v)
{
    kio::Dataset d;
    d.type = "double";
    d.dims = std::move(dims);
    d.bytes.resize(v.size() * 8);
    std::memcpy(d.bytes.data(), v.data(), v.size() * 8);
    d.writes.assign(v.size(), 1);
    return d;
}

struct Case
{
    std::array<int, 3> n {4, 1, 1};
    int ng = 2, nfx = 0;
    std::array<std::vector<double>, 4> prof; // rho u P and scalars one after another
    std::vector<double> x0;
    sim::Spec spec; // everything but the profiles
};

// distinct values everywhere
inline Case make(std::array<int, 3> n, int ng, int nfx)
{
    Case c;
    c.n = n;
    c.ng = ng;
    c.nfx = nfx;
    for (int i = 0; i < n[0]; ++i) {
        c.prof[0].push_back(1 + 0.11 * i + 0.003 * i * i);
        c.prof[1].push_back((0.05 * i - 0.07) * alpha::uscale());
        c.prof[2].push_back((2 - 0.013 * i) * alpha::pscale());
    }
    for (int q = 0; q < nfx; ++q)
        for (int i = 0; i < n[0]; ++i) c.prof[3].push_back(0.1 * q + 0.007 * i);
    for (int i = -ng; i <= n[0] + ng; ++i) c.x0.push_back(3 + 0.25 * i + 0.004 * i * std::fabs(i));
    auto& s = c.spec;
    s.n = n;
    s.ng = ng;
    s.nfx = nfx;
    alpha::domain(s);
    s.ini.set("problem", "init_file", "profile.h5").set("Grid", "type", "UserDefined").set("Boundary Condition", "BC", "NullGradient");
    s.ini.set("Output", "iter_frequency", 1).set("Output", "max_iter", 1);
    return c;
}

inline void put(Case const& c, kio::Fs& fs)
{
    kio::File f;
    std::size_t const n = static_cast<std::size_t>(c.n[0]);
    f.dsets["rho_1d"] = array({n}, c.prof[0]);
    f.dsets["u_1d"] = array({n}, c.prof[1]);
    f.dsets["P_1d"] = array({n}, c.prof[2]);
    f.dsets["fx_1d"] = array({static_cast<std::size_t>(c.nfx), n}, c.prof[3]);
    f.dsets["x0"] = array({c.x0.size()}, c.x0);
    fs.files["profile.h5"] = f;
}

// the initial snapshot against the profiles; "" when each value is at its place
inline std::string compare(Case const& c, sim::Snap const& s)
{
    if (s.n != c.n) return "size of the snapshot";
    for (std::size_t i = 0; i < c.x0.size(); ++i)
        if (s.x[0][i] != c.x0[i]) return vh::cat("x0[", i, "] = ", s.x[0][i], " instead of ", c.x0[i]);
    for (int k = 0; k < c.n[2]; ++k)
        for (int j = 0; j < c.n[1]; ++j)
            for (int i = 0; i < c.n[0]; ++i) {
                std::size_t const a = s.at(i, j, k), r = static_cast<std::size_t>(i);
                auto bad = [&](char const* w, double have, double want) { return vh::cat(w, " at ", i, ",", j, ",", k, " is ", have, " instead of ", want); };
                if (s.rho[a] != c.prof[0][r]) return bad("rho", s.rho[a], c.prof[0][r]);
                if (!vh::close(s.u[0][a], c.prof[1][r], 1e-13)) return bad("u0", s.u[0][a], c.prof[1][r]);
                for (int d = 1; d < sim::ndim(); ++d)
                    if (s.u[static_cast<std::size_t>(d)][a] != 0) return bad("transverse velocity", s.u[static_cast<std::size_t>(d)][a], 0);
                if (!vh::close(s.P[a], c.prof[2][r], 1e-9)) return bad("P", s.P[a], c.prof[2][r]);
                for (int q = 0; q < c.nfx; ++q) {
                    double const w = c.prof[3][static_cast<std::size_t>(q * c.n[0] + i)], h = s.fx[static_cast<std::size_t>(q)][a];
                    if (!vh::close(h, w, 1e-14)) return bad(("fx" + std::to_string(q)).c_str(), h, w);
                }
            }
    return "";
}

} // namespace v1d
