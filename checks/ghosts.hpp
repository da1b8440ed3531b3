// The arrays of every process as they are after the boundary stage of the first step of a real run.
#pragma once
#include "common.hpp"

#include <grid.hpp>
#include <kokkos_shortcut.hpp>
#include <range.hpp>
#include <vsetup_hooks.hpp>

namespace ghosts {
using namespace hclpp;

struct Block
{
    std::array<int, 3> lo {}, n {}, ng {}; // global index of the first interior cell, interior cells, layers
    std::array<int, 3> ext {};
    int nf = 0; // fields: rho, momenta, E, scalars
    std::vector<double> a;
    std::array<std::array<bool, 2>, 3> border {};
    std::array<int, 3> coord {}, dims {};
    double& at(int f, int i, int j, int k) { return a[((static_cast<std::size_t>(f) * ext[2] + k) * ext[1] + j) * ext[0] + i]; }
    double at(int f, int i, int j, int k) const { return const_cast<Block*>(this)->at(f, i, j, k); }
    bool filled = false;
};

// values given to the fields before the boundary stage, at global interior cells
inline double marker(int f, std::array<int, 3> g)
{
    return 1 + f * 0.37 + 0.011 * g[0] + 0.0131 * g[1] * (f + 1) + 0.0171 * g[2] * (f + 2);
}

struct Capture
{
    sim::Res res;
    std::vector<Block> blocks;
    std::string problem;
    std::vector<std::vector<std::array<int, 2>>> order; // calls of user boundaries, per process, in the stage observed
};

// runs one step of the specification; the shift criterion is used as the observer
inline Capture capture(sim::Spec s, bool mark = true)
{
    Capture c;
    c.blocks.resize(static_cast<std::size_t>(s.mpi.nranks));
    c.order.resize(static_cast<std::size_t>(s.mpi.nranks));
    s.ini.set("Output", "max_iter", 1).set("Grid", "shift_grid", "UserDefined");
    s.user_step = true;
    auto const me = [] { return static_cast<std::size_t>(kmpi::world_rank()); };
    auto const ob = s.on_boundary;
    s.on_boundary = [&, ob](int d, int f) {
        if (ob) ob(d, f);
        c.order[me()].push_back({d, f});
    };
    s.on_fields = [&](Range const& range, KV_double_3d const& rho, KV_double_3d const& E, KV_double_4d const& fx) {
        kshim::fence();
        c.order[me()].clear();
        if (!mark) return;
        for (int k = 0; k < rho.extent_int(2); ++k)
            for (int j = 0; j < rho.extent_int(1); ++j)
                for (int i = 0; i < rho.extent_int(0); ++i) {
                    std::array<int, 3> const l {i, j, k};
                    std::array<int, 3> g {};
                    for (int d = 0; d < 3; ++d) g[static_cast<std::size_t>(d)] = l[static_cast<std::size_t>(d)] - range.Nghost[static_cast<std::size_t>(d)] + range.Corner_min[static_cast<std::size_t>(d)];
                    bool in = true;
                    for (std::size_t d = 0; d < 3; ++d) in = in && g[d] >= range.Corner_min[d] && g[d] < range.Corner_max[d];
                    // ghosts get a value that must not survive
                    double const nan = std::nan("");
                    int const nd = sim::ndim();
                    rho.kshim_at(i, j, k) = in ? marker(0, g) : nan;
                    E.kshim_at(i, j, k) = in ? marker(1 + nd, g) : nan;
                    for (int q = 0; q < fx.extent_int(3); ++q) fx.kshim_at(i, j, k, q) = in ? marker(2 + nd + q, g) : nan;
                }
    };
    s.on_stage = [&](Range const& range, Grid const& grid, KV_cdouble_3d const& rho, KV_cdouble_4d const& rhou, KV_cdouble_3d const& E, KV_cdouble_4d const& fx) {
        kshim::fence();
        Block& b = c.blocks[me()];
        int const nd = sim::ndim();
        for (std::size_t d = 0; d < 3; ++d) {
            b.lo[d] = range.Corner_min[d];
            b.n[d] = range.Corner_max[d] - range.Corner_min[d];
            b.ng[d] = grid.Nghost[d];
            b.ext[d] = rho.extent_int(static_cast<int>(d));
            b.border[d] = grid.is_border[d];
            b.coord[d] = grid.mpi_rank_cart[d];
            b.dims[d] = grid.mpi_dims_cart[d];
        }
        b.nf = 2 + nd + fx.extent_int(3);
        b.a.assign(static_cast<std::size_t>(b.nf) * b.ext[0] * b.ext[1] * b.ext[2], 0);
        for (int k = 0; k < b.ext[2]; ++k)
            for (int j = 0; j < b.ext[1]; ++j)
                for (int i = 0; i < b.ext[0]; ++i) {
                    b.at(0, i, j, k) = rho.kshim_at(i, j, k);
                    for (int q = 0; q < nd; ++q) b.at(1 + q, i, j, k) = rhou.kshim_at(i, j, k, q);
                    b.at(1 + nd, i, j, k) = E.kshim_at(i, j, k);
                    for (int q = 0; q < fx.extent_int(3); ++q) b.at(2 + nd + q, i, j, k) = fx.kshim_at(i, j, k, q);
                }
        b.filled = true;
    };
    c.res = sim::run_alone(s);
    if (!c.res.ok()) c.problem = c.res.problem;
    for (auto const& b : c.blocks)
        if (!b.filled && c.problem.empty()) c.problem = "the shift criterion of a process was not asked";
    return c;
}

inline bool same(double a, double b)
{
    return a == b || (std::isnan(a) && std::isnan(b));
}

// interior of the whole domain, from the blocks; "" or what is wrong with the blocks
struct Global
{
    std::array<int, 3> n {};
    int nf = 0;
    std::vector<double> a;
    std::vector<int> owner;
    std::size_t cell(std::array<int, 3> g) const { return (static_cast<std::size_t>(g[2]) * n[1] + g[1]) * n[0] + g[0]; }
    double at(int f, std::array<int, 3> g) const { return a[cell(g) * static_cast<std::size_t>(nf) + static_cast<std::size_t>(f)]; }
};
inline std::string gather(std::vector<Block> const& bs, std::array<int, 3> n, Global& w)
{
    w.n = n;
    w.nf = bs[0].nf;
    std::size_t const cells = static_cast<std::size_t>(n[0]) * n[1] * n[2];
    w.a.assign(cells * static_cast<std::size_t>(w.nf), std::nan(""));
    w.owner.assign(cells, -1);
    for (std::size_t p = 0; p < bs.size(); ++p) {
        Block const& b = bs[p];
        for (int k = 0; k < b.n[2]; ++k)
            for (int j = 0; j < b.n[1]; ++j)
                for (int i = 0; i < b.n[0]; ++i) {
                    std::array<int, 3> const g {b.lo[0] + i, b.lo[1] + j, b.lo[2] + k};
                    for (std::size_t d = 0; d < 3; ++d)
                        if (g[d] < 0 || g[d] >= n[d]) return vh::cat("process ", p, " owns a cell outside of the domain");
                    if (w.owner[w.cell(g)] >= 0) return vh::cat("cell ", g[0], ",", g[1], ",", g[2], " belongs to processes ", w.owner[w.cell(g)], " and ", p);
                    w.owner[w.cell(g)] = static_cast<int>(p);
                    for (int f = 0; f < w.nf; ++f) w.a[w.cell(g) * static_cast<std::size_t>(w.nf) + static_cast<std::size_t>(f)] = b.at(f, i + b.ng[0], j + b.ng[1], k + b.ng[2]);
                }
    }
    for (std::size_t q = 0; q < cells; ++q)
        if (w.owner[q] < 0) return vh::cat("cell number ", q, " belongs to no process");
    return "";
}

// value of field f at the global cell g (possibly outside) after the stage: faces[2*d+s] is the name of
// the condition of a face, order the faces from the first applied to the last, user the state of a face
struct Rules
{
    std::array<int, 3> n {};
    std::array<std::string, 6> faces;
    std::vector<int> order;
    std::function<double(int face, int f)> user;
    // t: number of faces applied before
    double value(Global const& w, int f, std::array<int, 3> g, std::size_t t) const
    {
        int const nd = sim::ndim();
        for (std::size_t q = t; q-- > 0;) {
            int const face = order[q];
            std::size_t const d = static_cast<std::size_t>(face / 2);
            bool const left = face % 2 == 0;
            if (!(left ? g[d] < 0 : g[d] >= n[d])) continue;
            std::string const& name = faces[static_cast<std::size_t>(face)];
            if (name == "Periodic") continue;
            if (name == "UserDefined") return user(face, f);
            std::array<int, 3> s = g;
            if (name == "NullGradient") {
                s[d] = left ? 0 : n[d] - 1;
                return value(w, f, s, q);
            }
            s[d] = left ? -1 - g[d] : 2 * n[d] - 1 - g[d];
            double const v = value(w, f, s, q);
            return f == 1 + static_cast<int>(d) && f <= nd ? -v : v;
        }
        for (std::size_t d = 0; d < 3; ++d) g[d] = ((g[d] % n[d]) + n[d]) % n[d];
        return w.at(f, g);
    }
};

// kind of ghost cell -> is it looked at?
enum : int { inside = 1, physical = 2 };

// "" or the first cell that differs
inline std::string compare(std::vector<Block> const& bs, Global const& w, Rules const& r, int kinds)
{
    for (std::size_t p = 0; p < bs.size(); ++p) {
        Block const& b = bs[p];
        for (int k = 0; k < b.ext[2]; ++k)
            for (int j = 0; j < b.ext[1]; ++j)
                for (int i = 0; i < b.ext[0]; ++i) {
                    std::array<int, 3> const g {b.lo[0] + i - b.ng[0], b.lo[1] + j - b.ng[1], b.lo[2] + k - b.ng[2]};
                    bool phys = false;
                    for (std::size_t d = 0; d < 3; ++d)
                        phys = phys || (g[d] < 0 && r.faces[2 * d] != "Periodic") || (g[d] >= r.n[d] && r.faces[2 * d + 1] != "Periodic");
                    if (!(kinds & (phys ? physical : inside))) continue;
                    for (int f = 0; f < b.nf; ++f) {
                        double const e = r.value(w, f, g, r.order.size());
                        double const v = b.at(f, i, j, k);
                        if (!same(e, v)) return vh::cat("process ", p, " cell ", g[0], ",", g[1], ",", g[2], " field ", f, ": ", v, " instead of ", e);
                    }
                }
    }
    return "";
}

} // namespace ghosts
