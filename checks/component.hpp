// A grid of the program on one process, for checks of single components.
#pragma once
#include "common.hpp"

#include <grid.hpp>
#include <kokkos_shortcut.hpp>
#include <range.hpp>

#include <mpi.h>

namespace component {
using namespace hclpp;

// faces of every direction, ghost faces included
using Faces = std::array<std::vector<double>, 3>;

// the interior faces are given by the widths; those of directions that do not exist cover [a, b]
inline Faces faces_of(std::array<std::vector<double>, 3> const& widths, std::array<double, 3> x0)
{
    Faces f;
    for (std::size_t d = 0; d < 3; ++d) {
        double x = x0[d];
        f[d].push_back(x);
        for (double w : widths[d]) f[d].push_back(x += w);
    }
    return f;
}

template <class V>
void fill(V const& v, std::vector<double> const& a)
{
    for (std::size_t i = 0; i < a.size(); ++i) v.kshim_at(static_cast<int>(i)) = a[i];
}

#ifndef VH_RUNS_ONLY
// body(rank, grid) on every process; n: interior cells, ng: layers
template <class F>
void with_grids(kmpi::Options const& o, std::array<int, 3> n, std::array<int, 3> dims, int ng, Faces const& faces, F const& body)
{
    auto const r = kmpi::run(o, [&](int rank) {
        MPI_Init(nullptr, nullptr);
        {
            Grid g(n, dims, ng);
            std::array<KV_double_1d, 3> x;
            for (std::size_t d = 0; d < 3; ++d) {
                x[d] = KV_double_1d("x", static_cast<int>(faces[d].size()));
                fill(x[d], faces[d]);
            }
            g.set_grid(x[0], x[1], x[2]);
            kshim::fence();
            body(rank, g);
        }
        kshim::fence();
        MPI_Finalize();
    });
    if (!r.clean()) vh::violate("the component fails", r.summary());
}
#endif

#ifndef VH_RUNS_ONLY
// body(grid) on the only process
template <class F>
void with_grid(std::array<int, 3> n, int ng, Faces const& faces, F const& body)
{
    kmpi::Options o;
    o.nranks = 1;
    with_grids(o, n, {0, 0, 0}, ng, faces, [&](int, Grid& g) { body(g); });
}
#endif

// all process grids of p processes in the directions that exist that leave at least ng cells to each
inline std::vector<std::array<int, 3>> splits(int p, std::array<int, 3> n, int ng)
{
    std::vector<std::array<int, 3>> v;
    for (int a = 1; a <= p; ++a)
        for (int b = 1; a * b <= p; ++b) {
            if (p % (a * b)) continue;
            std::array<int, 3> const d {a, b, p / a / b};
            bool ok = true;
            for (std::size_t q = 0; q < 3; ++q) ok = ok && (d[q] == 1 || (static_cast<int>(q) < sim::ndim() && n[q] / d[q] >= ng));
            if (ok) v.push_back(d);
        }
    return v;
}

// a placement of the ranks in the process grid
inline std::vector<int> placement(int p, int perm)
{
    std::vector<int> v;
    for (int q = 0; q < p && perm; ++q) v.push_back(perm == 1 ? p - 1 - q : (q + 1) % p);
    return v;
}

} // namespace component
