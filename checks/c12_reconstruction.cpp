// C12: slope limiters and the reconstruction of face values.
#ifdef VH_RUNS_ONLY
#include "runs_only.hpp"

int main(int argc, char** argv) { return runs_only::sweep(argc, argv, false); }
#else
#include "component.hpp"

#include <face_reconstruction.hpp>
#include <slope_limiters.hpp>

namespace {
using namespace hclpp;

double call(int l, double r, double q)
{
    switch (l) {
    case 0: return Constant()(r, q);
    case 1: return VanLeer()(r, q);
    case 2: return Minmod()(r, q);
    default: return VanAlbada()(r, q);
    }
}

void limiter(int l, std::vector<double> const& values)
{
    std::string const name = alpha::limiters[l];
    double const e = 1e-13;
    for (double a : values)
        for (double b : values) {
            double const s = call(l, a, b);
            auto bad = [&](char const* what, double other) { vh::violate(vh::cat("limiter ", name, ": ", what), vh::cat("differences ", a, " and ", b, ": ", s, " against ", other)); };
            vh::transitions(1);
            if (!std::isfinite(s)) return bad("not finite", 0);
            if (!vh::close(s, call(l, b, a), e)) return bad("not symmetric", call(l, b, a));
            if (!vh::close(s, -call(l, -a, -b), e)) return bad("not odd", -call(l, -a, -b));
            for (double f : {0.25, 8., 3., 0.1, 1e-7, 1e9})
                if (!vh::close(f * s, call(l, f * a, f * b), e)) return bad("not homogeneous", call(l, f * a, f * b) / f);
            if (!(a * b > 0) || l == 0) {
                if (s != 0) return bad("not flat", 0);
                continue;
            }
            if (s * a < 0) return bad("wrong sign", 0);
            double const mn = std::fmin(std::fabs(a), std::fabs(b)), mx = std::fmax(std::fabs(a), std::fabs(b));
            if (std::fabs(s) > 2 * mn * (1 + e) || std::fabs(s) > mx * (1 + e)) return bad("beyond the second-order bounds", 2 * mn);
            if (a == b && !vh::close(s, a, e)) return bad("not exact on linear data", a);
            if (!vh::close(s, ref::limited_slope(name, a, b), e)) return bad("not the limiter of that name", ref::limited_slope(name, a, b));
            vh::trace_validated();
        }
}

// values on a cross of five (or one line) around every cell, widths from a menu
struct Case
{
    std::array<int, 3> n {};
    int ng = 2;
    component::Faces faces;
    std::vector<double> v; // all cells, ghosts included
};

// reconstruction on the interior enlarged by `w` layers; returns the whole array
void reconstruct(Case const& c, std::string const& name, int layers, std::function<void(Grid const&, KV_double_3d const&, KV_double_5d const&)> const& look)
{
    component::with_grid(c.n, c.ng, c.faces, [&](Grid const& g) {
        std::array<int, 3> const e = g.Nx_local_wg;
        KV_double_3d const var("var", e[0], e[1], e[2]);
        KV_double_5d const rec("rec", e[0], e[1], e[2], 2, sim::ndim());
        for (int k = 0; k < e[2]; ++k)
            for (int j = 0; j < e[1]; ++j)
                for (int i = 0; i < e[0]; ++i) {
                    var.kshim_at(i, j, k) = c.v[(static_cast<std::size_t>(k) * e[1] + j) * e[0] + i];
                    for (int s = 0; s < 2; ++s)
                        for (int d = 0; d < sim::ndim(); ++d) rec.kshim_at(i, j, k, s, d) = -77.;
                }
        factory_face_reconstruction(name)->execute(g.range.with_ghosts(layers), g, var, rec);
        kshim::fence();
        look(g, var, rec);
    });
}

// every property of the face values of every cell
void judge(Case const& c, std::string const& name, int layers, bool uniform)
{
    int const nd = sim::ndim();
    reconstruct(c, name, layers, [&](Grid const& g, KV_double_3d const& var, KV_double_5d const& rec) {
        std::array<int, 3> const e = g.Nx_local_wg;
        for (int k = 0; k < e[2]; ++k)
            for (int j = 0; j < e[1]; ++j)
                for (int i = 0; i < e[0]; ++i) {
                    std::array<int, 3> const a {i, j, k};
                    bool in = true;
                    for (int d = 0; d < nd; ++d) in = in && a[static_cast<std::size_t>(d)] >= c.ng - layers && a[static_cast<std::size_t>(d)] < e[static_cast<std::size_t>(d)] - c.ng + layers;
                    for (int d = 0; d < nd; ++d) {
                        double const L = rec.kshim_at(i, j, k, 0, d), R = rec.kshim_at(i, j, k, 1, d);
                        auto bad = [&](char const* what, double o) {
                            vh::violate(vh::cat(name, ": ", what), vh::cat("cell ", i, ",", j, ",", k, " direction ", d, ": faces ", L, " ", R, " around ", var.kshim_at(i, j, k), " against ", o));
                        };
                        if (!in) {
                            if (L != -77 || R != -77) return bad("cells outside of the range changed", -77);
                            continue;
                        }
                        std::array<int, 3> m = a, p = a;
                        --m[static_cast<std::size_t>(d)];
                        ++p[static_cast<std::size_t>(d)];
                        double const v = var.kshim_at(i, j, k), vm = var.kshim_at(m[0], m[1], m[2]), vp = var.kshim_at(p[0], p[1], p[2]);
                        auto const& x = c.faces[static_cast<std::size_t>(d)];
                        std::size_t const q = static_cast<std::size_t>(a[static_cast<std::size_t>(d)]);
                        double const w = x[q + 1] - x[q], wm = x[q] - x[q - 1], wp = x[q + 2] - x[q + 1];
                        double const sc = std::fmax(std::fabs(v), std::fmax(std::fabs(vm), std::fabs(vp)));
                        double const tol = 1e-12 * sc;
                        if (std::fabs((L + R) / 2 - v) > tol) return bad("faces not symmetric about the average", v);
                        double const dr = (vp - v) / ((w + wp) / 2), dl = (v - vm) / ((w + wm) / 2);
                        double const s = ref::limited_slope(name, dr, dl);
                        if (std::fabs(R - (v + s * w / 2)) > tol) return bad("not the limited linear profile", v + s * w / 2);
                        if (uniform || name == "Minmod" || name == "Constant") {
                            if (R < std::fmin(v, vp) - tol || R > std::fmax(v, vp) + tol) return bad("right face beyond the averages", vp);
                            if (L < std::fmin(v, vm) - tol || L > std::fmax(v, vm) + tol) return bad("left face beyond the averages", vm);
                        }
                        if ((vp - v) * (v - vm) <= 0 && (L != v || R != v)) return bad("not flat at an extremum", v);
                        if (name != "Constant" && uniform && vp - v == v - vm && std::fabs(R - (v + vp) / 2) > tol) return bad("not exact on linear data", (v + vp) / 2);
                    }
                }
        vh::Hash h;
        h << name << rec.kshim_at(c.ng, nd > 1 ? c.ng : 0, nd > 2 ? c.ng : 0, 1, nd - 1);
        vh::state(h);
    });
    vh::trace_validated();
    vh::transitions(1);
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough();
        // ---- limiters
        if (nd == 1) {
            std::vector<double> v {0.};
            for (int s : {-1, 1}) {
                for (int e = -24; e <= 24; ++e) v.push_back(s * std::pow(2., e * (th ? 1 : 2)));
                for (double m : {1., 1.0000001, 1.1, 1.5, 2., 2.5, 3., 7., 9.999, 1e-30, 1e30, 0.3, 0.5000001}) v.push_back(s * m);
                for (int q = 1; q < (th ? 400 : 60); ++q) v.push_back(s * q / 8.);
            }
            for (int l = 0; l < 4; ++l) x.run(vh::cat("limiter ", alpha::limiters[l]), [=] { limiter(l, v); });
        }
        // ---- reconstruction: all values of an alphabet on the cells of a line, all widths
        static double const vals[] = {1, 1.5, 3, -0.7, 2};
        static double const wid[] = {1, 2.5, 0.3};
        if (nd == 1) {
            int const n = 3, ng = 2, cells = n + 2 * ng;
            int const base = th ? 4 : 3;
            for (char const* nm : alpha::limiters)
                for (long wc = 0; wc < alpha::ipow(3, cells) / 9; ++wc)
                    if (th || wc % 2 == 0 || wc < 3)
                        x.run(vh::cat(nm, " line, widths ", wc), [=] {
                            // several patterns of values per pattern of widths
                            long const codes = alpha::ipow(base, cells);
                            bool const all = wc == 0;
                            std::array<std::vector<double>, 3> w;
                            w[1] = w[2] = {1};
                            bool uniform = true;
                            for (long q = 0, m = wc; q < cells; ++q, m /= 3) {
                                w[0].push_back(wid[m % 3]);
                                uniform = uniform && w[0].back() == w[0][0];
                            }
                            for (long code = 0; code < codes; code += all || th ? 1 : 7) {
                                Case c;
                                c.n = {n, 1, 1};
                                c.ng = ng;
                                c.faces = component::faces_of(w, {1, 0.4, 0});
                                for (long q = 0, m = code; q < cells; ++q, m /= base) c.v.push_back(vals[m % base]);
                                judge(c, nm, 1, uniform);
                            }
                        });
        } else {
            // all values of an alphabet on the cross of neighbours of one cell, widths mixed
            int const arms = 2 * nd + 1;
            for (char const* nm : alpha::limiters)
                for (int wc = 0; wc < (nd == 2 ? 81 : 64); ++wc)
                    x.run(vh::cat(nm, " cross, widths ", wc), [=] {
                        std::array<int, 3> const n {3, 2, nd == 3 ? 2 : 1};
                        int const ng = 2;
                        std::array<std::vector<double>, 3> w;
                        bool uniform = true;
                        for (int d = 0, m = wc; d < 3; ++d) {
                            if (d >= nd) {
                                w[static_cast<std::size_t>(d)] = {1};
                                continue;
                            }
                            int const e = n[static_cast<std::size_t>(d)] + 2 * ng;
                            int const p = m % (nd == 2 ? 9 : 4);
                            m /= nd == 2 ? 9 : 4;
                            for (int q = 0; q < e; ++q) w[static_cast<std::size_t>(d)].push_back(0.02 * (wid[(q % 2 ? p % 3 : p / 3)] + (d == 1)));
                            uniform = uniform && p % 3 == p / 3;
                        }
                        long const codes = alpha::ipow(3, arms);
                        for (long code = wc % 7; code < codes; code += wc == 0 || nd == 2 ? 1 : (th ? 2 : 19)) {
                            Case c;
                            c.n = n;
                            c.ng = ng;
                            c.faces = component::faces_of(w, {1, 0.4, 0});
                            std::array<int, 3> e {};
                            for (int d = 0; d < 3; ++d) e[static_cast<std::size_t>(d)] = n[static_cast<std::size_t>(d)] + (d < nd ? 2 * ng : 0);
                            std::array<int, 3> const o {ng + 1, ng, nd == 3 ? ng : 0};
                            for (int k = 0; k < e[2]; ++k)
                                for (int j = 0; j < e[1]; ++j)
                                    for (int i = 0; i < e[0]; ++i) {
                                        std::array<int, 3> const dd {i - o[0], j - o[1], k - o[2]};
                                        int arm = -1;
                                        if (dd == std::array<int, 3> {0, 0, 0}) arm = 0;
                                        for (int d = 0; d < nd; ++d)
                                            for (int s = 0; s < 2; ++s) {
                                                std::array<int, 3> u {0, 0, 0};
                                                u[static_cast<std::size_t>(d)] = s ? 1 : -1;
                                                if (dd == u) arm = 1 + 2 * d + s;
                                            }
                                        long m = code;
                                        for (int q = 0; q < arm; ++q) m /= 3;
                                        c.v.push_back(arm >= 0 ? vals[m % 3] : 1 + 0.3 * i - 0.2 * j + 0.17 * k * k + (i * j + k) % 3);
                                    }
                            judge(c, nm, 1, uniform);
                        }
                    });
        }
        // ---- linear profiles on every regular grid, all layers
        for (char const* nm : alpha::limiters)
            for (int m = 1; m <= 6; ++m)
                for (int layers = 0; layers <= 1; ++layers)
                    x.run(vh::cat(nm, " linear ", m, " layers ", layers), [=] {
                        Case c;
                        c.ng = 2;
                        std::array<std::vector<double>, 3> w;
                        std::array<int, 3> e {};
                        for (int d = 0; d < 3; ++d) {
                            std::size_t const q = static_cast<std::size_t>(d);
                            c.n[q] = d < nd ? 2 + (m + d) % 3 : 1;
                            e[q] = c.n[q] + (d < nd ? 4 : 0);
                            w[q].assign(static_cast<std::size_t>(e[q]), d < nd ? 0.0625 * (1 + (m * (d + 1)) % 2) : 1);
                        }
                        c.faces = component::faces_of(w, {1, 0.5, 0});
                        double const s[3] = {0.5 * (m % 3) - 0.5, 0.25 * (m % 2) + 0.5, 1. - 0.5 * m};
                        for (int k = 0; k < e[2]; ++k)
                            for (int j = 0; j < e[1]; ++j)
                                for (int i = 0; i < e[0]; ++i) c.v.push_back(8 + s[0] * i + s[1] * j + s[2] * k);
                        judge(c, nm, layers, true);
                    });
    });
}
#endif
