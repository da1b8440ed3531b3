#include "sim.hpp"
#include "ref.hpp"

#include <cmath>
#include <limits>
#include <stdexcept>

#include <Kokkos_Core.hpp>
#include <eos.hpp>
#include <geom.hpp>
#include <grid.hpp>
#include <ndim.hpp>
#include <range.hpp>
#include <vsetup_hooks.hpp>

namespace vsetup {
std::function<void(Range const&, Grid const&, KV_double_3d const&, KV_double_4d const&, KV_double_3d const&, KV_double_4d const&)> init;
std::function<void(int, int, Grid const&, KV_double_3d const&, KV_double_4d const&, KV_double_3d const&, KV_double_4d const&)> boundary;
std::function<void(std::array<int, 3>, std::array<int, 3>, KVH_double_1d const&, KVH_double_1d const&, KVH_double_1d const&)> grid;
std::function<void(Range const&, double, double, KV_double_3d const&, KV_double_3d const&, KV_double_4d const&)> user_step;
std::function<bool(Range const&, Grid const&, KV_cdouble_3d const&, KV_cdouble_4d const&, KV_cdouble_3d const&, KV_cdouble_4d const&)> shift;
} // namespace vsetup

namespace sim {

int ndim() { return hclpp::ndim; }
bool spherical() { return hclpp::geom == hclpp::Geometry::Geom_spherical; }
bool radgas() { return hclpp::eos_choice != "PerfectGas"; }
std::string gravity()
{
#if defined(HERACLESPP_GRAVITY_Uniform)
    return "Uniform";
#elif defined(HERACLESPP_GRAVITY_Point_mass)
    return "Point_mass";
#else
    return "Internal_mass";
#endif
}

Ini& Ini::set(std::string const& s, std::string const& k, std::string const& v)
{
    for (auto& x : sec)
        if (x.first == s) {
            for (auto& kv : x.second)
                if (kv.first == k) {
                    kv.second = v;
                    return *this;
                }
            x.second.emplace_back(k, v);
            return *this;
        }
    sec.push_back({s, {{k, v}}});
    return *this;
}
Ini& Ini::set(std::string const& s, std::string const& k, double v) { return set(s, k, vh::num(v)); }
Ini& Ini::set(std::string const& s, std::string const& k, int v) { return set(s, k, std::to_string(v)); }
Ini& Ini::unset(std::string const& s, std::string const& k)
{
    for (auto& x : sec)
        if (x.first == s) std::erase_if(x.second, [&](auto const& kv) { return kv.first == k; });
    return *this;
}
std::string Ini::text() const
{
    std::string t;
    for (auto const& s : sec) {
        t += "[" + s.first + "]\n";
        for (auto const& kv : s.second) t += kv.first + " = " + kv.second + "\n";
    }
    return t;
}

std::string Spec::text() const
{
    Ini x = ini;
    for (int d = 0; d < 3; ++d) x.set("Grid", "Nx" + std::to_string(d) + "_glob", n[static_cast<std::size_t>(d)]);
    x.set("Grid", "Nghost", ng);
    if (nfx > 0) x.set("Passive Scalar", "nfx", nfx);
    if (!faces[0].empty()) x.set("Grid", "type", "UserDefined");
    if (user_step) x.set("User step", "user_step", "UserDefined");
    if (shift && !own_shift_grid) x.set("Grid", "shift_grid", "UserDefined");
    return x.text();
}

Snap read(kio::File const& f, std::string const& path, int nfx)
{
    Snap s;
    s.path = path;
    auto ds = [&](std::string const& n, char const* type) -> kio::Dataset const& {
        auto const it = f.dsets.find(n);
        if (it == f.dsets.end()) throw std::runtime_error(path + ": dataset " + n + " is missing");
        if (it->second.type != type) throw std::runtime_error(path + ": dataset " + n + " has type " + it->second.type);
        return it->second;
    };
    auto arr = [&](kio::Dataset const& d) {
        std::vector<double> v(d.count());
        for (std::size_t i = 0; i < v.size(); ++i) v[i] = d.d(i);
        return v;
    };
    s.iter = ds("iter", "int").i();
    s.output_id = ds("output_id", "int").i();
    s.iter_output_id = ds("iter_output_id", "int").i();
    s.time_output_id = ds("time_output_id", "int").i();
    s.t = ds("current_time", "double").d();
    s.gamma = ds("gamma", "double").d();
    auto const& r = ds("rho", "double");
    if (r.dims.size() != 3) throw std::runtime_error(path + ": rho has rank " + std::to_string(r.dims.size()));
    s.n = {static_cast<int>(r.dims[2]), static_cast<int>(r.dims[1]), static_cast<int>(r.dims[0])};
    auto fld = [&](std::string const& n) {
        auto const& d = ds(n, "double");
        if (d.dims != r.dims) throw std::runtime_error(path + ": dataset " + n + " does not have the dimensions of rho");
        return arr(d);
    };
    s.rho = fld("rho");
    s.P = fld("P");
    s.E = fld("E");
    s.T = fld("T");
    for (int d = 0; d < hclpp::ndim; ++d) s.u[static_cast<std::size_t>(d)] = fld("ux" + std::to_string(d));
    for (int q = 0; q < nfx; ++q) s.fx.push_back(fld("fx" + std::to_string(q)));
    for (int d = 0; d < 3; ++d) {
        s.x[static_cast<std::size_t>(d)] = arr(ds("x" + std::to_string(d), "double"));
        s.x_ng[static_cast<std::size_t>(d)] = arr(ds("x" + std::to_string(d) + "_ng", "double"));
    }
    return s;
}

std::vector<Snap> read_all(kio::Fs const& fs, int nfx)
{
    std::vector<Snap> v;
    for (auto const& [p, f] : fs.files) v.push_back(read(f, p, nfx));
    return v;
}

std::uint64_t Snap::hash() const
{
    vh::Hash h;
    h << t << iter;
    for (auto const* v : {&rho, &P, &u[0], &u[1], &u[2]}) h.bytes(v->data(), v->size() * 8);
    for (auto const& f : fx) h.bytes(f.data(), f.size() * 8);
    return h;
}

Res run(Spec const& s)
{
    using namespace hclpp;
    double const nan = std::numeric_limits<double>::quiet_NaN();
    vsetup::init = [&](Range const& range, Grid const& grid, KV_double_3d const& rho, KV_double_4d const& u, KV_double_3d const& P, KV_double_4d const& fx) {
        kshim::fence();
        int const e0 = rho.extent_int(0), e1 = rho.extent_int(1), e2 = rho.extent_int(2);
        int const nf = fx.extent_int(3);
        for (int k = 0; k < e2; ++k)
            for (int j = 0; j < e1; ++j)
                for (int i = 0; i < e0; ++i) {
                    std::array<int, 3> const l {i, j, k};
                    std::array<int, 3> g {};
                    bool in = true;
                    for (int d = 0; d < 3; ++d) {
                        g[d] = l[d] - grid.Nghost[d] + range.Corner_min[d];
                        in = in && g[d] >= range.Corner_min[d] && g[d] < range.Corner_max[d];
                    }
                    if (!in) {
                        if (s.poison) {
                            rho.kshim_at(i, j, k) = nan;
                            P.kshim_at(i, j, k) = nan;
                            for (int d = 0; d < hclpp::ndim; ++d) u.kshim_at(i, j, k, d) = nan;
                            for (int f = 0; f < nf; ++f) fx.kshim_at(i, j, k, f) = nan;
                        }
                        continue;
                    }
                    Cell const c = s.init(g[0], g[1], g[2]);
                    rho.kshim_at(i, j, k) = c.rho;
                    P.kshim_at(i, j, k) = c.P;
                    for (int d = 0; d < hclpp::ndim; ++d) u.kshim_at(i, j, k, d) = c.u[static_cast<std::size_t>(d)];
                    for (int f = 0; f < nf; ++f) fx.kshim_at(i, j, k, f) = static_cast<std::size_t>(f) < c.fx.size() ? c.fx[static_cast<std::size_t>(f)] : 0.;
                }
    };
    vsetup::boundary = [&](int d, int f, Grid const& grid, KV_double_3d const& rho, KV_double_4d const& rhou, KV_double_3d const& E, KV_double_4d const& fx) {
        if (s.on_boundary) s.on_boundary(d, f);
        if (!s.user_value) return;
        kshim::fence();
        Cell const c = s.user_value(d, f);
        ref::Eos const eos = ref::params(s).eos;
        std::array<int, 3> lo {0, 0, 0}, hi {rho.extent_int(0), rho.extent_int(1), rho.extent_int(2)};
        if (f == 0)
            hi[d] = grid.Nghost[d];
        else
            lo[d] = hi[d] - grid.Nghost[d];
        for (int k = lo[2]; k < hi[2]; ++k)
            for (int j = lo[1]; j < hi[1]; ++j)
                for (int i = lo[0]; i < hi[0]; ++i) {
                    double e = 0;
                    for (int q = 0; q < hclpp::ndim; ++q) {
                        rhou.kshim_at(i, j, k, q) = c.rho * c.u[static_cast<std::size_t>(q)];
                        e += c.rho * c.u[static_cast<std::size_t>(q)] * c.u[static_cast<std::size_t>(q)] / 2;
                    }
                    rho.kshim_at(i, j, k) = c.rho;
                    E.kshim_at(i, j, k) = e + eos.evol(c.rho, c.P);
                    for (int q = 0; q < fx.extent_int(3); ++q) fx.kshim_at(i, j, k, q) = static_cast<std::size_t>(q) < c.fx.size() ? c.fx[static_cast<std::size_t>(q)] : 0.;
                }
    };
    vsetup::grid = [&](std::array<int, 3>, std::array<int, 3>, KVH_double_1d const& x0, KVH_double_1d const& x1, KVH_double_1d const& x2) {
        KVH_double_1d const x[3] = {x0, x1, x2};
        for (int d = 0; d < 3; ++d) {
            auto const& f = s.faces[static_cast<std::size_t>(d)];
            if (x[d].extent(0) != f.size()) throw std::runtime_error("vsetup: face array of direction " + std::to_string(d) + " has " + std::to_string(x[d].extent(0)) + " entries, expected " + std::to_string(f.size()));
            for (std::size_t i = 0; i < f.size(); ++i) x[d].kshim_at(i) = f[i];
        }
    };
    vsetup::user_step = [&](Range const& range, double t, double dt, KV_double_3d const& rho, KV_double_3d const& E, KV_double_4d const& fx) {
        if (s.on_fields) s.on_fields(range, rho, E, fx);
        if (s.on_user_step) s.on_user_step(t, dt);
        if (!s.user_heat) return;
        kshim::fence();
        // the interior: whatever cells the range given by the program designates
        auto const [b, e] = cell_range(range);
        for (int k = b[2]; k < e[2]; ++k)
            for (int j = b[1]; j < e[1]; ++j)
                for (int i = b[0]; i < e[0]; ++i) {
                    std::array<int, 3> const l {i, j, k};
                    std::array<int, 3> g {};
                    for (int d = 0; d < 3; ++d) g[d] = l[d] - range.Nghost[d] + range.Corner_min[d];
                    E.kshim_at(i, j, k) += s.user_heat(g[0], g[1], g[2], rho.kshim_at(i, j, k), t, dt);
                }
    };
    std::vector<long> calls(static_cast<std::size_t>(s.mpi.nranks), 0);
    vsetup::shift = [&](Range const& range, Grid const& grid, KV_cdouble_3d const& rho, KV_cdouble_4d const& rhou, KV_cdouble_3d const& E, KV_cdouble_4d const& fx) {
        if (s.on_stage) s.on_stage(range, grid, rho, rhou, E, fx);
        long const c = calls[static_cast<std::size_t>(kmpi::world_rank())]++;
        return s.shift && s.shift(c);
    };
    prog::Opt o;
    o.ini = s.text();
    o.mpi = s.mpi;
    o.exec = s.exec;
    o.clock = s.clock;
    o.args = s.args;
    o.keep_files = s.keep_files;
    o.no_ini = s.no_ini;
    Res r;
    r.out = prog::run(o);
    vsetup::init = nullptr;
    vsetup::boundary = nullptr;
    vsetup::grid = nullptr;
    vsetup::user_step = nullptr;
    vsetup::shift = nullptr;
    if (!r.out.ok()) r.problem = "the run failed: " + r.out.summary();
    try {
        r.snaps = read_all(*kio::fs, s.nfx);
    } catch (std::exception const& e) {
        if (r.problem.empty()) r.problem = e.what();
    }
    if (r.problem.empty() && r.snaps.empty()) r.problem = "no snapshot was written";
    return r;
}

Res run_alone(Spec const& s)
{
    prog::ScopedFs fs;
    return run(s);
}

static std::string dv(std::string const& name, std::vector<double> const& a, std::vector<double> const& b, double rtol)
{
    if (a.size() != b.size()) return name + ": " + std::to_string(a.size()) + " values instead of " + std::to_string(b.size());
    double scale = 0;
    for (double x : a)
        if (std::isfinite(x)) scale = std::fmax(scale, std::fabs(x));
    for (double x : b)
        if (std::isfinite(x)) scale = std::fmax(scale, std::fabs(x));
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!vh::close(a[i], b[i], 0, rtol * scale)) return vh::cat(name, "[", i, "]: ", a[i], " vs ", b[i]);
    return "";
}

std::string diff(Snap const& a, Snap const& b, double rtol, bool counters)
{
    std::string e;
    auto add = [&](std::string const& x) {
        if (!x.empty() && e.size() < 500) e += (e.empty() ? "" : "; ") + x;
    };
    if (a.n != b.n) return "grids of different sizes";
    if (a.iter != b.iter) add(vh::cat("iteration ", a.iter, " vs ", b.iter));
    if (!vh::close(a.t, b.t, rtol, rtol)) add(vh::cat("time ", a.t, " vs ", b.t));
    if (counters) {
        if (a.output_id != b.output_id) add(vh::cat("output_id ", a.output_id, " vs ", b.output_id));
        if (a.iter_output_id != b.iter_output_id) add(vh::cat("iter_output_id ", a.iter_output_id, " vs ", b.iter_output_id));
        if (a.time_output_id != b.time_output_id) add(vh::cat("time_output_id ", a.time_output_id, " vs ", b.time_output_id));
    }
    if (a.gamma != b.gamma) add("gamma");
    add(dv("rho", a.rho, b.rho, rtol));
    add(dv("P", a.P, b.P, rtol));
    add(dv("E", a.E, b.E, rtol));
    add(dv("T", a.T, b.T, rtol));
    // velocities share one scale
    {
        std::vector<double> ua, ub;
        for (int d = 0; d < 3; ++d) {
            ua.insert(ua.end(), a.u[static_cast<std::size_t>(d)].begin(), a.u[static_cast<std::size_t>(d)].end());
            ub.insert(ub.end(), b.u[static_cast<std::size_t>(d)].begin(), b.u[static_cast<std::size_t>(d)].end());
        }
        double cs = 0; // sound speed as the scale of a gas at rest
        for (std::size_t i = 0; i < a.rho.size(); ++i)
            if (a.rho[i] > 0 && a.P[i] > 0) cs = std::fmax(cs, std::sqrt(a.P[i] / a.rho[i]));
        ua.push_back(cs);
        ub.push_back(cs);
        add(dv("u", ua, ub, rtol));
    }
    if (a.fx.size() != b.fx.size()) add("number of scalars");
    else
        for (std::size_t q = 0; q < a.fx.size(); ++q) add(dv("fx" + std::to_string(q), a.fx[q], b.fx[q], rtol));
    for (int d = 0; d < 3; ++d) {
        add(dv("x" + std::to_string(d), a.x[static_cast<std::size_t>(d)], b.x[static_cast<std::size_t>(d)], rtol));
        add(dv("x" + std::to_string(d) + "_ng", a.x_ng[static_cast<std::size_t>(d)], b.x_ng[static_cast<std::size_t>(d)], rtol));
    }
    return e;
}

std::string diff(std::vector<Snap> const& a, std::vector<Snap> const& b, double rtol, bool counters)
{
    if (a.size() != b.size()) return vh::cat(a.size(), " snapshots vs ", b.size());
    for (std::size_t i = 0; i < a.size(); ++i) {
        if (a[i].path != b[i].path) return "file " + a[i].path + " vs " + b[i].path;
        std::string const d = diff(a[i], b[i], rtol, counters);
        if (!d.empty()) return a[i].path + ": " + d;
    }
    return "";
}

} // namespace sim
