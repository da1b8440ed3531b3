#include "ref.hpp"

#include <algorithm>
#include <cmath>
#include <filesystem>
#include <iomanip>
#include <numbers>
#include <sstream>
#include <stdexcept>

#include "kshim_runtime.hpp"

namespace ref {

static double const pi = std::numbers::pi;

// ------------------------------------------------------------------ equations of state
double arad()
{
    double const h = 6.62607015e-34, c = 2.99792458e8;
    return 8 * std::pow(pi, 5) * std::pow(kb, 4) / (15 * std::pow(h * c, 3));
}
double Eos::gas_constant() const { return kb / (mu * mp); }
double Eos::evol_from_temp(double rho, double T) const { return rho * gas_constant() * T / (gamma - 1) + (rad ? arad() * std::pow(T, 4) : 0); }
double Eos::pres_from_temp(double rho, double T) const { return rho * gas_constant() * T + (rad ? arad() * std::pow(T, 4) / 3 : 0); }
// positive root of a x^4 + b x = c, by bisection on the floating-point line then Newton
static double root(double a, double b, double c)
{
    if (std::isnan(c) || std::isnan(b)) return NAN;
    if (c == 0) return 0;
    double lo = 0, hi = std::min(c / b, std::pow(c / a, 0.25));
    for (int i = 0; i < 60; ++i) {
        double const m = (lo + hi) / 2;
        (a * m * m * m * m + b * m > c ? hi : lo) = m;
    }
    double x = (lo + hi) / 2;
    for (int i = 0; i < 4; ++i) x -= (a * x * x * x * x + b * x - c) / (4 * a * x * x * x + b);
    return x;
}
double Eos::temp_from_pres(double rho, double P) const
{
    double const b = rho * gas_constant();
    return rad ? root(arad() / 3, b, P) : P / b;
}
double Eos::temp_from_evol(double rho, double e) const
{
    double const b = rho * gas_constant() / (gamma - 1);
    return rad ? root(arad(), b, e) : e / b;
}
double Eos::evol(double rho, double P) const { return rad ? evol_from_temp(rho, temp_from_pres(rho, P)) : P / (gamma - 1); }
double Eos::pres(double rho, double e) const { return rad ? pres_from_temp(rho, temp_from_evol(rho, e)) : e * (gamma - 1); }
double Eos::sound(double rho, double P) const
{
    if (!rad) return std::sqrt(gamma * P / rho);
    // c^2 = (dP/drho)_T + T / (rho^2 cv) (dP/dT)_rho^2
    double const T = temp_from_pres(rho, P), R = gas_constant();
    double const cv = R / (gamma - 1) + 4 * arad() * T * T * T / rho;
    double const pt = rho * R + 4 * arad() * T * T * T / 3;
    return std::sqrt(R * T + T * pt * pt / (rho * rho * cv));
}

static double ek(V3 const& u, double rho) { return rho * (u[0] * u[0] + u[1] * u[1] + u[2] * u[2]) / 2; }
Cons cons(Prim const& p, Eos const& e) { return {p.rho, {p.rho * p.u[0], p.rho * p.u[1], p.rho * p.u[2]}, e.evol(p.rho, p.P) + ek(p.u, p.rho)}; }
Prim prim(Cons const& c, Eos const& e)
{
    V3 const u {c.m[0] / c.rho, c.m[1] / c.rho, c.m[2] / c.rho};
    return {c.rho, u, e.pres(c.rho, c.E - ek(u, c.rho))};
}
Cons flux(Prim const& p, int d, Eos const& e)
{
    Cons f = cons(p, e);
    double const un = p.u[d];
    f.E = (f.E + p.P) * un;
    f.rho *= un;
    for (auto& m : f.m) m *= un;
    f.m[d] += p.P;
    return f;
}
static Cons axpy(Cons const& a, double s, Cons const& b) // a + s b
{
    return {a.rho + s * b.rho, {a.m[0] + s * b.m[0], a.m[1] + s * b.m[1], a.m[2] + s * b.m[2]}, a.E + s * b.E};
}
static Cons scale(Cons const& a, double s) { return {a.rho * s, {a.m[0] * s, a.m[1] * s, a.m[2] * s}, a.E * s}; }

Cons riemann(std::string const& solver, Cons const& L, Cons const& R, int d, Eos const& eos)
{
    Prim const l = prim(L, eos), r = prim(R, eos);
    double const cl = eos.sound(l.rho, l.P), cr = eos.sound(r.rho, r.P);
    if (solver == "Low Mach") { // Lagrange-projection splitting with low Mach correction
        double const a = 1.1 * std::fmax(l.rho * cl, r.rho * cr);
        double const us = 0.5 * (l.u[d] + r.u[d]) - (r.P - l.P) / (2 * a);
        double const th = std::fmin(1., std::fabs(us) / std::fmin(cl, cr));
        double const ps = 0.5 * (l.P + r.P) - 0.5 * th * a * (r.u[d] - l.u[d]);
        Cons f = scale(us > 0 ? L : R, us);
        f.m[d] += ps;
        f.E += ps * us;
        return f;
    }
    double const sl = std::fmin(l.u[d] - cl, r.u[d] - cr), sr = std::fmax(l.u[d] + cl, r.u[d] + cr);
    Cons const fl = flux(l, d, eos), fr = flux(r, d, eos);
    if (sl >= 0) return fl;
    if (sr <= 0) return fr;
    if (solver == "HLL") {
        Cons f = axpy(axpy(scale(fl, sr), -sl, fr), sl * sr, axpy(R, -1, L));
        return scale(f, 1 / (sr - sl));
    }
    // HLLC
    double const al = l.rho * (sl - l.u[d]), ar = r.rho * (sr - r.u[d]);
    double const ss = (r.P - l.P + l.u[d] * al - r.u[d] * ar) / (al - ar);
    auto star = [&](Prim const& p, Cons const& U, Cons const& F, double s) {
        double const f = p.rho * (s - p.u[d]) / (s - ss);
        Cons us {f, {f * p.u[0], f * p.u[1], f * p.u[2]}, 0};
        us.m[d] = f * ss;
        us.E = f * (U.E / p.rho + (ss - p.u[d]) * (ss + p.P / (p.rho * (s - p.u[d]))));
        return axpy(F, s, axpy(us, -1, U));
    };
    return ss > 0 ? star(l, L, fl, sl) : star(r, R, fr, sr);
}

double limited_slope(std::string const& k, double r, double l)
{
    if (k == "Constant" || !(l * r > 0)) return 0;
    if (k == "VanLeer") return 2 * l * r / (l + r);
    if (k == "Minmod") return std::fabs(l) < std::fabs(r) ? l : r;
    if (k == "VanAlbada") return l * r * (l + r) / (l * l + r * r);
    throw std::runtime_error("ref: limiter " + k);
}

// ------------------------------------------------------------------ metric
double area(int ndim, bool sph, int d, V3 const& lo, V3 const& hi)
{
    if (!sph) {
        double a = 1;
        for (int q = 0; q < 3; ++q)
            if (q != d) a *= hi[q] - lo[q];
        return a;
    }
    // full angular extents for the directions that do not exist
    double const mu = ndim >= 2 ? std::cos(lo[1]) - std::cos(hi[1]) : 2;
    double const dphi = ndim == 3 ? hi[2] - lo[2] : 2 * pi;
    double const dr2 = (hi[0] - lo[0]) * (hi[0] + lo[0]) / 2;
    if (d == 0) return lo[0] * lo[0] * mu * dphi;
    if (d == 1) return dr2 * std::sin(lo[1]) * dphi;
    return dr2 * (hi[1] - lo[1]);
}
double volume(int ndim, bool sph, V3 const& lo, V3 const& hi)
{
    if (!sph) return (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2]);
    double const mu = ndim >= 2 ? std::cos(lo[1]) - std::cos(hi[1]) : 2;
    double const dphi = ndim == 3 ? hi[2] - lo[2] : 2 * pi;
    return (std::pow(hi[0], 3) - std::pow(lo[0], 3)) / 3 * mu * dphi;
}

// ------------------------------------------------------------------ parameters
int force_ndim = 0;

Params params(sim::Spec const& s)
{
    Params p;
    auto raw = [&](std::string const& sec, std::string const& key) -> std::string const* {
        for (auto const& x : s.ini.sec)
            if (x.first == sec)
                for (auto const& kv : x.second)
                    if (kv.first == key) return &kv.second;
        return nullptr;
    };
    auto str = [&](char const* sec, std::string const& key, std::string const& def) {
        auto const* v = raw(sec, key);
        return v ? *v : def;
    };
    auto dbl = [&](char const* sec, char const* key, double def) {
        auto const* v = raw(sec, key);
        return v ? std::stod(*v) : def;
    };
    p.ndim = force_ndim > 0 ? force_ndim : sim::ndim();
    p.spherical = sim::spherical();
    p.eos.rad = sim::radgas();
    p.eos.gamma = dbl("Perfect Gas", "gamma", 5. / 3);
    p.eos.mu = dbl("Perfect Gas", "mu", 1);
    p.gravity = sim::gravity();
    p.g = {dbl("Gravity", "gx0", 0), dbl("Gravity", "gx1", 0), dbl("Gravity", "gx2", 0)};
    p.M = dbl("Gravity", "M", 1);
    p.n = s.n;
    for (int d = 0; d < p.ndim; ++d) p.ng[d] = s.ng;
    p.nfx = s.nfx;
    for (int d = 0; d < 3; ++d) {
        std::string const b = "x" + std::to_string(d);
        p.xmin[d] = dbl("Grid", (b + "min").c_str(), 0);
        p.xmax[d] = dbl("Grid", (b + "max").c_str(), 1);
        if (!s.faces[0].empty())
            p.faces[d] = s.faces[d];
        else {
            double const dx = (p.xmax[d] - p.xmin[d]) / p.n[d];
            for (int i = -p.ng[d]; i <= p.n[d] + p.ng[d]; ++i) p.faces[d].push_back(p.xmin[d] + i * dx);
        }
    }
    p.limiter = str("Hydro", "reconstruction", "VanLeer");
    p.solver = str("Hydro", "riemann_solver", "HLL");
    p.user_step = s.user_step ? "UserDefined" : str("User step", "user_step", "Off");
    p.pressure_fix = str("Pressure fix", "pressure_fix", "Off");
    p.eps_pf = dbl("Pressure fix", "eps_pf", 1e-6);
    static char const* const side[] = {"_left", "_right"};
    for (int d = 0; d < p.ndim; ++d)
        for (int f = 0; f < 2; ++f) {
            std::string const b = "BC_X" + std::to_string(d);
            p.bc[2 * d + f] = str("Boundary Condition", b + side[f], str("Boundary Condition", b, str("Boundary Condition", "BC", "")));
        }
    std::string const pr = str("Boundary Condition", "priority", "");
    if (pr.empty())
        for (int i = 0; i < 2 * p.ndim; ++i) p.bc_order.push_back(i);
    else { // from high to low: the first name is applied last
        std::stringstream ss(pr);
        std::string w;
        while (ss >> w && static_cast<int>(p.bc_order.size()) < 2 * p.ndim) {
            int const d = w[0] == 'X' ? 0 : w[0] == 'Y' ? 1 : 2;
            p.bc_order.insert(p.bc_order.begin(), 2 * d + (w.substr(1) == "_right"));
        }
    }
    p.t_ini = dbl("Run", "t_ini", 0);
    p.t_end = dbl("Run", "t_end", 0.2);
    p.cfl = dbl("Run", "cfl", 0.4);
    p.max_iter = static_cast<int>(dbl("Output", "max_iter", 10000));
    p.iter_frequency = static_cast<int>(dbl("Output", "iter_frequency", 0));
    p.time_frequency = dbl("Output", "time_frequency", 0);
    p.time_first = dbl("Output", "time_first_output", p.t_ini + p.time_frequency);
    p.rmax_shift = dbl("Problem", "rmax_shift", 1e20);
    p.directory = str("Output", "directory", ".");
    p.prefix = str("Output", "prefix", "result");
    return p;
}

// ------------------------------------------------------------------ simulation
Sim::Sim(sim::Spec const& s) : p(params(s)), spec(&s)
{
    for (int d = 0; d < 3; ++d) N[d] = p.n[d] + 2 * p.ng[d];
    x = p.faces;
    std::size_t const tot = static_cast<std::size_t>(N[0]) * N[1] * N[2];
    c.resize(tot);
    w.resize(tot);
    fx.assign(static_cast<std::size_t>(p.nfx), std::vector<double>(tot, 0));
    t = p.t_ini;
}

double Sim::A(int d, std::array<int, 3> a) const
{
    V3 const lo {x[0][a[0]], x[1][a[1]], x[2][a[2]]};
    std::array<int, 3> b = a;
    // the cell beyond the last ghost cell does not exist, but its lower face does
    for (int q = 0; q < 3; ++q) b[q] = std::min<int>(a[q] + 1, static_cast<int>(x[q].size()) - 1);
    return area(p.ndim, p.spherical, d, lo, {x[0][b[0]], x[1][b[1]], x[2][b[2]]});
}
double Sim::V(std::array<int, 3> a) const
{
    return volume(p.ndim, p.spherical, {x[0][a[0]], x[1][a[1]], x[2][a[2]]}, {x[0][a[0] + 1], x[1][a[1] + 1], x[2][a[2] + 1]});
}
double Sim::acc(int d, std::array<int, 3> a) const
{
    if (p.gravity == "Uniform") return p.g[d];
    return d == 0 ? grav[a[0]] : 0.;
}

void Sim::gravity()
{
    if (p.gravity == "Uniform") return;
    grav.assign(static_cast<std::size_t>(N[0]), 0);
    auto xc = [&](int i) { return (x[0][i] + x[0][i + 1]) / 2; };
    // mass inside the centre of each cell: central mass + shells of mean density
    double inside = p.M; // up to the lower face of the cell
    for (int i = 0; i < N[0]; ++i) {
        double m = p.M;
        if (p.gravity == "Internal_mass" && i >= p.ng[0]) {
            double rv = 0, vv = 0;
            for (int k = p.ng[2]; k < p.ng[2] + p.n[2]; ++k)
                for (int j = p.ng[1]; j < p.ng[1] + p.n[1]; ++j) {
                    double const v = V({i, j, k});
                    rv += v * c[at(i, j, k)].rho;
                    vv += v;
                }
            double const mean = rv / vv;
            auto shell = [&](double a, double b) { return mean * 4 * pi / 3 * (b * b * b - a * a * a); };
            m = inside + shell(x[0][i], xc(i));
            inside = m + shell(xc(i), x[0][i + 1]);
        }
        grav[i] = -G * m / (xc(i) * xc(i));
    }
}

void Sim::boundaries()
{
    // periodic images in every direction
    for (int d = 0; d < p.ndim; ++d) {
        int const g = p.ng[d], n = p.n[d];
        for (int k = 0; k < N[2]; ++k)
            for (int j = 0; j < N[1]; ++j)
                for (int i = 0; i < N[0]; ++i) {
                    std::array<int, 3> a {i, j, k}, b = a;
                    if (a[d] < g)
                        b[d] += n;
                    else if (a[d] >= g + n)
                        b[d] -= n;
                    else
                        continue;
                    c[at(a)] = c[at(b)];
                    for (auto& f : fx) f[at(a)] = f[at(b)];
                }
    }
    for (int id : p.bc_order) {
        int const d = id / 2, f = id % 2, g = p.ng[d], n = p.n[d];
        std::string const& kind = p.bc[id];
        if (kind == "Periodic") continue;
        if (kind == "UserDefined" && !spec->user_value && !boundary_state) continue;
        for (int k = 0; k < N[2]; ++k)
            for (int j = 0; j < N[1]; ++j)
                for (int i = 0; i < N[0]; ++i) {
                    std::array<int, 3> a {i, j, k}, b = a;
                    if (f == 0 ? a[d] >= g : a[d] < g + n) continue;
                    if (kind == "UserDefined" && boundary_state) {
                        V3 m {};
                        for (int q = 0; q < 3; ++q) m[q] = (x[q][a[q]] + x[q][a[q] + 1]) / 2;
                        c[at(a)] = cons(boundary_state(d, f, m), p.eos);
                        continue;
                    }
                    if (kind == "UserDefined") {
                        sim::Cell const v = spec->user_value(d, f);
                        V3 u = v.u;
                        for (int q = p.ndim; q < 3; ++q) u[q] = 0;
                        c[at(a)] = cons({v.rho, u, v.P}, p.eos);
                        for (std::size_t q = 0; q < fx.size(); ++q) fx[q][at(a)] = q < v.fx.size() ? v.fx[q] : 0.;
                        continue;
                    }
                    if (kind == "NullGradient")
                        b[d] = f == 0 ? g : g + n - 1;
                    else if (kind == "Reflexive")
                        b[d] = f == 0 ? 2 * g - 1 - a[d] : 2 * (g + n) - 1 - a[d];
                    else
                        throw std::runtime_error("ref: boundary condition " + kind);
                    c[at(a)] = c[at(b)];
                    if (kind == "Reflexive") c[at(a)].m[d] = -c[at(a)].m[d];
                    for (auto& q : fx) q[at(a)] = q[at(b)];
                }
    }
}

void Sim::primitives()
{
    for (std::size_t i = 0; i < c.size(); ++i) w[i] = prim(c[i], p.eos);
}

double Sim::inverse_dt() const
{
    double r = 0;
    for (int k = 0; k < N[2]; ++k)
        for (int j = 0; j < N[1]; ++j)
            for (int i = 0; i < N[0]; ++i) {
                std::array<int, 3> const a {i, j, k};
                Prim const& q = w[at(a)];
                double const cs = p.eos.sound(q.rho, q.P);
                double s = 0;
                for (int d = 0; d < p.ndim; ++d) {
                    double dx = x[d][a[d] + 1] - x[d][a[d]];
                    if (p.spherical && d >= 1) dx *= (x[0][i] + x[0][i + 1]) / 2;
                    if (p.spherical && d == 2) dx *= std::sin((x[1][j] + x[1][j + 1]) / 2);
                    s += (std::fabs(q.u[d]) + cs) / dx;
                }
                r = std::max(r, s);
            }
    return r;
}

double Sim::min_internal_energy() const
{
    double r = HUGE_VAL;
    interior([&](std::array<int, 3> a) {
        Cons const& q = c[at(a)];
        double const e = q.E - (q.m[0] * q.m[0] + q.m[1] * q.m[1] + q.m[2] * q.m[2]) / q.rho / 2;
        if (std::isnan(e) || std::isnan(r))
            r = NAN;
        else
            r = std::min(r, e);
    });
    return r;
}

double Sim::mass() const
{
    double m = 0;
    interior([&](std::array<int, 3> a) { m += V(a) * c[at(a)].rho; });
    return m;
}

namespace {
struct Faces // states at the two faces of each direction
{
    std::array<std::array<Cons, 2>, 3> U;
    std::array<std::array<std::vector<double>, 2>, 3> s;
};
} // namespace

void Sim::step(double dt)
{
    int const nd = p.ndim;
    auto nb = [](std::array<int, 3> a, int d, int s) {
        a[d] += s;
        return a;
    };
    // geometric source terms of a cell from the states at its faces (momentum only)
    auto geometric = [&](std::array<int, 3> a, int d, Prim const& l, Prim const& r, V3& m) {
        if (!p.spherical) return;
        double const sl = A(d, a), sr = A(d, nb(a, d, 1)), v = V(a);
        auto mean = [&](int q) { return (l.rho * l.u[q] * l.u[q] + r.rho * r.u[q] * r.u[q]) / 2; };
        if (d == 0) {
            m[0] += (l.P + r.P) / 2 * (sr - sl) / v; // 2 P / r
            double const k = (x[0][a[0] + 1] - x[0][a[0]]) / (x[0][a[0] + 1] + x[0][a[0]]);
            for (int q = 1; q < nd; ++q) {
                m[0] += mean(q) * (sr - sl) / 2 / v; // rho u_q^2 / r
                m[q] -= k * (r.rho * r.u[q] * r.u[0] * sr + l.rho * l.u[q] * l.u[0] * sl) / v; // rho u_q u_r / r
            }
        }
        if (d == 1) {
            m[1] += (l.P + r.P) / 2 * (sr - sl) / v;
            if (nd == 3) {
                m[1] += mean(2) * (sr - sl) / v;
                double const a0 = std::sin(x[1][a[1]]), a1 = std::sin(x[1][a[1] + 1]);
                m[2] -= (a1 - a0) / (a1 + a0) * (r.rho * r.u[2] * r.u[1] * sr + l.rho * l.u[2] * l.u[1] * sl) / v;
            }
        }
    };
    std::vector<Faces> F(c.size());
    // --- predictor: cells of the interior and one layer around
    std::array<int, 3> lo, hi;
    for (int d = 0; d < 3; ++d) {
        lo[d] = p.ng[d] - (d < nd ? 1 : 0);
        hi[d] = p.ng[d] + p.n[d] + (d < nd ? 1 : 0);
    }
    double const h = dt / 2;
    for (int k = lo[2]; k < hi[2]; ++k)
        for (int j = lo[1]; j < hi[1]; ++j)
            for (int i = lo[0]; i < hi[0]; ++i) {
                std::array<int, 3> const a {i, j, k};
                std::array<std::array<Prim, 2>, 3> q;
                Faces& f = F[at(a)];
                auto face = [&](auto const& get, int d, int s) {
                    auto dx = [&](std::array<int, 3> b) { return x[d][b[d] + 1] - x[d][b[d]]; };
                    auto const m = nb(a, d, -1), pl = nb(a, d, 1);
                    double const dr = (get(at(pl)) - get(at(a))) / ((dx(a) + dx(pl)) / 2), dl = (get(at(a)) - get(at(m))) / ((dx(a) + dx(m)) / 2);
                    return get(at(a)) + (s == 0 ? -1 : 1) * dx(a) / 2 * limited_slope(p.limiter, dr, dl);
                };
                for (int d = 0; d < nd; ++d)
                    for (int s = 0; s < 2; ++s) {
                        q[d][s].rho = face([&](std::size_t n) { return w[n].rho; }, d, s);
                        for (int e = 0; e < nd; ++e) q[d][s].u[e] = face([&](std::size_t n) { return w[n].u[e]; }, d, s);
                        q[d][s].P = face([&](std::size_t n) { return w[n].P; }, d, s);
                        f.U[d][s] = cons(q[d][s], p.eos);
                        for (auto const& sc : fx) f.s[d][s].push_back(face([&](std::size_t n) { return sc[n]; }, d, s));
                    }
                // rate of change of the cell, from its own faces
                Cons rate;
                std::vector<double> srate(fx.size(), 0.);
                V3 m {0, 0, 0};
                for (int d = 0; d < nd; ++d) {
                    double const sl = A(d, a) / V(a), sr = A(d, nb(a, d, 1)) / V(a);
                    Cons const fl = flux(q[d][0], d, p.eos), fr = flux(q[d][1], d, p.eos);
                    rate = axpy(axpy(rate, sl, fl), -sr, fr);
                    geometric(a, d, q[d][0], q[d][1], m);
                    for (std::size_t n = 0; n < fx.size(); ++n) srate[n] += sl * fl.rho * f.s[d][0][n] - sr * fr.rho * f.s[d][1][n];
                }
                for (int d = 0; d < nd; ++d) rate.m[d] += m[d];
                for (int d = 0; d < nd; ++d)
                    for (int s = 0; s < 2; ++s) {
                        Cons const old = f.U[d][s];
                        Cons& U = f.U[d][s];
                        U = axpy(U, h, rate);
                        for (int e = 0; e < nd; ++e) {
                            U.m[e] += h * acc(e, a) * old.rho;
                            U.E += h * acc(e, a) * old.m[e];
                        }
                        for (std::size_t n = 0; n < fx.size(); ++n) f.s[d][s][n] = (f.s[d][s][n] * old.rho + h * srate[n]) / U.rho;
                    }
            }
    // --- corrector
    std::vector<Cons> nc = c;
    auto nfx = fx;
    interior([&](std::array<int, 3> a) {
        Cons U = c[at(a)];
        std::vector<double> sc(fx.size());
        for (std::size_t n = 0; n < fx.size(); ++n) sc[n] = fx[n][at(a)] * U.rho;
        V3 m {0, 0, 0};
        for (int d = 0; d < nd; ++d) {
            auto const am = nb(a, d, -1), ap = nb(a, d, 1);
            Faces const &f = F[at(a)], &fm = F[at(am)], &fp = F[at(ap)];
            Cons const fl = riemann(p.solver, fm.U[d][1], f.U[d][0], d, p.eos), fr = riemann(p.solver, f.U[d][1], fp.U[d][0], d, p.eos);
            double const sl = dt * A(d, a) / V(a), sr = dt * A(d, ap) / V(a);
            U = axpy(axpy(U, sl, fl), -sr, fr);
            if (p.spherical) geometric(a, d, prim(f.U[d][0], p.eos), prim(f.U[d][1], p.eos), m);
            for (std::size_t n = 0; n < fx.size(); ++n)
                sc[n] += sl * fl.rho * (fl.rho < 0 ? f.s[d][0][n] : fm.s[d][1][n]) - sr * fr.rho * (fr.rho < 0 ? fp.s[d][0][n] : f.s[d][1][n]);
        }
        for (int d = 0; d < nd; ++d) {
            U.m[d] += dt * m[d] + dt * acc(d, a) * c[at(a)].rho;
            U.E += dt * acc(d, a) * c[at(a)].m[d];
        }
        for (std::size_t n = 0; n < fx.size(); ++n) nfx[n][at(a)] = std::clamp(sc[n] / U.rho, 0., 1.);
        // energy repair
        if (p.pressure_fix == "On") {
            auto kin = [](Cons const& q) { return (q.m[0] * q.m[0] + q.m[1] * q.m[1] + q.m[2] * q.m[2]) / q.rho / 2; };
            Cons const& old = c[at(a)];
            double const e0 = old.E - kin(old), k0 = kin(old);
            if (e0 < p.eps_pf * k0) {
                double div = 0, dive = 0;
                for (int d = 0; d < nd; ++d) {
                    auto const am = nb(a, d, -1), ap = nb(a, d, 1);
                    auto un = [&](Cons const& q) { return q.m[d] / q.rho; };
                    double const ul = (un(F[at(am)].U[d][1]) + un(F[at(a)].U[d][0])) / 2, ur = (un(F[at(a)].U[d][1]) + un(F[at(ap)].U[d][0])) / 2;
                    auto eint = [&](std::array<int, 3> b) { return c[at(b)].E - kin(c[at(b)]); };
                    div += (ur * A(d, ap) - ul * A(d, a)) / V(a);
                    dive += (ur * A(d, ap) * eint(ur > 0 ? a : ap) - ul * A(d, a) * eint(ul < 0 ? a : am)) / V(a);
                }
                double const P = p.eos.pres(old.rho, e0);
                double const de_pf = -dt * (P * div + dive), de_god = U.E - kin(U) - e0;
                double const al = e0 < p.eps_pf / 10 * k0 ? 0. : std::pow(e0 / (k0 * p.eps_pf), 2);
                U.E = e0 + al * de_god + (1 - al) * de_pf + kin(U);
            }
        }
        if (p.user_step == "Heat_nickel") {
            double const day = 86400, MeV = 1.602176634e-13, mni = 55.9421278 * 1.66053906660e-27;
            double const tn = 8.8 * day, tc = 111.3 * day, qn = 1.75 * MeV, qc = 3.73 * MeV;
            double const eps = ((qn * (tc / tn - 1) - qc) * std::exp(-t / tn) + qc * std::exp(-t / tc)) / (mni * (tc - tn));
            U.E += nfx[0][at(a)] * U.rho * eps * dt;
        }
        if (p.user_step == "UserDefined" && spec->user_heat) U.E += spec->user_heat(a[0] - p.ng[0], a[1] - p.ng[1], a[2] - p.ng[2], U.rho, t, dt);
        nc[at(a)] = U;
    });
    c = std::move(nc);
    fx = std::move(nfx);
}

void Sim::shift()
{
    // every cell takes the state of the next one outwards
    for (int k = 0; k < N[2]; ++k)
        for (int j = 0; j < N[1]; ++j)
            for (int i = 0; i + 1 < N[0]; ++i) {
                c[at(i, j, k)] = c[at(i + 1, j, k)];
                for (auto& f : fx) f[at(i, j, k)] = f[at(i + 1, j, k)];
            }
    auto& f = x[0];
    std::size_t const n = f.size();
    double const r = (f[n - 1] - f[n - 2]) / (f[n - 2] - f[n - 3]);
    double const last = f[n - 1] + (f[n - 1] - f[n - 2]) * r;
    f.erase(f.begin());
    f.push_back(last);
}

void Sim::output()
{
    ++output_id;
    sim::Snap s;
    std::ostringstream o;
    o << p.directory << "/" << p.prefix << "_" << std::setw(8) << std::setfill('0') << output_id << ".h5";
    s.path = std::filesystem::path(o.str()).lexically_normal().string();
    s.n = p.n;
    s.iter = iter;
    s.output_id = output_id;
    s.iter_output_id = iter_output_id;
    s.time_output_id = time_output_id;
    s.t = t;
    s.gamma = p.eos.gamma;
    s.fx.resize(fx.size());
    interior([&](std::array<int, 3> a) {
        std::size_t const n = at(a);
        s.rho.push_back(c[n].rho);
        s.E.push_back(c[n].E);
        s.P.push_back(w[n].P);
        s.T.push_back(p.eos.temp_from_pres(w[n].rho, w[n].P));
        for (int d = 0; d < p.ndim; ++d) s.u[d].push_back(w[n].u[d]);
        for (std::size_t q = 0; q < fx.size(); ++q) s.fx[q].push_back(fx[q][n]);
    });
    for (int d = 0; d < 3; ++d) {
        s.x[d] = x[d];
        s.x_ng[d].assign(x[d].begin() + p.ng[d], x[d].end() - p.ng[d]);
    }
    snaps.push_back(std::move(s));
}

void Sim::run()
{
    interior([&](std::array<int, 3> a) {
        sim::Cell const v = spec->init(a[0] - p.ng[0], a[1] - p.ng[1], a[2] - p.ng[2]);
        V3 u = v.u;
        for (int q = p.ndim; q < 3; ++q) u[q] = 0;
        c[at(a)] = cons({v.rho, u, v.P}, p.eos);
        for (std::size_t q = 0; q < fx.size(); ++q) fx[q][at(a)] = q < v.fx.size() ? v.fx[q] : 0.;
    });
    boundaries();
    gravity();
    primitives();
    if (p.iter_frequency > 0 || p.time_frequency > 0) {
        ++iter_output_id;
        output();
    }
    initial_mass = mass();
    bool stop = false;
    while (!stop) {
        double dt = p.cfl / inverse_dt();
        bool out = false;
        if (p.iter_frequency > 0 && iter + 1 >= (iter_output_id + 1) * p.iter_frequency) {
            out = true;
            ++iter_output_id;
        }
        if (p.time_frequency > 0) {
            double const next = p.time_first + (time_output_id + 1) * p.time_frequency;
            if (next <= p.t_end + 1e-9 * p.time_frequency && t + dt >= next) {
                dt = next - t;
                if (dt <= 0) {
                    error = "negative time step";
                    return;
                }
                out = true;
                ++time_output_id;
            }
        }
        if (t + dt >= p.t_end) {
            dt = p.t_end - t;
            out = stop = true;
        }
        if (iter + 1 >= p.max_iter) out = stop = true;
        double const e = min_internal_energy();
        if (!(e >= 0)) {
            output();
            error = "invalid energy";
            return;
        }
        step(dt);
        boundaries();
        if (shifting && (criterion ? criterion(*this) : spec->shift && spec->shift(shift_calls++))) {
            if (x[0][p.n[0] + p.ng[0] + 1] >= p.rmax_shift) {
                shifting = false;
                p.bc[1] = "NullGradient";
            } else
                shift();
            boundaries();
        }
        primitives();
        gravity();
        t += dt;
        ++iter;
        if (out) output();
    }
    final_mass = mass();
}

Conform conform(sim::Spec const& s, double rtol)
{
    Conform r {{}, Sim(s), ""};
    try {
        r.model.run();
    } catch (std::exception const& e) {
        r.diff = std::string("the reference failed: ") + e.what();
        return r;
    }
    r.res = sim::run_alone(s);
    if (!r.model.error.empty()) {
        // the program has to stop as well, on every process, after the same snapshots
        bool all = !r.res.out.mpi.deadlock && r.res.out.mpi.error.empty();
        for (int rc : r.res.out.rc) all = all && rc != 0;
        if (!all)
            r.diff = "the reference stops (" + r.model.error + "), the run: " + r.res.out.summary();
        else
            r.diff = sim::diff(r.res.snaps, r.model.snaps, rtol);
    } else if (!r.res.ok())
        r.diff = r.res.problem;
    else
        r.diff = sim::diff(r.res.snaps, r.model.snaps, rtol);
    vh::trace_validated();
    for (auto const& q : r.res.snaps) vh::state(q.hash());
    vh::transitions(static_cast<std::uint64_t>(r.model.iter));
    return r;
}

} // namespace ref
