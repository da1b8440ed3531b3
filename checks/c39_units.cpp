// C39: the same problem told in another system of units evolves in the same way.
#include "closed.hpp"
#include "component.hpp"

namespace {

char const* const names[] = {"X", "Y", "Z"};
char const* const kinds[] = {"NullGradient", "Reflexive", "Periodic", "UserDefined"};

// powers of two, so that not even the rounding changes
struct Units
{
    int rho = 0, vel = 0, len = 0, mu = 0;
    double f(int e) const { return std::ldexp(1., e); }
    double density() const { return f(rho); }
    double velocity() const { return f(vel); }
    double length() const { return f(len); }
    double time() const { return f(len - vel); }
    double pressure() const { return f(rho + 2 * vel); }
    double temperature() const { return f(2 * vel + mu); }
    std::string name() const { return vh::cat("density 2^", rho, " velocity 2^", vel, " length 2^", len, " weight 2^", mu); }
};

struct Case
{
    std::array<int, 3> n {1, 1, 1};
    int variant = 0;
    std::string solver, limiter;
    sim::Init init;
    int steps = 4;
    std::array<int, 3> dims {1, 1, 1};
};

// told in the units w
sim::Spec spec(Case const& c, Units const& w)
{
    int const nd = sim::ndim(), v = c.variant;
    bool const sph = sim::spherical();
    double const pi = std::numbers::pi, us = alpha::uscale();
    sim::Spec s;
    s.n = c.n;
    s.ng = 2 + (v % 7 == 6);
    s.nfx = v % 3;
    // the domain
    ref::V3 const a = sph ? ref::V3 {1, 0.42 * pi, 0.1} : ref::V3 {-0.3, 0, 0.1}, b = sph ? ref::V3 {2.5, 0.55 * pi, 1.4} : ref::V3 {0.9, 0.9, 0.8};
    bool const own = v % 2; // a grid of the user
    for (std::size_t d = 0; d < 3; ++d) {
        bool const on = static_cast<int>(d) < nd;
        double const l = sph && d > 0 ? 1 : w.length();
        if (own) {
            s.faces[d] = closed::faces(a[d], closed::widths(b[d] - a[d], c.n[d], on ? (v + static_cast<int>(d)) % 4 : 0), on ? s.ng : 0, false);
            for (double& x : s.faces[d]) x *= l;
        }
        s.ini.set("Grid", vh::cat("x", d, "min"), a[d] * l).set("Grid", vh::cat("x", d, "max"), b[d] * l);
        if (!on) continue;
        bool const per = !sph && (v / 3 + static_cast<int>(d)) % 4 == 3;
        int const left = per ? 2 : (v + static_cast<int>(d)) % 2 ? (v % 5 == 2 && d == 0 ? 3 : 0) : 1, right = per ? 2 : (v / 2 + static_cast<int>(d)) % 2;
        s.ini.set("Boundary Condition", vh::cat("BC_X", d, "_left"), kinds[left]).set("Boundary Condition", vh::cat("BC_X", d, "_right"), kinds[right]);
    }
    auto told = [w](sim::Cell z) {
        z.rho *= w.density();
        for (double& u : z.u) u *= w.velocity();
        z.P *= w.pressure();
        return z;
    };
    s.init = [init = c.init, told](int i, int j, int k) { return told(init(i, j, k)); };
    s.user_value = [told, nfx = s.nfx](int, int) { return told(alpha::state(2, nfx)); };
    // what acts on the gas
    double const g = us * us * w.velocity() * w.velocity() / w.length() * (v % 4 == 1 ? 0 : 1);
    if (sim::gravity() == "Uniform") s.ini.set("Gravity", "gx0", 0.3 * g).set("Gravity", "gx1", nd > 1 ? -0.2 * g : 0).set("Gravity", "gx2", nd > 2 ? 0.15 * g : 0);
    else s.ini.set("Gravity", "M", 0.8 / ref::G * us * us * w.velocity() * w.velocity() * w.length());
    if (v % 4 == 3) s.ini.set("Pressure fix", "pressure_fix", "On").set("Pressure fix", "eps_pf", v % 8 == 3 ? 0.9 : v % 16 == 7 ? 2. : 9.); // of the alphabet, some states are below
    if (v % 5 == 4) {
        s.user_step = true;
        s.user_heat = [w, us](int i, int j, int k, double rho, double t, double dt) {
            // per unit of mass and time, fading
            return (0.05 + 0.01 * ((i + 2 * j + 3 * k) % 3)) * us * us * us * w.velocity() * w.velocity() / w.time() * rho * dt / (1 + t * us / w.time());
        };
    }
    if (v % 6 == 5) {
        s.shift = [](long q) { return q % 2 == 1; };
        s.ini.set("Problem", "rmax_shift", (b[0] + 5) * w.length());
    }
    s.ini.set("Perfect Gas", "mu", 0.7 * w.f(w.mu));
    s.ini.set("Hydro", "riemann_solver", c.solver).set("Hydro", "reconstruction", c.limiter);
    // when it is told
    double const tt = w.time() / us;
    s.ini.set("Run", "cfl", 0.4).set("Output", "max_iter", c.steps).set("Output", "iter_frequency", v % 3 == 0 ? 1 : v % 3 == 1 ? 2 : 0);
    if (v % 3 != 0) {
        double const t0 = v % 2 ? 0.3 * tt : 0;
        s.ini.set("Run", "t_ini", t0).set("Run", "t_end", t0 + 0.07 * tt).set("Output", "time_frequency", 0.013 * tt).set("Output", "max_iter", 10 * c.steps);
        if (v % 9 == 4) s.ini.set("Output", "time_first_output", t0 + 0.02 * tt);
    } else s.ini.set("Run", "t_end", 1e9 * tt);
    s.mpi.nranks = c.dims[0] * c.dims[1] * c.dims[2];
    for (int q = 0; q < nd; ++q) s.ini.set("Parallelization", vh::cat("mpi_dims_cart_x", q), c.dims[static_cast<std::size_t>(q)]);
    return s;
}

double largest(std::vector<double> const& v)
{
    double m = 0;
    for (double x : v) m = std::max(m, std::abs(x));
    return m;
}

// "" if b tells the same as a
std::string compare(Units const& w, sim::Snap const& a, sim::Snap const& b, double tol)
{
    if (a.iter != b.iter || a.output_id != b.output_id || a.iter_output_id != b.iter_output_id || a.time_output_id != b.time_output_id)
        return vh::cat("iteration ", a.iter, " output ", a.output_id, " against ", b.iter, " output ", b.output_id);
    if (a.n != b.n) return "sizes differ";
    if (!vh::close(a.t, b.t / w.time(), tol)) return vh::cat("time ", vh::num(a.t), " against ", vh::num(b.t / w.time()));
    auto field = [&](std::string const& nm, std::vector<double> const& p, std::vector<double> const& q, double unit, bool each) {
        if (p.size() != q.size()) return vh::cat(nm, ": sizes differ");
        double const scale = largest(p);
        for (std::size_t i = 0; i < p.size(); ++i)
            if (!vh::close(p[i], q[i] / unit, each ? tol : 0, each ? 0 : tol * scale)) return vh::cat("iteration ", a.iter, ", ", nm, " of cell ", i, ": ", vh::num(p[i]), " against ", vh::num(q[i] / unit));
        return std::string();
    };
    std::string e = field("density", a.rho, b.rho, w.density(), true);
    if (e.empty()) e = field("pressure", a.P, b.P, w.pressure(), false);
    if (e.empty()) e = field("energy", a.E, b.E, w.pressure(), true);
    if (e.empty()) e = field("temperature", a.T, b.T, w.temperature(), false);
    double v = 1e-300;
    for (int d = 0; d < sim::ndim(); ++d) v = std::max(v, largest(a.u[static_cast<std::size_t>(d)]));
    for (int d = 0; d < sim::ndim() && e.empty(); ++d)
        for (std::size_t i = 0; i < a.u[static_cast<std::size_t>(d)].size() && e.empty(); ++i) {
            double const p = a.u[static_cast<std::size_t>(d)][i], q = b.u[static_cast<std::size_t>(d)][i] / w.velocity();
            if (!vh::close(p, q, 0, tol * v)) e = vh::cat("iteration ", a.iter, ", velocity ", d, " of cell ", i, ": ", vh::num(p), " against ", vh::num(q));
        }
    for (std::size_t q = 0; q < a.fx.size() && e.empty(); ++q) e = field("scalar", a.fx[q], b.fx[q], 1, false);
    for (std::size_t d = 0; d < 3 && e.empty(); ++d) e = field(vh::cat("position ", d), a.x_ng[d], b.x_ng[d], sim::spherical() && d > 0 ? 1 : w.length(), false);
    return e;
}

void check(Case const& c, Units const& w)
{
    double const tol = sim::radgas() ? 1e-7 : 1e-11;
    auto const a = sim::run_alone(spec(c, {})), b = sim::run_alone(spec(c, w));
    if (!a.ok() || !b.ok()) {
        if (a.ok() != b.ok() || a.snaps.size() != b.snaps.size()) return vh::violate(vh::cat("one of the runs fails: ", w.name()), a.problem + "\n" + b.problem);
        vh::counter("both runs stop");
    }
    if (a.snaps.empty() || a.snaps.size() != b.snaps.size()) return vh::violate(vh::cat("number of outputs: ", w.name()), vh::cat(a.snaps.size(), " and ", b.snaps.size()));
    for (std::size_t q = 0; q < a.snaps.size(); ++q) {
        std::string const e = compare(w, a.snaps[q], b.snaps[q], tol);
        if (!e.empty()) return vh::violate(w.name(), e);
        vh::state(b.snaps[q].hash());
    }
    vh::transitions(2 * static_cast<std::uint64_t>(a.last().iter));
    vh::trace_validated();
}

std::vector<Units> systems()
{
    std::vector<Units> u;
    if (sim::radgas()) {
        // the constants of radiation leave two of them: of temperature and weight; and the length
        for (int q : {-4, -2, 0, 2, 6})
            for (int m : {-4, 0, 2})
                for (int l : {-60, 0, 70})
                    if (q || m || l) u.push_back({m + 3 * q, (q - m) / 2, l, m});
        return u;
    }
    bool const self = sim::gravity() == "Internal_mass"; // G leaves two of three
    auto put = [&](int rho, int vel, int len, int mu = 0) {
        Units w {rho, vel, len, mu};
        if (self) w.rho = 2 * (vel - len);
        u.push_back(w);
    };
    for (int e : {-100, -50, -25, -12, 12, 25, 50, 100}) {
        if (!self) put(e, 0, 0);
        put(0, e * 6 / 10, 0);
        put(0, 0, e);
        put(0, 0, 0, e);
    }
    put(-80, 27, 36); // stellar envelope, cgs
    put(-80, 20, 63); // interstellar gas, cgs
    put(-70, 10, 55); // the same, SI
    put(20, 24, 20, 3); // stellar interior
    put(3, -7, -20); // small devices
    put(-20, -40, 40); // very slow
    put(10, 40, -40); // very fast
    put(40, 20, 10);
    return u;
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough(), self = sim::gravity() == "Internal_mass";
        std::array<int, 3> const n = nd == 1 ? std::array<int, 3> {5, 1, 1} : nd == 2 ? std::array<int, 3> {4, 3, 1} : std::array<int, 3> {4, 2, 3};
        int const base = nd == 1 ? 3 : 2;
        long const all = alpha::ipow(base, std::min(24, n[0] * n[1] * n[2]));
        long idx = 0;
        auto const us = systems();
        auto splits = [&](int p, std::array<int, 3> m) {
            auto sp = component::splits(p, m, 3);
            if (self) std::erase_if(sp, [](auto const& d) { return d[0] > 1; });
            if (sp.empty()) sp.push_back({1, 1, 1});
            return sp;
        };
        for (std::size_t q = 0; q < us.size(); ++q)
            for (char const* sv : alpha::solvers)
                for (char const* lm : alpha::limiters)
                    for (int r = 0; r < (th ? 90 : 6); ++r) {
                        ++idx;
                        int const var = static_cast<int>((idx * 7 + r * 15) % 90);
                        long const code = (idx * 2654435761L + 12345) % all;
                        x.run(vh::cat(us[q].name(), " ", sv, " ", lm, " variant ", var, " init ", code), [=, w = us[q]] {
                            Case c;
                            c.n = n;
                            c.variant = var;
                            c.solver = sv;
                            c.limiter = lm;
                            c.init = alpha::digits(code, base, n, var % 3, static_cast<int>(code % 2));
                            auto const sp = splits(1 + static_cast<int>(code % 3), n);
                            c.dims = sp[static_cast<std::size_t>(code) % sp.size()];
                            check(c, w);
                        });
                    }
        // a large problem, many steps
        for (std::size_t q = 0; q < us.size(); q += th ? 1 : 3)
            x.run(vh::cat("large ", us[q].name()), [=, w = us[q]] {
                Case c;
                c.n = alpha::large();
                c.variant = static_cast<int>(q * 7 % 90 / 3 * 3); // as many steps as asked
                c.solver = alpha::solvers[q % 3];
                c.limiter = alpha::limiters[q % 4];
                c.init = alpha::smooth(c.n, c.variant % 3, static_cast<int>(q));
                c.steps = 12;
                auto const sp = splits(1 + static_cast<int>(q % 4), c.n);
                c.dims = sp[q % sp.size()];
                check(c, w);
            });
    });
}
