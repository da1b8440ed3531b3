// C06: the kernels of the program in any order, at the same time, as late as allowed.
#include "kernels.hpp"

namespace {

struct Variant
{
    std::string name;
    sim::Spec s;
    bool aware = false, restart = false;
};

std::vector<Variant> variants(std::array<int, 3> n)
{
    int const nd = sim::ndim();
    std::vector<Variant> v;
    int m = 0;
    auto const base = [&](std::string const& name) -> Variant& {
        Variant w;
        w.name = name;
        sim::Spec& s = w.s;
        s.n = n;
        s.nfx = m % 3;
        alpha::domain(s);
        s.ini.set("Hydro", "riemann_solver", alpha::solvers[m % 3]).set("Hydro", "reconstruction", alpha::limiters[m % 4]);
        s.ini.set("Boundary Condition", "BC", "NullGradient");
        s.ini.set("Output", "iter_frequency", 1).set("Output", "max_iter", 3);
        int const nfx = s.nfx, q = m;
        s.init = [=](int i, int j, int k) {
            sim::Cell c = alpha::state((i * 3 + j * 5 + k * 7 + q) % 5, nfx);
            c.rho *= 1 + 0.01 * i + 0.017 * j + 0.023 * k;
            return c;
        };
        ++m;
        v.push_back(w);
        return v.back();
    };
    base("open");
    base("walls").s.ini.set("Boundary Condition", "BC", "Reflexive");
    if (!sim::spherical()) base("periodic").s.ini.set("Boundary Condition", "BC", "Periodic");
    if (!sim::spherical()) {
        Variant& w = base("periodic, aware MPI");
        w.aware = true;
        w.s.ng = 3;
        w.s.ini.set("Boundary Condition", "BC", "Periodic").set("Parallelization", "mpi_device_aware", "true");
    }
    {
        Variant& w = base("repair");
        w.s.ini.set("Pressure fix", "pressure_fix", "On").set("Pressure fix", "eps_pf", 0.5);
        w.s.ini.set("Boundary Condition", "BC_X0_left", "Reflexive");
    }
    base("shift").s.shift = [](long c) { return c != 1; };
    {
        Variant& w = base("shift, aware MPI");
        w.aware = true;
        w.s.shift = [](long c) { return c != 0; };
        w.s.ini.set("Parallelization", "mpi_device_aware", "true");
    }
    {
        Variant& w = base("heating");
        w.s.nfx = 2;
        w.s.init = [](int i, int j, int k) {
            sim::Cell c = alpha::state((i + j + k) % 5, 2);
            c.P *= 1e10;
            for (double& u : c.u) u *= 1e5;
            return c;
        };
        w.s.ini.set("Run", "t_ini", 3e5).set("Run", "t_end", 3e5 + 1e7).set("User step", "user_step", "Heat_nickel").set("Boundary Condition", "BC", "Reflexive");
    }
    {
        Variant& w = base("stretched grid");
        for (int d = 0; d < 3; ++d) {
            int const nn = d < nd ? n[static_cast<std::size_t>(d)] : 1, g = d < nd ? w.s.ng : 0;
            double const a = sim::spherical() ? (d == 0 ? 1 : d == 1 ? 0.7 : 0.1) : 0;
            for (int i = -g; i <= nn + g; ++i) w.s.faces[static_cast<std::size_t>(d)].push_back(d < nd ? a + (sim::spherical() ? 0.1 : 0.2) * i + 0.004 * i * i : a + i);
        }
    }
    {
        Variant& w = base("restart");
        w.restart = true;
    }
    return v;
}

kernels::Outcome simulate(Variant const& v, kshim::ExecCfg const& exec)
{
    sim::Spec s = v.s;
    s.exec = exec;
    prog::ScopedFs fs;
    kernels::Outcome o;
    auto const a = sim::run(s);
    o.problem = a.problem;
    o.snaps = a.snaps;
    if (v.restart && o.problem.empty()) {
        s.ini.set("Problem", "restart", "true").set("Problem", "restart_file", a.snaps[1].path).set("Output", "max_iter", 5);
        auto const b = sim::run(s);
        o.problem = b.problem;
        o.snaps = b.snaps;
    }
    return o;
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough();
        std::vector<std::array<int, 3>> sizes;
        if (nd == 1) sizes = {{7, 1, 1}};
        if (nd == 2) sizes = {{5, 6, 1}};
        if (nd == 3) sizes = {{4, 3, 4}};
        if (th && nd == 1) sizes.push_back({16, 1, 1});
        if (th && nd == 2) sizes.push_back({9, 7, 1});
        if (th && nd == 3) sizes.push_back({5, 6, 4});
        for (auto const& n : sizes)
            for (auto const& v : variants(n))
                for (int p = 1; p <= (th ? 4 : 2); ++p) {
                    if (p == 3) continue;
                    std::array<int, 3> dims {1, 1, 1};
                    int const split = sim::gravity() == "Internal_mass" ? 2 : 0; // the first direction may not be split
                    dims[static_cast<std::size_t>(split)] = p;
                    if (split >= nd && p > 1) continue;
                    if (n[static_cast<std::size_t>(split)] / p < v.s.ng) continue;
                    Variant w = v;
                    w.s.mpi.nranks = p;
                    for (int d = 0; d < nd; ++d) w.s.ini.set("Parallelization", vh::cat("mpi_dims_cart_x", d), dims[static_cast<std::size_t>(d)]);
                    kernels::explore(x, vh::cat(n[0], "x", n[1], "x", n[2], " ", v.name, " on ", p), v.aware, [w](kshim::ExecCfg const& e) { return simulate(w, e); }, th || nd < 3 || p == 1);
                }
    });
}
