// C04: every scheduling of the processes ends the same way everywhere, without deadlock, mismatched
// collective operations or lost messages.
#include "common.hpp"

namespace {

struct Scenario
{
    std::string name;
    sim::Spec s;
    bool refuse = false; // all the processes must end with an error
    bool no_ini = false;
    std::string raw; // text of the input file, when not the one of the specification
    std::vector<int> clock; // per process: number of the call from which the allowance is spent (0: never)
};

struct Outcome
{
    bool ok = true;
    std::string what; // first problem
    std::uint64_t hash = 0;
    std::uint64_t points = 0, ops = 0;
};

Outcome run(Scenario const& sc, bool rendezvous, std::vector<int> const& prio, bool explore, std::function<int(int)> choose)
{
    sim::Spec s = sc.s;
    s.mpi.rendezvous = rendezvous;
    s.mpi.priority = prio;
    s.mpi.explore = explore;
    s.mpi.choose = choose;
    if (!sc.clock.empty()) {
        auto const clock = sc.clock;
        s.clock = [clock](int r, long c) -> long long {
            int const q = clock[static_cast<std::size_t>(r)];
            return q && c >= q ? 100LL * 3600 * 1000000000LL : c * 1000LL;
        };
    }
    prog::ScopedFs fs;
    sim::Res res;
    if (sc.raw.empty() && !sc.no_ini)
        res = sim::run(s);
    else {
        prog::Opt o;
        o.ini = sc.raw;
        o.mpi = s.mpi;
        o.no_ini = sc.no_ini;
        res.out = prog::run(o);
    }
    Outcome r;
    r.points = res.out.mpi.choice_points;
    r.ops = res.out.mpi.ops;
    auto bad = [&](std::string const& w) {
        if (r.ok) r.what = w;
        r.ok = false;
    };
    auto const& m = res.out.mpi;
    if (m.deadlock) bad("deadlock: " + m.error);
    else if (!m.error.empty()) bad(m.error);
    for (std::size_t i = 0; i < m.finished.size(); ++i)
        if (!m.finished[i]) bad(vh::cat("process ", i, " does not end: ", m.exceptions[i]));
    for (int rc : res.out.rc) {
        if (rc != res.out.rc[0]) bad("different statuses: " + res.out.summary());
        if ((rc != 0) != sc.refuse) bad(vh::cat("status ", rc, ": ", res.out.summary()));
    }
    for (auto const& l : m.leaks)
        if (l.find("free communicator") == std::string::npos) bad(l);
    vh::Hash h;
    for (auto const& q : res.snaps) h << q.path << static_cast<long>(q.hash());
    for (int rc : res.out.rc) h << rc;
    for (auto const& f : res.out.files) h << f.first << f.second;
    for (auto const& e : res.out.err) h << e;
    h << static_cast<long>(m.messages);
    r.hash = h;
    vh::transitions(m.ops);
    vh::trace_validated();
    vh::state(r.hash);
    return r;
}

std::vector<std::vector<int>> orders(int p)
{
    std::vector<int> a(static_cast<std::size_t>(p));
    for (int i = 0; i < p; ++i) a[static_cast<std::size_t>(i)] = i;
    std::vector<std::vector<int>> v;
    do v.push_back(a);
    while (std::next_permutation(a.begin(), a.end()) && v.size() < 24);
    return v;
}

std::vector<Scenario> scenarios(int p, bool th)
{
    int const nd = sim::ndim();
    std::vector<Scenario> v;
    bool const im = sim::gravity() == "Internal_mass";
    auto base = [&] {
        Scenario c;
        sim::Spec& s = c.s;
        s.n = nd == 1 ? std::array<int, 3> {2 * std::max(p, 2), 1, 1} : nd == 2 ? std::array<int, 3> {4, 2 * std::max(p, 2), 1} : std::array<int, 3> {4, 4, 2 * std::max(p, 2)};
        s.mpi.nranks = p;
        alpha::domain(s);
        if (im) s.ini.set("Parallelization", "mpi_dims_cart_x0", 1);
        s.ini.set("Boundary Condition", "BC", "NullGradient").set("Output", "max_iter", 2).set("Output", "iter_frequency", 1);
        s.init = [](int i, int j, int k) { return alpha::state((i + 2 * j + 3 * k) % 5, 2); };
        return c;
    };
    auto add = [&](std::string n, Scenario c) {
        c.name = vh::cat(n, " on ", p);
        v.push_back(c);
    };
    // normal ends
    for (char const* bc : {"NullGradient", "Periodic", "Reflexive"}) {
        if (sim::spherical() && std::string(bc) == "Periodic") continue;
        for (int nfx : {0, 2}) {
            auto c = base();
            c.s.nfx = nfx;
            c.s.ini.set("Boundary Condition", "BC", bc);
            add(vh::cat(bc, " nfx ", nfx), c);
        }
    }
    {
        auto c = base();
        c.s.ini.unset("Output", "iter_frequency").set("Output", "max_iter", 100).set("Run", "t_end", 0.05 / alpha::uscale());
        add("end time", c);
        c.s.ini.set("Output", "time_frequency", 0.02 / alpha::uscale());
        add("end time, time outputs", c);
    }
    {
        auto c = base();
        c.s.shift = [](long q) { return q == 0; };
        c.s.ini.set("Output", "max_iter", 3);
        add("moving grid", c);
        c.s.ini.set("Problem", "rmax_shift", 0.1);
        add("moving grid at its limit", c);
    }
    {
        auto c = base();
        c.s.ini.set("Pressure fix", "pressure_fix", "On").set("Pressure fix", "eps_pf", 0.5).set("User step", "user_step", "Heat_nickel");
        c.s.nfx = 2;
        add("repair and heating", c);
    }
    // dimensions left to MPI, reordered
    if (p > 1 && !im) {
        auto c = base();
        if (nd > 1) c.s.n[0] = 2 * p;
        for (int r = 0; r < p; ++r) c.s.mpi.cart_perm.push_back(p - 1 - r);
        add("reordered", c);
        if (nd > 1) {
            for (int d = 0; d < nd; ++d) {
                auto e = base();
                for (int q = 0; q < nd; ++q) e.s.n[static_cast<std::size_t>(q)] = q == d ? 2 * p : 3;
                for (int q = 0; q < nd; ++q) e.s.ini.set("Parallelization", vh::cat("mpi_dims_cart_x", q), q == d ? p : 1);
                add(vh::cat("all in direction ", d), e);
            }
        }
    }
    // elapsed time seen differently
    {
        long const n = alpha::ipow(4, p);
        for (long code = 1; code < n; ++code) {
            if (p > 3 && !th && code % 7 != 1) continue;
            auto c = base();
            long q = code;
            for (int r = 0; r < p; ++r, q /= 4) c.clock.push_back(static_cast<int>(q % 4));
            c.s.ini.set("Output", "max_iter", 3).set("Output", "time_job", 10);
            if (code % 2) c.s.ini.unset("Output", "iter_frequency");
            add(vh::cat("clock ", code), c);
        }
    }
    // an invalid state in each cell of the first direction / last direction, at the start or later
    for (int step = 0; step <= 2; ++step) {
        int const d = nd - 1;
        for (int cell = 0; cell < base().s.n[static_cast<std::size_t>(d)]; ++cell) {
            auto c = base();
            c.refuse = true;
            c.s.ini.set("Output", "max_iter", 4);
            c.s.init = [=](int i, int j, int k) {
                auto q = alpha::state((i + 2 * j + 3 * k) % 5, 0);
                std::array<int, 3> const a {i, j, k};
                if (step == 0 && a[static_cast<std::size_t>(d)] == cell) q.P = -1;
                return q;
            };
            if (step) {
                c.s.user_step = true;
                c.s.user_heat = [=](int i, int j, int k, double, double t, double dt) {
                    std::array<int, 3> const a {i, j, k};
                    // the step is recognised by its time: the first one starts at zero
                    bool const now = step == 1 ? t == 0 : t > 0;
                    return now && a[static_cast<std::size_t>(d)] == cell && dt > 0 ? -1e4 * alpha::pscale() : 0.;
                };
            }
            add(vh::cat("invalid state in layer ", cell, " after step ", step), c);
        }
    }
    // bad inputs
    {
        Scenario c = base();
        c.refuse = true;
        std::string const good = c.s.text();
        auto raw = [&](std::string n, std::string t) {
            Scenario e = c;
            e.raw = t;
            add("bad input: " + n, e);
        };
        raw("empty", "\n");
        raw("bad line", good + "nonsense\n");
        raw("unclosed section", "[Grid\n" + good);
        raw("no cells", "[Boundary Condition]\nBC = NullGradient\n");
        {
            Scenario e = c;
            e.no_ini = true;
            add("bad input: no argument", e);
        }
        auto opt = [&](char const* s, char const* k, char const* t) {
            Scenario e = c;
            e.s.ini.set(s, k, t);
            add(vh::cat("bad input: ", s, ".", k, "=", t), e);
        };
        opt("Boundary Condition", "BC", "Nothing");
        opt("Boundary Condition", "BC_X0_left", "nullGradient");
        opt("Boundary Condition", "priority", "X0_left");
        opt("Hydro", "riemann_solver", "Exact");
        opt("Hydro", "reconstruction", "WENO");
        opt("Grid", "type", "Irregular");
        opt("User step", "user_step", "Sometimes");
        opt("Perfect Gas", "gamma", "1");
        opt("Perfect Gas", "gamma", "abc");
        opt("Output", "time_job", "soon");
        opt("Output", "max_iter", "many");
        {
            Scenario e = c;
            e.s.ini.set("Output", "time_frequency", "0.1").set("Output", "time_first_output", "-1");
            add("bad input: first output before the start", e);
        }
        {
            Scenario e = c;
            e.s.ini.set("Problem", "restart", "true").set("Problem", "restart_file", "missing.h5");
            add("bad input: missing restart file", e);
        }
        if (p > 1 && !im) {
            Scenario e = c;
            e.s.ng = 5;
            e.s.n[static_cast<std::size_t>(nd - 1)] = 4 * p;
            for (int d = 0; d < nd; ++d) e.s.ini.set("Parallelization", vh::cat("mpi_dims_cart_x", d), d == nd - 1 ? p : 1);
            add("bad input: blocks smaller than the ghost layers", e);
        }
    }
    return v;
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(
            argc, argv,
            [](vh::Explorer& x) {
                bool const th = vh::thorough();
                int const nd = sim::ndim();
                int const pmax = nd == 1 && sim::gravity() == "Internal_mass" ? 1 : 4;
                for (int p = 1; p <= pmax; ++p)
                    for (auto const& sc : scenarios(p, th)) {
                        if (nd > 1 && p == 3 && sc.name.find("bad input") == std::string::npos && !th) continue;
                        // all orders of the processes, buffered or not, no choice
                        x.run(sc.name + ", all priorities", [=] {
                            std::uint64_t ref = 0;
                            bool first = true;
                            for (bool rdv : {true, false})
                                for (auto const& o : orders(p)) {
                                    auto const r = run(sc, rdv, o, false, nullptr);
                                    if (!r.ok) return vh::violate(sc.name, r.what);
                                    if (first) ref = r.hash;
                                    first = false;
                                    if (r.hash != ref) return vh::violate(sc.name, "the outcome depends on the scheduling");
                                }
                        });
                        if (p == 1) continue;
                        // every scheduling within a number of deviations from the default one
                        bool const one = sc.name.find("Reflexive nfx 0") != std::string::npos || sc.name.find("clock 6 ") != std::string::npos || sc.name.find("reordered") != std::string::npos || sc.name.find("layer 1 after step 1") != std::string::npos;
                        int const bound = th ? (one && p == 2 ? 3 : p <= 3 ? 2 : 1) : (one && p == 2 && nd == 1 ? 2 : p == 2 || (p == 3 && one) ? 1 : 0);
                        if (bound == 0) continue;
                        sim::Spec const small = sc.s;
                        for (bool rdv : {true, false}) {
                            // the deviations are numbered by the position of the first one; positions are dealt out in lanes
                            int const lanes = bound >= 2 ? 16 : 1;
                            for (int lane = 0; lane < lanes; ++lane)
                                x.run(vh::cat(sc.name, rdv ? ", rendezvous" : ", buffered", ", ", bound, " deviations, lane ", lane), [=] {
                                    auto const ref = run(sc, rdv, {}, true, [](int) { return 0; });
                                    if (!ref.ok) return vh::violate(sc.name, ref.what);
                                    for (std::uint64_t q = static_cast<std::uint64_t>(lane); q < ref.points; q += static_cast<std::uint64_t>(lanes)) {
                                        bool stop = false;
                                        vh::dfs([&](vh::Dfs& d) {
                                            if (stop) return;
                                            std::uint64_t pos = 0;
                                            int left = bound;
                                            auto const r = run(sc, rdv, {}, true, [&](int n) {
                                                std::uint64_t const here = pos++;
                                                if (here < q || left == 0) return 0;
                                                int c;
                                                if (here == q)
                                                    c = 1 + d.choose(n - 1);
                                                else
                                                    c = d.choose(n);
                                                if (c) --left;
                                                return c;
                                            });
                                            vh::counter("schedules");
                                            if (!r.ok) {
                                                stop = true;
                                                vh::violate(sc.name, r.what);
                                            } else if (r.hash != ref.hash) {
                                                stop = true;
                                                vh::violate(sc.name, "the outcome depends on the scheduling");
                                            }
                                        });
                                        if (stop) return;
                                    }
                                });
                        }
                    }
            },
            840);
}
