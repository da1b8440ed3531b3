// C38: what a run acquires it releases, in order, whatever its end.
#include "common.hpp"

#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <fstream>
#include <new>

// blocks of the free store in use by the whole program
static std::atomic<long> g_blocks {0};
void* operator new(std::size_t n)
{
    void* const p = std::malloc(n ? n : 1);
    if (p == nullptr) throw std::bad_alloc();
    ++g_blocks;
    return p;
}
void operator delete(void* p) noexcept
{
    if (p) --g_blocks;
    std::free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

namespace {

struct Scenario
{
    std::string name;
    sim::Spec s;
    bool refuse = false;
    bool quiet = false; // nothing is written between the first steps and the end
    std::string raw; // text of the input file, when not the one of the specification
    bool no_ini = false;
    int restart = -1; // from this snapshot of a first run
    std::int64_t fail_at = -1; // HDF5 call that fails
};

struct Count
{
    std::size_t views = 0, comms = 0, handles = 0, files = 0;
    bool operator==(Count const&) const = default;
};

// first position of an event that must be there once
long once(kshim::Life const& l, char const* e, std::string& bad)
{
    long at = -1;
    int n = 0;
    for (std::size_t i = 0; i < l.events.size(); ++i)
        if (l.events[i] == e) {
            at = static_cast<long>(i);
            ++n;
        }
    if (n != 1 && bad.empty()) bad = vh::cat(e, " is called ", n, " times");
    return at;
}

// false: nothing failed and the run is over
bool run(Scenario const& sc)
{
    sim::Spec s = sc.s;
    int const p = s.mpi.nranks;
    prog::ScopedFs fs;
    kio::reset_handles();
    if (sc.restart >= 0) {
        sim::Spec first = s;
        first.on_user_step = {};
        auto const a = sim::run(first);
        if (!a.ok()) return vh::violate("the first run fails", a.problem), false;
        auto const& from = a.snaps.at(static_cast<std::size_t>(sc.restart));
        s.ini.set("Problem", "restart", "true").set("Problem", "restart_file", from.path);
        s.init = nullptr;
        std::map<std::string, kio::File> keep;
        for (auto const& [q, f] : fs.fs.files)
            if (q <= from.path) keep[q] = f;
        fs.fs.files = keep;
        kio::reset_handles();
    }
    kio::h5.fail_at = sc.fail_at;
    // the same point of every step
    std::vector<std::vector<Count>> seen(static_cast<std::size_t>(p));
    for (auto& v : seen) v.reserve(1000);
    std::vector<long> blocks;
    blocks.reserve(1000);
    auto const old = s.on_user_step;
    if (!sc.refuse || old) s.user_step = true;
    s.on_user_step = [&](double t, double dt) {
        if (old) old(t, dt);
        auto const r = static_cast<std::size_t>(kmpi::world_rank());
        Count c;
        c.views = kshim::life_allocations();
        c.comms = kmpi::communicators();
        c.handles = kio::h5.open.size();
        if (r == 0) c.files = prog::descriptors();
        if (seen[r].size() < 1000) seen[r].push_back(c);
        if (r == 0 && blocks.size() < 1000) blocks.push_back(g_blocks);
    };
    prog::Out out;
    if (sc.raw.empty() && !sc.no_ini)
        out = sim::run(s).out;
    else {
        prog::Opt o;
        o.ini = sc.raw;
        o.mpi = s.mpi;
        o.no_ini = sc.no_ini;
        out = prog::run(o);
    }
    vh::trace_validated();
    vh::transitions(out.mpi.ops);
    bool const failed = kio::h5.calls > static_cast<std::uint64_t>(sc.fail_at);
    bool const open = !kio::h5.open.empty();
    std::vector<std::string> const h5 = kio::h5.errors;
    kio::reset_handles();
    auto bad = [&](std::string const& key, std::string const& d) { vh::violate(key, d); };
    // a failure on one process only: the others wait for it
    if (sc.fail_at >= 0 && p > 1 && failed && out.mpi.deadlock) {
        vh::counter("failures on one process, not judged");
        return failed;
    }
    if (out.mpi.deadlock || !out.mpi.error.empty()) return bad("the run does not end properly", out.summary()), failed;
    bool const refused = alpha::refused(out);
    if (sc.refuse != refused && sc.fail_at < 0) return bad("end of the run", out.summary()), failed;
    vh::Hash h;
    for (int r = 0; r < p; ++r) {
        kshim::Life const& l = *out.life[static_cast<std::size_t>(r)];
        for (auto const& e : l.events) h << e;
        std::string const who = vh::cat("process ", r, ": ");
        if (!l.errors.empty()) bad("use outside of the life of a library", who + l.errors.front());
        if (l.events.empty() && sc.no_ini) continue;
        std::string w;
        long const mi = once(l, "MPI_Init", w), ki = once(l, "Kokkos::initialize", w), kf = once(l, "Kokkos::finalize", w), mf = once(l, "MPI_Finalize", w);
        if (!w.empty()) {
            bad("libraries started and stopped once", who + w);
            continue;
        }
        if (!(mi < ki && ki < kf && kf < mf)) bad("order of the libraries", who + "MPI and Kokkos");
        if (!l.left.empty()) bad("allocations at the end of Kokkos", vh::cat(who, l.left.size(), ", the first is '", l.left.front(), "'"));
        if (l.communicators_left) bad("communicators at the end of MPI", vh::cat(who, l.communicators_left));
        for (std::size_t i = 0; i < l.events.size(); ++i) {
            bool const lib = l.events[i].rfind("PDI", 0) == 0;
            if (lib && !(mi < static_cast<long>(i) && static_cast<long>(i) < mf)) bad("order of the libraries", who + "PDI and MPI");
        }
        if (!refused) {
            long const pi = once(l, "PDI_init", w), pf = once(l, "PDI_finalize", w);
            if (!w.empty()) bad("libraries started and stopped once", who + w);
            else if (pi > pf) bad("order of the libraries", who + "PDI");
            if (l.trees) bad("configurations not destroyed", who + vh::cat(l.trees));
        }
        // nothing accumulates
        auto const& v = seen[static_cast<std::size_t>(r)];
        std::size_t const half = v.size() / 2;
        for (std::size_t i = half + 1; v.size() >= 9 && i < v.size(); ++i) {
            Count const &c = v[half], &d = v[i];
            if (d == c) continue;
            auto grown = [&](char const* what, std::size_t from, std::size_t to) {
                if (to > from) bad(vh::cat(what, " accumulate"), vh::cat(who, from, " at step ", half, ", ", to, " at step ", i));
            };
            grown("allocations", c.views, d.views);
            grown("communicators", c.comms, d.comms);
            grown("HDF5 handles", c.handles, d.handles);
            grown("open files", c.files, d.files);
            break;
        }
        vh::counter("steps", v.size());
    }
    // a block or more at every step
    if (sc.quiet && p == 1 && blocks.size() > 20 && blocks.back() - blocks[4] >= static_cast<long>(blocks.size()) - 6) bad("memory accumulates", vh::cat(blocks.back() - blocks[4], " blocks in ", blocks.size() - 5, " steps"));
    if (sc.quiet && p == 1 && blocks.size() > 20) vh::counter("blocks gained", static_cast<std::uint64_t>(std::max(0L, blocks.back() - blocks[4])));
    if (open) bad("HDF5 handles at the end", "");
    if (!h5.empty()) bad("HDF5 handles", h5.front());
    if (out.descriptors) bad("files open at the end", vh::cat(out.descriptors));
    for (auto const& l : out.mpi.leaks) bad("messages at the end", l);
    vh::state(h << static_cast<long>(refused));
    return failed;
}

std::vector<Scenario> scenarios(int p)
{
    int const nd = sim::ndim();
    bool const im = sim::gravity() == "Internal_mass";
    std::vector<Scenario> v;
    auto base = [&](int steps) {
        Scenario c;
        sim::Spec& s = c.s;
        int const a = std::max(4, 2 * p);
        s.n = nd == 1 ? std::array<int, 3> {3 * std::max(p, 2), 1, 1} : nd == 2 ? std::array<int, 3> {a, a, 1} : std::array<int, 3> {a, std::max(4, p), 4};
        s.mpi.nranks = p;
        s.nfx = 2;
        alpha::domain(s);
        if (im) s.ini.set("Parallelization", "mpi_dims_cart_x0", 1);
        s.ini.set("Boundary Condition", "BC", "NullGradient").set("Output", "max_iter", steps).set("Run", "t_end", 1e9);
        s.init = alpha::smooth(s.n, 10, 1);
        auto const smooth = s.init;
        s.init = [smooth](int i, int j, int k) {
            auto q = smooth(i, j, k);
            q.fx.resize(2);
            return q;
        };
        return c;
    };
    auto add = [&](std::string n, Scenario c) {
        c.name = vh::cat(n, " on ", p);
        v.push_back(std::move(c));
    };
    // normal ends
    for (int lazy = 0; lazy < 2; ++lazy)
        for (int out = 0; out < 4; ++out)
            for (int bc = 0; bc < 3; ++bc)
                for (int what = 0; what < 7; ++what) {
                    if (sim::spherical() && bc == 1) continue;
                    auto c = base(out == 3 ? 9 : 26);
                    c.s.exec.lazy = lazy;
                    c.s.ini.set("Boundary Condition", "BC", std::array<char const*, 3> {"NullGradient", "Periodic", "Reflexive"}[static_cast<std::size_t>(bc)]);
                    c.s.ini.set("Hydro", "riemann_solver", alpha::solvers[(bc + what) % 3]).set("Hydro", "reconstruction", alpha::limiters[(bc + what + out) % 4]);
                    if (out) c.s.ini.set("Output", "iter_frequency", out == 1 ? 1 : 5);
                    if (out == 3) c.s.ini.set("Output", "time_frequency", 0.004 / alpha::uscale()).set("Output", "directory", "out").set("Output", "max_iter", 30);
                    c.quiet = out == 0;
                    switch (what) {
                    case 1: c.s.shift = [](long q) { return q % 4 == 1; }; break;
                    case 2:
                        c.s.shift = [](long q) { return q % 3 == 1; };
                        c.s.ini.set("Problem", "rmax_shift", ref::params(c.s).xmax[0] * 1.4);
                        break;
                    case 3: c.s.ini.set("Pressure fix", "pressure_fix", "On").set("Pressure fix", "eps_pf", 0.5); break;
                    case 4:
                        c.s.ini.set("Boundary Condition", "BC_X0", "UserDefined");
                        c.s.user_value = [](int d, int f) { return alpha::state(2 * d + f, 2); };
                        break;
                    case 5: {
                        auto const g = ref::params(c.s);
                        c.s.faces = g.faces;
                        break;
                    }
                    case 6:
                        if (out == 0) continue;
                        c.restart = 1;
                        break;
                    }
                    add(vh::cat("end, lazy ", lazy, " outputs ", out, " boundary ", bc, " kind ", what), c);
                }
    // the allowance is spent, or the end time reached
    {
        auto c = base(1000);
        c.s.clock = [](int, long q) { return q >= 9 ? 100LL * 3600 * 1000000000LL : q * 1000LL; };
        add("allowance", c);
        auto d = base(1000);
        d.s.ini.set("Run", "t_end", 0.2 / alpha::uscale());
        add("end time", d);
    }
    // invalid states
    for (int step = 0; step <= 6; ++step)
        for (int out = 0; out < 2; ++out)
            for (int kind = 0; kind < 2; ++kind) {
                auto c = base(20);
                c.refuse = true;
                if (out) c.s.ini.set("Output", "iter_frequency", 1);
                if (kind) c.s.shift = [](long q) { return q % 2 == 1; };
                auto const init = c.s.init;
                c.s.init = [=](int i, int j, int k) {
                    auto q = init(i, j, k);
                    if (step == 0 && i == 1) q.P = -1;
                    return q;
                };
                auto const count = std::make_shared<std::vector<int>>(static_cast<std::size_t>(p), 0);
                c.s.on_user_step = [=](double, double) { ++(*count)[static_cast<std::size_t>(kmpi::world_rank())]; };
                c.s.user_heat = [=](int i, int, int, double, double, double) { return step && (*count)[static_cast<std::size_t>(kmpi::world_rank())] == step && i == 2 ? -1e6 * alpha::pscale() : 0.; };
                add(vh::cat("invalid state after ", step, " outputs ", out, " kind ", kind), c);
            }
    // bad inputs
    Scenario c = base(4);
    c.refuse = true;
    std::string const good = c.s.text();
    auto raw = [&](std::string n, std::string t) {
        Scenario e = c;
        e.raw = t;
        add("bad input: " + n, e);
    };
    raw("empty", "\n");
    raw("bad line", good + "nonsense\n");
    raw("no cells", "[Boundary Condition]\nBC = NullGradient\n");
    {
        Scenario e = c;
        e.no_ini = true;
        add("bad input: no argument", e);
        e = c;
        e.s.args = {"--pdi-config=missing.yaml"};
        add("bad input: missing configuration", e);
    }
    auto opt = [&](char const* s, char const* k, char const* t) {
        Scenario e = c;
        e.s.ini.set(s, k, t);
        add(vh::cat("bad input: ", s, ".", k, "=", t), e);
    };
    opt("Boundary Condition", "BC", "Nothing");
    opt("Boundary Condition", "BC_X0_left", "nullGradient");
    opt("Boundary Condition", "priority", "X0_left");
    opt("Hydro", "riemann_solver", "Exact");
    opt("Hydro", "reconstruction", "WENO");
    opt("Grid", "type", "Irregular");
    opt("Grid", "x0min", "abc");
    opt("Run", "cfl", "abc");
    opt("User step", "user_step", "Sometimes");
    opt("Perfect Gas", "gamma", "1");
    opt("Output", "time_job", "soon");
    opt("Output", "max_iter", "many");
    {
        Scenario e = c;
        e.s.ini.set("Output", "time_frequency", "0.1").set("Output", "time_first_output", "-1");
        add("bad input: first output before the start", e);
        e = c;
        e.s.ini.set("Problem", "restart", "true").set("Problem", "restart_file", "missing.h5");
        add("bad input: missing restart file", e);
    }
    return v;
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const im = sim::gravity() == "Internal_mass";
        for (int p = 1; p <= (nd == 1 && im ? 1 : vh::thorough() ? 6 : 4); ++p) {
            for (auto const& sc : scenarios(p)) x.run(sc.name, [=] { run(sc); });
            // every HDF5 call of a run with outputs, of a restart, failing in turn
            for (int restart : {-1, 1})
                for (int lane = 0; lane < 8; ++lane)
                    x.run(vh::cat("HDF5 failures, restart ", restart, " on ", p, " lane ", lane), [=] {
                        Scenario sc;
                        for (auto const& q : scenarios(p))
                            if (q.name.rfind("end, lazy 0 outputs 1 boundary 0 kind 0", 0) == 0) sc = q;
                        sc.s.ini.set("Output", "max_iter", 3);
                        sc.restart = restart;
                        for (int at = lane; at < 400; at += 8) {
                            sc.fail_at = at;
                            vh::counter("failing calls");
                            if (!run(sc)) break;
                        }
                    });
        }
    });
}
