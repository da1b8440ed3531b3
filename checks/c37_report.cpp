// C37: what a run prints, against what it did.
#include "common.hpp"
#include <algorithm>
#include <sstream>

namespace {

struct Status
{
    long iter = 0, id = 0;
    double t = 0, percent = 0;
};
struct Shift
{
    double t = 0, rmax = 0;
    long iter = 0;
};
struct Report
{
    std::vector<Status> status;
    std::vector<Shift> shifts;
    std::string from; // restarted from
    double from_t = 0, from_percent = 0;
    long from_iter = -1;
    int finals = 0, perfs = 0, masses = 0, ends = 0, from_n = 0;
    double t = 0, perf = 0, m0 = 0, dm = 0;
    long iter = 0;
    bool end_last = false;
};

// number after a label
bool after(std::string const& line, std::string const& label, double& v)
{
    auto const p = line.find(label);
    if (p == std::string::npos) return false;
    char const* s = line.c_str() + p + label.size();
    char* e = nullptr;
    v = std::strtod(s, &e);
    return e != s;
}

Report parse(std::string const& text)
{
    Report r;
    std::istringstream in(text);
    std::string l;
    Status s;
    Shift h;
    while (std::getline(in, l)) {
        double v = 0;
        if (!l.empty()) r.end_last = false;
        if (after(l, "current iteration ", v)) s.iter = static_cast<long>(v);
        if (after(l, "current time = ", v)) {
            s.t = v;
            s.percent = after(l, "( ~ ", v) ? v : NAN;
        }
        if (after(l, "file number  = ", v) || after(l, "file number = ", v)) {
            s.id = static_cast<long>(v);
            r.status.push_back(s);
            s = Status();
        }
        if (after(l, "Shifting grid at time = ", v)) {
            h.t = v;
            h.iter = after(l, "iteration = ", v) ? static_cast<long>(v) : -1;
        }
        if (after(l, "Rmax = ", v)) {
            h.rmax = v;
            r.shifts.push_back(h);
            h = Shift();
        }
        if (auto p = l.find("restarting from file "); p != std::string::npos) {
            r.from = l.substr(p + 21);
            ++r.from_n;
        }
        if (l.rfind("at time ", 0) == 0 && after(l, "at time ", v)) {
            r.from_t = v;
            r.from_percent = after(l, "( ~ ", v) ? v : NAN;
            r.from_iter = after(l, "with iteration ", v) ? static_cast<long>(v) : -1;
        }
        if (after(l, "Final time = ", v)) {
            ++r.finals;
            r.t = v;
            r.iter = after(l, "number of iterations = ", v) ? static_cast<long>(v) : -1;
        }
        if (after(l, "Mean performance: ", v)) {
            ++r.perfs;
            r.perf = v;
        }
        if (after(l, "Initial mass = ", v)) {
            ++r.masses;
            r.m0 = v;
            r.dm = after(l, "change in mass = ", v) ? v : NAN;
        }
        if (l == "--- End ---") {
            ++r.ends;
            r.end_last = true;
        }
    }
    return r;
}

bool near(double a, double b) { return vh::close(a, b, 2e-5, 1e-300); } // six digits are printed

struct Case
{
    std::array<int, 3> n {6, 1, 1}, dims {0, 0, 0};
    int p = 1, perm = 0;
    int freq = 1, max_iter = 4;
    double time_freq = 0, t0 = 0, seconds = 1; // seconds spent per step
    int shifts = 0; // bits: the steps that shift
    int restart = -1; // number of the snapshot
    int deep = 0; // restarts of restarts
};

sim::Spec make(Case const& c, std::vector<long>& steps)
{
    sim::Spec s;
    s.n = c.n;
    alpha::domain(s);
    s.mpi.nranks = c.p;
    for (int r = 0; r < c.p && c.perm; ++r) s.mpi.cart_perm.push_back(c.p - 1 - r);
    for (int q = 0; q < sim::ndim(); ++q)
        if (c.dims[static_cast<std::size_t>(q)]) s.ini.set("Parallelization", "mpi_dims_cart_x" + std::to_string(q), c.dims[static_cast<std::size_t>(q)]);
    s.ini.set("Boundary Condition", "BC", "NullGradient").set("Output", "iter_frequency", c.freq).set("Output", "max_iter", c.max_iter).set("Run", "t_ini", c.t0).set("Run", "t_end", c.t0 + 1e9);
    s.ini.set("Output", "time_frequency", c.time_freq);
    s.init = [](int i, int j, int k) { return alpha::state((i + 2 * j + k) % 3, 0); };
    if (c.shifts) {
        s.ini.set("Grid", "shift_grid", "UserDefined");
        int const bits = c.shifts;
        s.shift = [bits](long q) { return (bits >> q & 1) != 0; };
    }
    // the clock only advances in the user step: a run of N steps lasts N times that
    steps.assign(static_cast<std::size_t>(c.p), 0);
    s.user_step = true;
    s.ini.set("User step", "user_step", "UserDefined");
    s.on_user_step = [&steps](double, double) { ++steps[static_cast<std::size_t>(kmpi::world_rank())]; };
    double const sec = c.seconds;
    s.clock = [&steps, sec](int r, long) -> long long { return 5000000000LL + static_cast<long long>(1e9 * sec * static_cast<double>(steps[static_cast<std::size_t>(r)])); };
    return s;
}

std::vector<sim::Snap> by_id(std::vector<sim::Snap> v)
{
    std::sort(v.begin(), v.end(), [](auto const& a, auto const& b) { return a.output_id < b.output_id; });
    return v;
}

// one run: its report against its snapshots; first: those written before it
void judge(Case const& c, sim::Spec const& s, sim::Res const& r, std::vector<long> const& steps, sim::Snap const* from, std::vector<sim::Snap> const& snaps, double t_end)
{
    auto bad = [&](std::string const& k, std::string const& d) { vh::violate(k, d); };
    // the first process of all and the first of the grid may differ: what counts is that everything is said once
    std::string said;
    int talking = 0;
    for (auto const& o : r.out.out) {
        if (o.find("--- End ---") != std::string::npos) continue;
        said += o;
        talking += !o.empty();
    }
    for (auto const& o : r.out.out)
        if (o.find("--- End ---") != std::string::npos) {
            said += o;
            ++talking;
        }
    if (talking > (c.perm ? 2 : 1)) bad("too many processes print", vh::cat(talking));
    Report const p = parse(said);
    if (p.status.size() != snaps.size()) bad("number of outputs reported", vh::cat(p.status.size(), " instead of ", snaps.size()));
    for (std::size_t i = 0; i < std::min(p.status.size(), snaps.size()); ++i) {
        auto const& a = p.status[i];
        auto const& b = snaps[i];
        if (a.iter != b.iter || a.id != b.output_id || !near(a.t, b.t)) bad("an output is reported with another number, iteration or time", vh::cat(a.id, " ", a.iter, " ", a.t, " instead of ", b.output_id, " ", b.iter, " ", b.t));
        if (!near(a.percent, 100 * b.t / t_end)) bad("progress of an output", vh::cat(a.percent, " instead of ", 100 * b.t / t_end));
    }
    if (from) {
        std::string want;
        for (auto const& [sec, kv] : s.ini.sec)
            for (auto const& [k, v] : kv)
                if (k == "restart_file") want = v;
        if (p.from_n != 1 || p.from != want) bad("file of the restart", p.from + " instead of " + want);
        if (p.from_iter != from->iter || !near(p.from_t, from->t) || !near(p.from_percent, 100 * from->t / t_end)) bad("time or iteration of the restart", vh::cat(p.from_iter, " ", p.from_t, " ", p.from_percent));
    } else if (p.from_n) {
        bad("a restart is reported", p.from);
    }
    // the end
    if (p.finals != 1 || p.perfs != 1 || p.masses != 1 || p.ends != 1 || !p.end_last) bad("the final lines are not there once, at the end", vh::cat(p.finals, p.perfs, p.masses, p.ends, p.end_last));
    long const it0 = from ? from->iter : 0;
    long const made = steps[0];
    if (p.iter != it0 + made) bad("final number of iterations", vh::cat(p.iter, " instead of ", it0 + made));
    if (!snaps.empty() && snaps.back().iter == p.iter && !near(p.t, snaps.back().t)) bad("final time", vh::cat(p.t, " instead of ", snaps.back().t));
    double const cells = 1. * c.n[0] * c.n[1] * c.n[2];
    if (made > 0 && !near(p.perf, 1e-6 * cells / c.seconds)) bad("mean performance", vh::cat(p.perf, " instead of ", 1e-6 * cells / c.seconds, " million cell updates per second: ", made, " steps of ", c.seconds, " s, first iteration ", it0));
    // the shifts
    std::vector<long> want;
    for (long q = 0; q < made; ++q)
        if (c.shifts >> q & 1) want.push_back(it0 + q);
    if (p.shifts.size() != want.size()) bad("number of shifts reported", vh::cat(p.shifts.size(), " instead of ", want.size()));
    for (std::size_t i = 0; i < std::min(want.size(), p.shifts.size()); ++i) {
        if (p.shifts[i].iter != want[i]) bad("iteration of a shift", vh::cat(p.shifts[i].iter, " instead of ", want[i]));
        // the state it starts from: every step is written
        for (auto const& q : snaps)
            if (q.iter == want[i] && !near(p.shifts[i].t, q.t)) bad("time of a shift", vh::cat(p.shifts[i].t, " instead of ", q.t));
        if (from && want[i] == from->iter && !near(p.shifts[i].t, from->t)) bad("time of a shift", vh::cat(p.shifts[i].t, " instead of ", from->t));
    }
    vh::transitions(static_cast<std::uint64_t>(made));
    vh::trace_validated();
}

void run(Case const& c)
{
    std::vector<long> steps;
    prog::ScopedFs fs;
    Case c0 = c;
    sim::Spec s = make(c0, steps);
    double const t_end = c.t0 + 1e9;
    auto const r = sim::run(s);
    if (!r.ok() && !(r.out.ok() && c.freq == 0 && c.time_freq == 0)) return vh::violate("the run fails", r.problem);
    auto snaps = by_id(r.snaps);
    for (auto const& q : snaps) vh::state(q.hash());
    judge(c0, s, r, steps, nullptr, snaps, t_end);
    int from = c.restart;
    for (int level = 0; level <= c.deep && from >= 0; ++level) {
        if (from >= static_cast<int>(snaps.size())) return;
        sim::Snap const start = snaps[static_cast<std::size_t>(from)];
        std::vector<long> n2;
        c0.max_iter = std::max<int>(c0.max_iter, start.iter) + level;
        sim::Spec s2 = make(c0, n2);
        std::string const name = vh::cat("from_", level, ".h5");
        kio::File const f = fs.fs.files.at(start.path);
        fs.fs.files.clear();
        fs.fs.files[name] = f;
        s2.ini.set("Problem", "restart", "true").set("Problem", "restart_file", name);
        s2.init = nullptr;
        auto const r2 = sim::run(s2);
        if (!r2.out.ok()) return vh::violate("the restarted run fails", r2.out.summary());
        std::vector<sim::Snap> later;
        for (auto const& q : by_id(r2.snaps))
            if (q.output_id > start.output_id) later.push_back(q);
        judge(c0, s2, r2, n2, &start, later, t_end);
        snaps = later;
        from = from % 2;
    }
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        bool const th = vh::thorough();
        int const nd = sim::ndim();
        bool const im = sim::gravity() == "Internal_mass";
        std::vector<std::array<int, 3>> grids;
        if (nd == 1) grids = {{1, 0, 0}, {2, 0, 0}, {3, 0, 0}};
        if (nd == 2) grids = {{1, 1, 0}, {2, 1, 0}, {1, 2, 0}, {2, 2, 0}};
        if (nd == 3) grids = {{1, 1, 1}, {1, 2, 1}, {2, 1, 2}};
        std::array<int, 3> const n = nd == 1 ? std::array<int, 3> {7, 1, 1} : nd == 2 ? std::array<int, 3> {6, 5, 1} : std::array<int, 3> {5, 4, 6};
        for (auto const& g : grids)
            for (int perm = 0; perm < 2; ++perm)
                for (int freq : {0, 1, 2, 3})
                    for (int max_iter : {0, 1, 4, 7})
                        for (double t0 : {0., 2.5})
                            for (int mode = 0; mode < 4; ++mode)
                                for (int restart = -1; restart < (freq ? 3 : 0); ++restart) {
                                    Case c;
                                    c.n = n;
                                    c.dims = g;
                                    c.p = std::max(1, g[0]) * std::max(1, g[1]) * std::max(1, g[2]);
                                    if (c.p == 1 && perm) continue;
                                    if (im && g[0] > 1) continue;
                                    c.perm = perm;
                                    c.freq = freq;
                                    c.max_iter = max_iter;
                                    c.t0 = t0;
                                    c.restart = restart;
                                    c.shifts = mode == 1 ? 5 : mode == 2 ? 0x7f : 0;
                                    c.seconds = mode == 3 ? 0.125 : mode == 1 ? 40 : 1;
                                    c.deep = mode == 0 ? 2 : 0;
                                    if (!th && nd > 1 && (mode + restart + max_iter + freq) % 2 && freq != 1) continue;
                                    x.run(vh::cat("grid ", g[0], "x", g[1], "x", g[2], " placement ", perm, " every ", freq, " limit ", max_iter, " from ", t0, " mode ", mode, " restart ", restart), [=] { run(c); });
                                }
        // more processes
        for (int p = 5; p <= (th ? 24 : 17); ++p)
            for (int mode = 0; mode < 2; ++mode)
                x.run(vh::cat(p, " processes mode ", mode), [=] {
                    Case c;
                    c.n = nd == 1 ? std::array<int, 3> {2 * p + 1, 1, 1} : nd == 2 ? std::array<int, 3> {5, 2 * p, 1} : std::array<int, 3> {4, 2 * p, 4};
                    c.dims = {nd == 1 ? p : 1, p, 1};
                    if (im && nd == 1) return;
                    c.p = p;
                    c.max_iter = 2;
                    c.shifts = mode ? 1 : 0;
                    c.restart = mode ? 1 : -1;
                    run(c);
                });
        // all sequences of shifts
        for (int bits = 0; bits < (th ? 256 : 32); ++bits)
            for (int p : {1, 2}) {
                if (im && p > 1 && nd == 1) continue;
                x.run(vh::cat("shifts ", bits, " on ", p), [=] {
                    Case c;
                    c.n = n;
                    c.p = p;
                    if (p == 2) c.dims = im ? std::array<int, 3> {1, 2, 1} : std::array<int, 3> {2, 1, 1};
                    c.shifts = bits;
                    c.max_iter = th ? 8 : 5;
                    run(c);
                });
            }
    });
}
