// C22: when snapshots are written and when a run ends. A uniform gas at rest gives a constant CFL step, so
// the whole schedule is known in advance.
#include "common.hpp"

namespace {

struct Sched
{
    double t_ini = 0, t_end = 1, freq = 0, first = 0;
    int iter_freq = 0, max_iter = 10000;
    int allowed = -1; // steps completed when the wall-clock allowance is found spent (-1: never)
};

struct Event
{
    int iter;
    double t;
};

// the documented schedule
struct Plan
{
    std::vector<Event> out;
    std::vector<double> steps;
    int iters = 0;
    double t = 0;
    bool error = false;
    bool tie = false; // two events within rounding: both orders are right
};

Plan plan(Sched const& s, double D)
{
    Plan p;
    double const tol = 1e-9;
    p.t = s.t_ini;
    bool const freq = s.iter_freq > 0 || s.freq > 0;
    if (freq) p.out.push_back({0, p.t});
    if (s.freq > 0 && s.first <= s.t_ini && s.first <= s.t_end) {
        p.error = true;
        return p;
    }
    long m = 0;
    for (bool stop = false; !stop;) {
        double to = p.t + D;
        bool write = false;
        auto near = [&](double a, double b) { p.tie = p.tie || std::fabs(a - b) < tol; };
        double const due = s.first + static_cast<double>(m) * s.freq;
        if (s.freq > 0 && due <= s.t_end + tol) {
            near(to, due);
            near(due, s.t_end);
            if (to >= due) {
                to = due;
                ++m;
                write = true;
            }
        }
        near(to, s.t_end);
        if (to >= s.t_end) {
            to = s.t_end;
            write = stop = true;
        }
        if (p.iters == s.allowed) write = stop = true;
        p.steps.push_back(to - p.t);
        p.t = to;
        ++p.iters;
        if (p.iters >= s.max_iter) write = stop = true;
        if (s.iter_freq > 0 && p.iters % s.iter_freq == 0) write = true;
        if (write) p.out.push_back({p.iters, p.t});
    }
    return p;
}

void check(Sched const& c, int nranks)
{
    sim::Spec s;
    s.n = {4, sim::ndim() > 1 ? 4 : 1, 1};
    s.init = [](int, int, int) { return sim::Cell {1, {0, 0, 0}, 0.6, {}}; };
    s.mpi.nranks = nranks;
    // sound speed 1, width 1/4: step of cfl/4 (1D), cfl/8 (2D)
    double const D = 0.1;
    s.ini.set("Run", "cfl", sim::ndim() > 1 ? 0.8 : 0.4).set("Boundary Condition", "BC", "Periodic");
    s.ini.set("Run", "t_ini", c.t_ini).set("Run", "t_end", c.t_end).set("Output", "max_iter", c.max_iter);
    if (c.iter_freq) s.ini.set("Output", "iter_frequency", c.iter_freq);
    if (c.freq != 0) s.ini.set("Output", "time_frequency", c.freq);
    if (c.first != c.t_ini + c.freq) s.ini.set("Output", "time_first_output", c.first);
    // hours of allowance: after the first step the clock is a second before its end, a second after it once `allowed` steps are done
    int const hours = c.allowed == 0 ? 0 : c.iter_freq == 2 && c.allowed < 0 ? 20 : 1 + (c.iter_freq + nranks) % 3;
    if (hours != 20) s.ini.set("Output", "time_job", hours);
    std::vector<long> done(static_cast<std::size_t>(nranks), 0);
    std::vector<std::pair<double, double>> steps;
    s.user_step = true;
    s.on_user_step = [&](double t, double dt) {
        int const r = kmpi::world_rank();
        if (r == 0) steps.emplace_back(t, dt);
        ++done[static_cast<std::size_t>(r)];
    };
    s.clock = [&](int rank, long) -> long long {
        long const d = done[static_cast<std::size_t>(rank)];
        long long const second = 1000000000LL, from = 777777 * second, end = hours * 3600LL * second;
        return from + (d == 0 || hours == 0 ? d : c.allowed > 0 && d >= c.allowed ? end + second : end - second);
    };
    Plan const p = plan(c, D);
    auto const r = sim::run_alone(s);
    vh::transitions(steps.size());
    vh::trace_validated();
    vh::state(vh::Hash() << static_cast<long>(r.snaps.size()) << p.iters << p.t << c.iter_freq << c.freq << c.first << c.allowed << c.max_iter);
    auto bad = [&](char const* key, std::string const& d) { vh::violate(key, d); };
    if (p.error) {
        if (!alpha::refused(r.out)) return bad("a first output before the start is accepted", r.out.summary());
        if (r.snaps.size() > 1) return bad("steps made after an impossible output time", "");
        return;
    }
    if (!r.ok()) return bad("the run fails", r.problem);
    std::size_t n = r.snaps.size();
    if (p.tie) {
        // events that coincide up to rounding: only the set of times counts
        vh::counter("coincidences");
        std::vector<double> want, have;
        for (auto const& e : p.out)
            if (want.empty() || std::fabs(e.t - want.back()) > 1e-9) want.push_back(e.t);
        for (auto const& q : r.snaps)
            if (have.empty() || std::fabs(q.t - have.back()) > 1e-9) have.push_back(q.t);
        if (c.iter_freq) return; // the numbers of the iterations are ambiguous
        if (want.size() != have.size()) return bad("times of the snapshots", vh::cat(have.size(), " instead of ", want.size()));
        for (std::size_t i = 0; i < want.size(); ++i)
            if (std::fabs(want[i] - have[i]) > 1e-9) return bad("times of the snapshots", vh::cat(have[i], " instead of ", want[i]));
        return;
    }
    if (n != p.out.size()) {
        std::string l;
        for (auto const& q : r.snaps) l += vh::cat(" ", q.iter, "@", q.t);
        l += " instead of";
        for (auto const& q : p.out) l += vh::cat(" ", q.iter, "@", q.t);
        return bad("number of snapshots", l);
    }
    for (std::size_t i = 0; i < n; ++i) {
        auto const& q = r.snaps[i];
        if (q.iter != p.out[i].iter) return bad("iteration of a snapshot", vh::cat("snapshot ", i, " at iteration ", q.iter, " instead of ", p.out[i].iter));
        if (!vh::close(q.t, p.out[i].t, 1e-12, 1e-13)) return bad("time of a snapshot", vh::cat("snapshot ", i, " at ", q.t, " instead of ", p.out[i].t));
        if (q.output_id != static_cast<int>(i)) return bad("output number", vh::cat(q.output_id, " instead of ", i));
        char name[64];
        std::snprintf(name, sizeof name, "result_%08zu.h5", i);
        if (q.path != name) return bad("name of a snapshot", q.path);
    }
    if (steps.size() != p.steps.size()) return bad("number of steps", vh::cat(steps.size(), " instead of ", p.steps.size()));
    double t = c.t_ini;
    for (std::size_t i = 0; i < steps.size(); ++i) {
        if (!vh::close(steps[i].first, t, 1e-12, 1e-13) || !vh::close(steps[i].second, p.steps[i], 1e-9, 1e-12)) return bad("length of a step", vh::cat("step ", i, " from ", steps[i].first, " of ", steps[i].second, " instead of ", t, ", ", p.steps[i]));
        t += p.steps[i];
    }
    for (long d : done)
        if (d != static_cast<long>(p.iters)) return bad("processes make different numbers of steps", "");
    // what the run says about its end
    std::ostringstream end;
    end << "number of iterations = " << p.iters;
    if (r.out.out[0].find(end.str() + "\n") == std::string::npos) return bad("printed number of iterations", end.str());
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        bool const th = vh::thorough();
        bool const d2 = sim::ndim() > 1;
        for (int ranks = 1; ranks <= (d2 ? 4 : 2); ranks += d2 ? 3 : 1)
            for (double t0 : {0., 0.37, -0.23})
                for (double len : {0.03, 0.33, 0.72, 1.15})
                    for (int fi : {0, 1, 2, 3, 5})
                        for (double f : {0., 0.04, 0.13, 0.27, 0.11, 2.}) {
                            if ((ranks > 1 || d2) && !th && (fi == 1 || fi == 5 || f == 0.04 || f == 0.11)) continue;
                            for (int vf = 0; vf < (f > 0 ? 6 : 1); ++vf)
                                for (int mi : {10000, 1, 2, 4, 7})
                                    for (int wall : {-1, 0, 1, 3}) {
                                        if (wall >= 0 && mi != 10000 && mi != 4) continue;
                                        Sched c;
                                        c.t_ini = t0;
                                        c.t_end = t0 + len;
                                        c.freq = f;
                                        c.iter_freq = fi;
                                        c.max_iter = mi;
                                        c.allowed = wall;
                                        double const firsts[] = {t0 + f, t0 + 0.057, t0 + 0.317, t0 + 6, t0, t0 - 1.003};
                                        c.first = firsts[vf];
                                        if (vf >= 4 && (mi != 10000 || wall >= 0)) continue;
                                        x.run(vh::cat(d2 ? "2D " : "", ranks, " processes from ", t0, " to ", t0 + len, " every ", fi, " iterations, every ", f, " from ", c.first, ", at most ", mi, " iterations, wall clock after ", wall), [=] { check(c, ranks); });
                                    }
                        }
        // hundreds of steps and of outputs
        for (double freq : {0., 0.0731, 0.3317, 2.7131})
            for (int fi : {0, 7, 11, 100})
                for (int mi : {10000, 150, 223})
                    for (int wall : {-1, 120}) {
                        if (wall >= 0 && mi == 150) continue;
                        x.run(vh::cat(d2 ? "2D " : "", "long, every ", fi, " iterations, every ", freq, ", at most ", mi, ", allowance ", wall), [=] {
                            Sched c;
                            c.t_ini = 0.37;
                            c.t_end = 24.0873;
                            c.freq = freq;
                            c.first = freq > 0 ? 0.37 + (fi ? 1.00317 : freq) : 0.37;
                            c.iter_freq = fi;
                            c.max_iter = mi;
                            c.allowed = wall;
                            check(c, d2 ? 4 : 1 + fi % 2);
                        });
                    }
        // the origin of the times does not matter, even when the run is short compared to its start
        for (double late : {-1e3, 1e3, 1e6, 3e7})
            for (double freq : {0., 0.0731, 0.3317})
                for (double len : {0.2137, 1.0873, 4.019})
                    x.run(vh::cat("late ", late, " every ", freq, " for ", len), [=] {
                        auto told = [=](double t0) {
                            sim::Spec s;
                            s.n = {6, d2 ? 4 : 1, 1};
                            s.init = alpha::smooth(s.n, 0, 1);
                            s.ini.set("Boundary Condition", "BC", "Periodic").set("Run", "t_ini", t0).set("Run", "t_end", t0 + len);
                            if (freq > 0) s.ini.set("Output", "time_frequency", freq).set("Output", "time_first_output", t0 + 0.5117 * freq);
                            return sim::run_alone(s);
                        };
                        auto const a = told(0), b = told(late);
                        vh::transitions(static_cast<std::uint64_t>(a.snaps.empty() ? 0 : 2 * a.last().iter));
                        vh::trace_validated();
                        if (!a.ok() || !b.ok()) return vh::violate("a late run fails", a.problem + b.problem);
                        auto z = b.snaps;
                        for (auto& q : z) q.t -= late;
                        std::string const e = sim::diff(a.snaps, z, 1e-6);
                        if (!e.empty()) vh::violate("a late run has other steps or outputs", e);
                        vh::state(b.last().hash());
                    });
        // times that coincide: end on a multiple of the interval, steps on output times
        for (double f : {0.1, 0.05, 0.2, 0.25})
            for (double len : {0.1, 0.2, 0.3, 0.5, 0.7, 1.})
                x.run(vh::cat("coincident ", f, " ", len), [=] {
                    Sched c;
                    c.t_end = len;
                    c.freq = c.first = f;
                    check(c, 1);
                });
    });
}
