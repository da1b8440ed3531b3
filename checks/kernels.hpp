// Exploration of the ways the kernels of a run may be executed.
#pragma once
#include "common.hpp"

#include <set>

namespace kernels {

// watches an execution: accesses of the libraries, dependent iterations
struct Watch
{
    bool aware;
    std::set<std::string> said;
    explicit Watch(bool mpi_aware, bool trace) : aware(mpi_aware)
    {
        kshim::on_library_access = [this](kshim::AllocInfo const& a, std::string const& lib) {
            if (a.space == 1 && !(lib == "MPI" && aware)) say(lib + " is given device memory", "array '" + a.label + "'");
        };
        kshim::on_soft_fail = [this](std::string const& w) { say("iterations are not independent", w); };
        kshim::tracing = trace;
        kshim::n_kernels = kshim::n_iterations = kshim::n_accesses = kshim::n_launches = 0;
    }
    void say(std::string const& key, std::string const& detail)
    {
        if (said.insert(detail).second && said.size() < 4) vh::violate(key, detail);
    }
    ~Watch()
    {
        kshim::on_library_access = nullptr;
        kshim::on_soft_fail = nullptr;
        kshim::choose_late = nullptr;
        kshim::tracing = false;
    }
    Watch(Watch const&) = delete;
};

struct Outcome
{
    std::string problem;
    std::vector<sim::Snap> snaps;
};
using Runner = std::function<Outcome(kshim::ExecCfg const&)>;

inline void compare(Outcome const& base, Outcome const& o, std::string const& what)
{
    vh::transitions(1);
    vh::trace_validated();
    if (!o.problem.empty()) return vh::violate("the run fails when the kernels are executed in another way", what + ": " + o.problem);
    for (auto const& q : o.snaps) vh::state(q.hash());
    std::string const e = sim::diff(base.snaps, o.snaps, 1e-12);
    if (!e.empty()) vh::violate("results depend on the execution of the kernels", what + ": " + e);
}

// all pairs of iterations of every kernel; every order x split x launch time; every kernel launched late in turn
inline void explore(vh::Explorer& x, std::string const& id, bool aware, Runner const& run, bool one_by_one)
{
    auto const base = [=](bool trace, std::uint64_t* launches) {
        Watch w(aware, trace);
        Outcome o = run({});
        if (!o.problem.empty()) vh::violate("the run fails", o.problem);
        vh::counter("kernels", kshim::n_kernels);
        vh::counter("iterations", kshim::n_iterations);
        vh::counter("accesses", kshim::n_accesses);
        if (launches) *launches = kshim::n_launches;
        return o;
    };
    x.run(id + ", pairs of iterations", [=] {
        Outcome const o = base(true, nullptr);
        vh::trace_validated();
        vh::transitions(kshim::n_iterations);
        for (auto const& q : o.snaps) vh::state(q.hash());
    });
    for (int ord = 0; ord < 5; ++ord)
        x.run(vh::cat(id, ", order ", ord), [=] {
            Outcome const b = base(false, nullptr);
            if (!b.problem.empty()) return;
            for (int chunks : {1, 2, 3, 7})
                for (bool late : {false, true}) {
                    if (ord == 0 && chunks == 1 && !late) continue;
                    kshim::ExecCfg c;
                    c.order = static_cast<kshim::Order>(ord);
                    c.chunks = chunks;
                    c.lazy = late;
                    Watch w(aware, false);
                    compare(b, run(c), vh::cat("order ", ord, ", ", chunks, " partial results", late ? ", launched late" : ""));
                }
        });
    if (one_by_one)
        x.run(id + ", one kernel late", [=] {
            std::uint64_t n = 0;
            Outcome const b = base(false, &n);
            if (!b.problem.empty()) return;
            for (std::uint64_t late = 0; late < n; ++late) {
                Watch w(aware, false);
                std::string label;
                kshim::choose_late = [&](std::string const& l) {
                    bool const me = kshim::n_launches == late;
                    if (me) label = l;
                    return me;
                };
                Outcome const o = run({});
                compare(b, o, vh::cat("launch ", late, " ('", label, "') late"));
                vh::counter("late launches");
            }
        });
}

} // namespace kernels
