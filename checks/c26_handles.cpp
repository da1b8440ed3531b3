// C26: extents of the profiles, HDF5 handles under every failing call.
#include <type_traits>

#ifndef VH_RUNS_ONLY
#include <io_hdf5.hpp>
#endif

#include "v1d.hpp"

namespace {

#ifndef VH_RUNS_ONLY
using hclpp::RaiiH5Hid;
#endif

std::string text(std::vector<std::size_t> const& v)
{
    std::string s = "(";
    for (auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x);
    return s + ")";
}

// ids that are open and were not left open by a failing close
std::string handles()
{
    std::string s;
    for (auto const& e : kio::h5.errors) s += e + "; ";
    for (auto const& [id, kind] : kio::h5.open) s += "a " + kind + " stays open; ";
    return s;
}

#ifndef VH_RUNS_ONLY
template <std::size_t N>
void extents(std::vector<std::size_t> const& have, std::array<std::size_t, N> const& want)
{
    std::vector<std::size_t> const w(want.begin(), want.end());
    bool const match = have == w;
    std::uint64_t calls = 1;
    for (std::int64_t fail = -1; fail < static_cast<std::int64_t>(calls); ++fail) {
        prog::ScopedFs fs;
        kio::reset_handles();
        std::size_t cnt = 1;
        for (auto x : have) cnt *= x;
        fs.fs.files["f.h5"].dsets["d"] = v1d::array(have, std::vector<double>(cnt, 1.));
        bool threw = false;
        kio::h5.fail_at = fail;
        try {
            RaiiH5Hid const file(::H5Fopen("f.h5", H5F_ACC_RDONLY, H5P_DEFAULT), ::H5Fclose);
            hclpp::check_extent_dset(file, "/d", want);
        } catch (std::exception const&) {
            threw = true;
        }
        bool const failed = fail >= 0 && static_cast<std::uint64_t>(fail) < kio::h5.calls;
        std::string const what = vh::cat("dataset ", text(have), ", array ", text(w), failed ? ", failing call " + kio::h5.call_log[static_cast<std::size_t>(fail)] : "");
        if (fail == -1) calls = kio::h5.calls;
        if (failed && !threw) vh::violate("a failing call goes unnoticed", what);
        if (!failed && threw == match) vh::violate(match ? "matching extents refused" : "other extents accepted", what);
        std::string const h = handles();
        if (!h.empty()) vh::violate("handles", what + ": " + h);
        vh::trace_validated();
        vh::transitions(kio::h5.calls);
        vh::state(vh::Hash() << what);
        kio::reset_handles();
    }
}
#endif

void all_dims(int n, std::vector<std::size_t> const& vals, std::vector<std::size_t> cur, std::function<void(std::vector<std::size_t> const&)> const& f)
{
    if (n == 0) return f(cur);
    for (auto v : vals) {
        cur.push_back(v);
        all_dims(n - 1, vals, cur, f);
        cur.pop_back();
    }
}

#ifndef VH_RUNS_ONLY
// life of a handle in all ways the type allows
template <class H>
void lives()
{
    auto fresh = [] { return ::H5Screate(H5S_SCALAR); };
    auto verdict = [](char const* what) {
        std::string const h = handles();
        if (!h.empty()) vh::violate("handles", vh::cat(what, ": ", h));
        kio::reset_handles();
        vh::trace_validated();
    };
    kio::reset_handles();
    {
        H const a(fresh(), ::H5Sclose);
        if (*a < 0) vh::violate("identifier", "of a live handle");
        hid_t const id = *a;
        if (*a != id || !kio::h5.open.count(id)) vh::violate("identifier", "changes");
    }
    verdict("one scope");
    for (int depth = 1; depth <= 4; ++depth)
        for (int at = 0; at <= depth; ++at) { // an exception inside the nested scopes
            std::function<void(int)> nest = [&](int d) {
                if (d == at) throw std::runtime_error("x");
                H const a(fresh(), ::H5Sclose);
                if (d + 1 < depth) nest(d + 1);
                else throw std::runtime_error("y");
            };
            try {
                nest(0);
            } catch (std::runtime_error const&) {
            }
            verdict("nested scopes");
        }
    for (hid_t bad : {hid_t(-1), hid_t(-2), hid_t(-1000)}) {
        bool threw = false;
        try {
            H const a(bad, ::H5Sclose);
        } catch (std::exception const&) {
            threw = true;
        }
        if (!threw) vh::violate("invalid identifier accepted", std::to_string(bad));
        verdict("invalid identifier");
    }
    {
        std::vector<std::unique_ptr<H>> v;
        for (int i = 0; i < 4; ++i) v.push_back(std::make_unique<H>(fresh(), ::H5Sclose));
        std::set<hid_t> ids;
        for (auto const& p : v) ids.insert(**p);
        if (ids.size() != 4 || kio::h5.open.size() != 4) vh::violate("identifier", "handles share one");
        v[2].reset();
        if (kio::h5.open.size() != 3) vh::violate("handles", "not closed at the end of its life");
        v.clear();
    }
    verdict("several handles");
    if constexpr (std::is_move_constructible_v<H> && !std::is_copy_constructible_v<H>) {
        {
            H a(fresh(), ::H5Sclose);
            H const b(std::move(a));
            if (!kio::h5.open.count(*b)) vh::violate("handles", "closed by a move");
        }
        verdict("move construction");
    }
    if constexpr (std::is_copy_constructible_v<H>) {
        {
            H a(fresh(), ::H5Sclose);
            {
                H const b(a);
                (void)b;
            }
            if (!kio::h5.open.count(*a)) vh::violate("handles", "closed by the end of a copy");
        }
        verdict("copy construction");
    }
    if constexpr (std::is_move_assignable_v<H>) {
        {
            H a(fresh(), ::H5Sclose);
            H b(fresh(), ::H5Sclose);
            b = std::move(a);
            if (!kio::h5.open.count(*b)) vh::violate("handles", "closed by a move");
        }
        verdict("move assignment");
    }
}
#endif

bool is_close(std::string const& c) { return c.size() > 5 && c.compare(c.size() - 5, 5, "close") == 0; }

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        bool const th = vh::thorough();
#ifndef VH_RUNS_ONLY
        // all extents of the file and of the array, every failing call
        std::vector<std::size_t> const vals = th ? std::vector<std::size_t> {1, 2, 3, 4} : std::vector<std::size_t> {1, 2, 3};
        for (int r = 0; r <= 4; ++r)
            x.run(vh::cat("datasets of rank ", r), [=] {
                all_dims(r, vals, {}, [&](std::vector<std::size_t> const& have) {
                    all_dims(1, {1, 2, 3, 4}, {}, [&](std::vector<std::size_t> const& w) { extents<1>(have, {w[0]}); });
                    all_dims(2, vals, {}, [&](std::vector<std::size_t> const& w) { extents<2>(have, {w[0], w[1]}); });
                    all_dims(3, vals, {}, [&](std::vector<std::size_t> const& w) { extents<3>(have, {w[0], w[1], w[2]}); });
                    if (r <= 2 || th) all_dims(4, {1, 2, 3}, {}, [&](std::vector<std::size_t> const& w) { extents<4>(have, {w[0], w[1], w[2], w[3]}); });
                });
            });
        x.run("large and empty extents", [] {
            for (std::size_t a : {0UL, 1UL, 255UL, 256UL, 65535UL, 65536UL, 70000UL})
                for (std::size_t b : {0UL, 1UL, 255UL, 256UL, 65535UL, 65536UL, 65537UL, 70000UL}) {
                    if (a != 0 && b != 0) extents<1>({a}, {b});
                    if (a <= 256 && b <= 256 && b != 0) extents<2>({a, 2}, {b, 2}), extents<2>({2, a}, {2, b});
                }
        });
        x.run("missing datasets and files", [] {
            for (char const* name : {"/e", "d/d", "", "/", "/D"}) {
                prog::ScopedFs fs;
                kio::reset_handles();
                fs.fs.files["f.h5"].dsets["d"] = v1d::array({2}, {1, 2});
                bool threw = false;
                try {
                    RaiiH5Hid const file(::H5Fopen("f.h5", H5F_ACC_RDONLY, H5P_DEFAULT), ::H5Fclose);
                    hclpp::check_extent_dset(file, name, std::array<std::size_t, 1> {2});
                } catch (std::exception const&) {
                    threw = true;
                }
                if (!threw) vh::violate("missing dataset accepted", name);
                if (std::string const h = handles(); !h.empty()) vh::violate("handles", h);
            }
        });
        x.run("life of a handle", [] { lives<RaiiH5Hid>(); });
#endif
        // the whole program: profiles of any other size refused on all processes, matching ones delivered
        int const nd = sim::ndim();
        std::array<int, 3> const n = nd == 1 ? std::array<int, 3> {6, 1, 1} : nd == 2 ? std::array<int, 3> {6, 4, 1} : std::array<int, 3> {5, 4, 4};
        for (int nfx = 0; nfx <= 2; ++nfx)
            for (int ng = 2; ng <= 3; ++ng)
                for (int procs = 1; procs <= 2; ++procs)
                    for (char const* ds : {"rho_1d", "u_1d", "P_1d", "fx_1d", "x0"})
                        x.run(vh::cat("profile ", ds, " nfx ", nfx, " ng ", ng, " on ", procs), [=] {
                            auto c = v1d::make(n, ng, nfx);
                            c.spec.mpi.nranks = procs;
                            std::vector<std::size_t> good;
                            {
                                prog::ScopedFs fs;
                                v1d::put(c, fs.fs);
                                good = fs.fs.files["profile.h5"].dsets[ds].dims;
                            }
                            std::vector<std::vector<std::size_t>> tries = {good, {}};
                            std::size_t const len = good.back();
                            for (std::size_t l = 1; l <= len + 3; ++l) {
                                auto g = good;
                                g.back() = l;
                                tries.push_back(g);
                            }
                            if (good.size() == 2)
                                for (std::size_t q = 0; q <= static_cast<std::size_t>(nfx) + 2; ++q) tries.push_back({q, len});
                            tries.push_back({len, static_cast<std::size_t>(std::max(nfx, 1))});
                            tries.push_back({len, 1});
                            tries.push_back({1, len});
                            tries.push_back({2, len / 2});
                            tries.push_back({len});
                            tries.push_back({1, 1, len});
                            for (std::size_t t = 0; t <= tries.size(); ++t) {
                                prog::ScopedFs fs;
                                v1d::put(c, fs.fs);
                                auto& f = fs.fs.files["profile.h5"];
                                std::string what = "missing";
                                bool match = false;
                                if (t == tries.size()) f.dsets.erase(ds);
                                else {
                                    match = tries[t] == good;
                                    what = text(tries[t]) + " instead of " + text(good);
                                    if (!match) {
                                        std::size_t cnt = 1;
                                        for (auto v : tries[t]) cnt *= v;
                                        f.dsets[ds] = v1d::array(tries[t], std::vector<double>(cnt, 0.5));
                                    }
                                }
                                kio::reset_handles();
                                auto s = c.spec;
                                auto const out = [&] {
                                    prog::Opt o;
                                    o.ini = s.text();
                                    o.mpi = s.mpi;
                                    return prog::run(o);
                                }();
                                std::string const h = handles();
                                if (!h.empty()) vh::violate("handles", what + ": " + h);
                                fs.fs.files.erase("profile.h5");
                                vh::trace_validated();
                                vh::transitions(kio::h5.calls);
                                vh::state(vh::Hash() << ds << what << nfx << ng << procs);
                                if (match) {
                                    if (!out.ok()) {
                                        vh::violate("matching profile refused", out.summary());
                                        continue;
                                    }
                                    auto const snaps = sim::read_all(fs.fs, nfx);
                                    std::string const d = snaps.empty() ? "no snapshot" : v1d::compare(c, snaps.front());
                                    if (!d.empty()) vh::violate("profile altered", d);
                                } else {
                                    bool ok = !out.mpi.deadlock;
                                    for (int r : out.rc) ok = ok && r == 1;
                                    if (!ok || !fs.fs.files.empty()) vh::violate(vh::cat("another profile ", ds, " accepted"), what + ": " + out.summary());
                                }
                            }
                        });
        // every HDF5 call of a run fails in turn: initial profile, snapshots, restart
        for (int procs = 1; procs <= 2; ++procs)
            for (int restart = 0; restart < 2; ++restart)
                for (int fault = -1; fault < 120; ++fault)
                    x.run(vh::cat(restart ? "restart" : "start", " on ", procs, " with failing call ", fault), [=] {
                        auto c = v1d::make(n, 2, 1);
                        c.spec.mpi.nranks = procs;
                        prog::ScopedFs fs;
                        v1d::put(c, fs.fs);
                        prog::Opt o;
                        o.mpi = c.spec.mpi;
                        if (restart) {
                            o.ini = c.spec.text();
                            prog::run(o);
                            c.spec.ini.set("Problem", "restart", "true").set("Problem", "restart_file", "result_00000001.h5").set("Output", "max_iter", 2);
                            fs.fs.files.erase("profile.h5");
                        }
                        std::size_t const before = fs.fs.files.size();
                        kio::reset_handles();
                        kio::h5.fail_at = fault;
                        o.ini = c.spec.text();
                        auto const out = prog::run(o);
                        kio::h5.fail_at = -1;
                        bool const hit = fault >= 0 && static_cast<std::uint64_t>(fault) < kio::h5.calls;
                        std::string const what = vh::cat("call ", fault, hit ? " " + kio::h5.call_log[static_cast<std::size_t>(fault)] : "");
                        std::string h;
                        for (auto const& e : kio::h5.errors) h += e + "; ";
                        for (auto const& [id, kind] : kio::h5.open) h += "a " + kind + " stays open; ";
                        // processes stopped in the middle of a communication with one that failed keep theirs
                        bool stuck = false;
                        for (int r : out.rc) stuck = stuck || r == -1;
                        if (!h.empty() && !stuck) vh::violate("handles after a failure", what + ": " + h);
                        bool some = false;
                        for (int r : out.rc) some = some || r == 1;
                        if (hit && !some) vh::violate("a failing call goes unnoticed", what + ": " + out.summary());
                        if (!hit && !out.ok()) vh::violate("run without failure", out.summary());
                        // before the first snapshot: no snapshot at all
                        if (hit && kio::h5.call_log.size() > 0 && procs == 1 && std::count(kio::h5.call_log.begin(), kio::h5.call_log.end(), "H5Acreate") == 0 && kio::h5.call_log.back() != "H5Tcopy" && fs.fs.files.size() > before + 1) vh::violate("continues after a failed reading", what);
                        vh::trace_validated();
                        vh::transitions(kio::h5.calls);
                        vh::state(vh::Hash() << what << procs << restart);
                        if (hit) vh::counter("failures injected");
                    });
    });
}
