// C24: what a snapshot holds.
#include "common.hpp"
#include <filesystem>
#include <algorithm>
#include <set>

namespace {

double coded(int i, int j, int k, int what) { return (1 + what * 0.1) * (1 + i + 16. * j + 256. * k); }

struct Options
{
    std::array<int, 3> n {6, 1, 1}, dims {0, 0, 0};
    int p = 1, perm = 0, ng = 2, nfx = 0;
    std::string dir, prefix;
    double gamma = 1.4, t0 = 0;
    bool user_grid = false;
};

sim::Spec make(Options const& o)
{
    sim::Spec s;
    s.n = o.n;
    s.ng = o.ng;
    s.nfx = o.nfx;
    alpha::domain(s);
    s.mpi.nranks = o.p;
    for (int r = 0; r < o.p && o.perm; ++r) s.mpi.cart_perm.push_back(o.perm == 1 ? o.p - 1 - r : (r + 1) % o.p);
    for (int q = 0; q < sim::ndim(); ++q)
        if (o.dims[q]) s.ini.set("Parallelization", "mpi_dims_cart_x" + std::to_string(q), o.dims[q]);
    s.ini.set("Boundary Condition", "BC", "NullGradient").set("Perfect Gas", "gamma", o.gamma).set("Run", "t_ini", o.t0).set("Run", "t_end", o.t0 + 1e6);
    s.ini.set("Output", "iter_frequency", 1).set("Output", "max_iter", 2);
    if (!o.dir.empty()) s.ini.set("Output", "directory", o.dir);
    if (!o.prefix.empty()) s.ini.set("Output", "prefix", o.prefix);
    int const nfx = o.nfx;
    // every element of every field different, weak velocities
    s.init = [=](int i, int j, int k) {
        sim::Cell c;
        c.rho = coded(i, j, k, 0);
        for (int d = 0; d < 3; ++d) c.u[static_cast<std::size_t>(d)] = 1e-6 * alpha::uscale() * coded(i, j, k, 1 + d) * (d == 1 ? -1 : 1);
        c.P = alpha::pscale() * coded(i, j, k, 4);
        for (int q = 0; q < nfx; ++q) c.fx.push_back(coded(i, j, k, 5 + q));
        return c;
    };
    if (o.user_grid) {
        auto const p = ref::params(s);
        s.faces = p.faces;
        for (int d = 0; d < sim::ndim(); ++d)
            for (std::size_t i = 0; i < s.faces[d].size(); ++i) s.faces[d][i] += 0.08 * (p.faces[d][1] - p.faces[d][0]) * std::sin(1.7 * static_cast<double>(i) + d);
    }
    return s;
}

void check(sim::Spec const& s, Options const& o, int first_id)
{
    int const nd = sim::ndim();
    auto r = sim::run(s);
    std::sort(r.snaps.begin(), r.snaps.end(), [](auto const& a, auto const& b) { return a.output_id < b.output_id; }); // names are ordered up to eight digits only
    vh::trace_validated();
    vh::transitions(2);
    auto bad = [&](std::string const& key, std::string const& d) { vh::violate(key, d); };
    if (!r.ok()) return bad("the run fails or a dataset is missing", r.problem);
    ref::Params const par = ref::params(s);
    std::string const base = kio::norm((o.dir.empty() ? "." : o.dir) + "/" + (o.prefix.empty() ? "result" : o.prefix));
    int id = first_id;
    for (auto const& q : r.snaps) {
        vh::state(q.hash());
        if (q.output_id < first_id) continue; // of the run restarted from
        char num[16];
        std::snprintf(num, sizeof num, "_%08d.h5", id);
        if (q.path != base + num) bad("name of the file", q.path + " instead of " + base + num);
        if (q.output_id != id) bad("output_id", vh::cat(q.output_id, " instead of ", id));
        ++id;
        kio::File const& f = kio::fs->files.at(q.path);
        // the datasets: these and no other
        std::set<std::string> want {"rho", "P", "E", "T", "x0", "x1", "x2", "x0_ng", "x1_ng", "x2_ng", "iter", "output_id", "iter_output_id", "time_output_id", "current_time", "gamma"};
        for (int d = 0; d < nd; ++d) want.insert("ux" + std::to_string(d));
        for (int c = 0; c < o.nfx; ++c) want.insert("fx" + std::to_string(c));
        for (auto const& w : want)
            if (!f.dsets.count(w)) bad("missing dataset " + w, q.path);
        for (auto const& [name, d] : f.dsets) {
            if (!want.count(name)) bad("unexpected dataset " + name, q.path);
            if (d.writes.size() != d.count()) {
                bad("harness: write counters", name);
                continue;
            }
            for (std::size_t e = 0; e < d.count(); ++e)
                if (d.writes[e] != 1) {
                    bad("elements of " + std::string(name.substr(0, 2) == "fx" ? "fx" : name) + " not written exactly once", vh::cat(q.path, " element ", e, " written ", d.writes[e], " times"));
                    break;
                }
        }
        for (char const* a : {"git_build_string", "git_branch", "compile_date", "compile_time"})
            if (!f.attrs.count(a)) bad("missing attribute", a);
        if (q.n != o.n) return bad("extents", "");
        if (q.gamma != o.gamma) bad("adiabatic index", vh::num(q.gamma));
        for (int d = 0; d < 3; ++d) {
            auto const& x = par.faces[d];
            int const g = d < nd ? o.ng : 0;
            if (q.x[d].size() != x.size() || q.x_ng[d].size() != x.size() - static_cast<std::size_t>(2 * g)) {
                bad("extents of the coordinates", vh::cat(d));
                continue;
            }
            for (std::size_t i = 0; i < x.size(); ++i)
                if (!vh::close(q.x[d][i], x[i], 1e-13, 1e-13)) {
                    bad("coordinates", vh::cat("x", d, "[", i, "] = ", q.x[d][i], " instead of ", x[i]));
                    break;
                }
            for (std::size_t i = 0; i < q.x_ng[d].size(); ++i)
                if (q.x_ng[d][i] != q.x[d][i + static_cast<std::size_t>(g)]) {
                    bad("coordinates without ghosts", vh::cat("x", d, "_ng[", i, "]"));
                    break;
                }
        }
        // consistency of the fields
        for (std::size_t c = 0; c < q.rho.size(); ++c) {
            double ek = 0;
            for (int d = 0; d < nd; ++d) ek += q.rho[c] * q.u[d][c] * q.u[d][c] / 2;
            double const E = ek + par.eos.evol(q.rho[c], q.P[c]);
            if (!vh::close(E, q.E[c], 1e-9)) {
                bad("energy and pressure disagree", vh::cat(q.path, " cell ", c, ": E ", q.E[c], ", from P ", E));
                break;
            }
            if (!vh::close(par.eos.temp_from_pres(q.rho[c], q.P[c]), q.T[c], 1e-9)) {
                bad("temperature and pressure disagree", vh::cat(q.path, " cell ", c, ": T ", q.T[c]));
                break;
            }
        }
    }
    if (id != first_id + (first_id ? 2 : 3)) bad("number of snapshots", vh::cat(id - first_id));
    if (first_id) return;
    // the initial state, element by element
    auto const& q = r.snaps.front();
    if (q.t != o.t0 || q.iter != 0) bad("time or iteration of the initial state", vh::cat(q.t, " ", q.iter));
    for (int k = 0; k < o.n[2]; ++k)
        for (int j = 0; j < o.n[1]; ++j)
            for (int i = 0; i < o.n[0]; ++i) {
                sim::Cell const c = s.init(i, j, k);
                std::size_t const a = q.at(i, j, k);
                auto cmp = [&](char const* w, double have, double want, double rt) {
                    if (!vh::close(have, want, rt)) vh::violate(std::string("value of ") + w, vh::cat("at ", i, ",", j, ",", k, ": ", have, " instead of ", want));
                };
                cmp("rho", q.rho[a], c.rho, 0);
                cmp("P", q.P[a], c.P, 1e-9);
                for (int d = 0; d < nd; ++d) cmp("u", q.u[d][a], c.u[d], 1e-13);
                for (int f = 0; f < o.nfx; ++f) cmp("fx", q.fx[f][a], c.fx[f], 1e-14);
            }
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        bool const th = vh::thorough();
        int const nd = sim::ndim();
        std::vector<std::array<int, 3>> sizes;
        if (nd == 1) sizes = {{6, 1, 1}, {11, 1, 1}, {17, 1, 1}};
        if (nd == 2) sizes = {{6, 6, 1}, {9, 7, 1}};
        if (nd == 3) sizes = {{4, 5, 7}, {6, 4, 5}};
        bool const single0 = sim::gravity() == "Internal_mass";
        int const pmax = nd == 1 ? 6 : 8;
        for (auto const& n : sizes)
            for (int p = 1; p <= pmax; ++p)
                for (int a = 0; a <= p; ++a)
                    for (int b = 0; b <= p; ++b)
                        for (int c = 0; c <= p; ++c) {
                            // explicit products, or all left to MPI
                            bool const all0 = a + b + c == 0;
                            if (!all0 && a * b * c != p) continue;
                            if (all0 && single0) continue;
                            if (single0 && a > 1) continue;
                            if ((nd < 2 && b > 1) || (nd < 3 && c > 1)) continue;
                            std::array<int, 3> const dims {a, b, c};
                            bool small = false;
                            for (int q = 0; q < nd; ++q) small = small || (dims[q] > 1 && n[q] / dims[q] < 2) || (all0 && p > 1 && n[q] / p < 2);
                            if (small) continue;
                            for (int perm = 0; perm < (p > 1 ? 3 : 1); ++perm)
                                for (int nfx : {0, 1, 2, 4, 10}) {
                                    if (!th && p > 2 && (nfx == 1 || nfx == 4 || (perm + nfx / 2 + p) % 2)) continue;
                                    for (int ng : {2, 3, 4}) {
                                        bool tight = false;
                                        for (int q = 0; q < nd; ++q) tight = tight || n[q] / std::max(1, all0 ? p : dims[q]) < ng;
                                        if (ng > 2 && (tight || nfx % 2 || (!th && p > 4))) continue;
                                        Options o;
                                        o.n = n;
                                        o.dims = dims;
                                        o.p = p;
                                        o.perm = perm;
                                        o.nfx = nfx;
                                        o.ng = ng;
                                        o.user_grid = (perm + nfx + ng) % 2 == 1;
                                        o.t0 = 0.25 * (nfx % 3);
                                        x.run(vh::cat(n[0], "x", n[1], "x", n[2], " on ", a, "x", b, "x", c, " of ", p, " placement ", perm, " scalars ", nfx, " ghosts ", ng), [=] {
                                            prog::ScopedFs fs;
                                            check(make(o), o, 0);
                                        });
                                    }
                                }
                        }
        // many cells, processes, ghost layers and scalars
        for (int v = 0; v < (th ? 24 : 6); ++v)
            x.run(vh::cat("large ", v), [=] {
                Options o;
                o.n = alpha::large();
                static int const grids[][3] = {{7, 1, 1}, {4, 3, 1}, {2, 2, 3}, {1, 5, 2}, {3, 1, 2}, {1, 8, 1}};
                o.p = 1;
                o.ng = 2 + v % 4;
                for (int d = 0; d < nd; ++d) {
                    int e = nd == 1 ? 1 + 5 * v % 17 : grids[v % 6][d];
                    if (d == 0 && single0) e = 1;
                    while (e > 1 && o.n[static_cast<std::size_t>(d)] / e < o.ng) --e;
                    o.p *= o.dims[static_cast<std::size_t>(d)] = e;
                }
                o.perm = v % 3;
                o.nfx = v % 2 ? 10 : 3;
                o.user_grid = v % 4 == 1;
                prog::ScopedFs fs;
                check(make(o), o, 0);
            });
        // names
        for (char const* dir : {"", ".", "out", "out/", "./out", "a/b", "out/../out", "d.h5"})
            for (char const* prefix : {"", "result", "r", "my_run", "x.y", "sub-1", "_"})
                for (int p : {1, 2})
                    x.run(vh::cat("directory '", dir, "' prefix '", prefix, "' on ", p), [=] {
                        Options o;
                        o.n = sizes[0];
                        o.p = single0 && nd == 1 ? 1 : p;
                        if (single0 && p > 1) o.dims = {1, 0, 0};
                        o.dir = dir;
                        o.prefix = prefix;
                        prog::ScopedFs fs;
                        check(make(o), o, 0);
                    });
        // another run of the same name was here before: nothing of it is left in the snapshots
        for (int other = 0; other < 4; ++other)
            for (int nfx : {0, 1, 3})
                for (int p : {1, 2, 4}) {
                    if ((single0 && nd == 1 && p > 1) || (nd == 1 && sizes[0][0] / p < 2)) continue;
                    x.run(vh::cat("after another run ", other, " scalars ", nfx, " on ", p), [=] {
                        Options o;
                        o.n = sizes[0];
                        o.p = p;
                        if (single0) o.dims = {1, 0, 0};
                        o.nfx = nfx;
                        Options before = o;
                        before.p = 1;
                        if (other % 2) before.nfx = nfx ? nfx - 1 : 2;
                        else before.nfx = nfx + 1;
                        if (other >= 2) before.n = sizes[1], before.ng = 3;
                        before.user_grid = other == 1;
                        prog::ScopedFs fs;
                        auto const r = sim::run(make(before));
                        if (!r.ok() || r.snaps.size() != 3) return vh::violate("the run fails", r.problem);
                        check(make(o), o, 0);
                    });
                }
        // numbers beyond the first ones, and beyond eight digits
        for (int id : {8, 9, 98, 99, 999, 12345, 999998, 9999999, 99999998, 100000000, 2000000000})
            x.run(vh::cat("numbers after ", id), [=] {
                Options o;
                o.n = sizes[0];
                o.nfx = 1;
                prog::ScopedFs fs;
                sim::Spec s = make(o);
                auto const r = sim::run(s);
                if (!r.ok()) return vh::violate("the run fails", r.problem);
                kio::File f = fs.fs.files.at(r.snaps[0].path);
                std::memcpy(f.dsets.at("output_id").bytes.data(), &id, 4);
                fs.fs.files.clear();
                fs.fs.files["start.h5"] = f;
                s.ini.set("Problem", "restart", "true").set("Problem", "restart_file", "start.h5");
                s.init = nullptr;
                check(s, o, id + 1);
            });
    });
}
