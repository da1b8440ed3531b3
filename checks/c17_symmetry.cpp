// C17: mirror images, exchanged directions, shifted periodic states, other units, fewer directions.
#include "closed.hpp"
#include "component.hpp"

namespace {

char const* const names[] = {"X", "Y", "Z"};
char const* const kinds[] = {"NullGradient", "Reflexive", "Periodic"};

// a problem, before and after a transformation
struct Problem
{
    std::array<int, 3> n {1, 1, 1};
    int ng = 2, nfx = 1;
    std::array<std::vector<double>, 3> faces; // ghost faces included
    std::array<std::array<int, 2>, 3> bc {}; // kinds
    std::vector<int> order; // of application, 2 * direction + side
    ref::V3 g {0, 0, 0};
    double M = 0;
    std::vector<sim::Cell> cells; // x fastest
    std::string solver, limiter, pf = "Off";
    double eps = 1;
    double time_step = 0; // 0: free
    double first = 0;
    int steps = 4;
    double cfl = 0.4;
    std::array<int, 3> dims {1, 1, 1};
    std::size_t at(std::array<int, 3> a) const { return (static_cast<std::size_t>(a[2]) * static_cast<std::size_t>(n[1]) + static_cast<std::size_t>(a[1])) * static_cast<std::size_t>(n[0]) + static_cast<std::size_t>(a[0]); }
};

sim::Spec spec(Problem const& p)
{
    sim::Spec s;
    s.n = p.n;
    s.ng = p.ng;
    s.nfx = p.nfx;
    s.faces = p.faces;
    for (std::size_t d = 0; d < 3; ++d) {
        std::size_t const w = static_cast<int>(d) < sim::ndim() ? static_cast<std::size_t>(p.ng) : 0;
        s.ini.set("Grid", "x" + std::to_string(d) + "min", p.faces[d][w]).set("Grid", "x" + std::to_string(d) + "max", p.faces[d][w + static_cast<std::size_t>(p.n[d])]);
    }
    for (int d = 0; d < sim::ndim(); ++d) {
        s.ini.set("Boundary Condition", "BC_X" + std::to_string(d) + "_left", kinds[p.bc[static_cast<std::size_t>(d)][0]]);
        s.ini.set("Boundary Condition", "BC_X" + std::to_string(d) + "_right", kinds[p.bc[static_cast<std::size_t>(d)][1]]);
    }
    std::string pr; // the last applied is named first
    for (auto i = p.order.rbegin(); i != p.order.rend(); ++i) pr += std::string(names[*i / 2]) + (*i % 2 ? "_right " : "_left ");
    s.ini.set("Boundary Condition", "priority", pr);
    if (sim::gravity() == "Uniform") s.ini.set("Gravity", "gx0", p.g[0]).set("Gravity", "gx1", p.g[1]).set("Gravity", "gx2", p.g[2]);
    else s.ini.set("Gravity", "M", p.M);
    s.ini.set("Hydro", "riemann_solver", p.solver).set("Hydro", "reconstruction", p.limiter);
    s.ini.set("Pressure fix", "pressure_fix", p.pf);
    if (p.pf == "On") s.ini.set("Pressure fix", "eps_pf", p.eps);
    s.ini.set("Run", "t_end", 1e200).set("Run", "cfl", p.cfl);
    s.ini.set("Output", "max_iter", p.steps).set("Output", "iter_frequency", 1);
    if (p.time_step > 0) s.ini.set("Output", "time_frequency", p.time_step);
    s.mpi.nranks = p.dims[0] * p.dims[1] * p.dims[2];
    for (int q = 0; q < sim::ndim(); ++q) s.ini.set("Parallelization", "mpi_dims_cart_x" + std::to_string(q), p.dims[static_cast<std::size_t>(q)]);
    s.init = [p](int i, int j, int k) { return p.cells[p.at({i, j, k})]; };
    return s;
}

// new direction d is old direction perm[d]; flip: mirrored; shift: moved by whole cells (periodic)
struct Map
{
    std::array<std::size_t, 3> perm {0, 1, 2};
    std::array<bool, 3> flip {};
    std::array<int, 3> shift {};
    double rho = 1, vel = 1, len = 1; // units
    std::array<int, 3> old_of(std::array<int, 3> a, std::array<int, 3> n) const // n: of the new problem
    {
        std::array<int, 3> o {};
        for (std::size_t d = 0; d < 3; ++d) {
            int v = a[d];
            v = ((v - shift[d]) % n[d] + n[d]) % n[d];
            if (flip[d]) v = n[d] - 1 - v;
            o[perm[d]] = v;
        }
        return o;
    }
};

Problem apply(Map const& m, Problem const& p)
{
    Problem q = p;
    for (std::size_t d = 0; d < 3; ++d) {
        q.n[d] = p.n[m.perm[d]];
        q.dims[d] = p.dims[m.perm[d]];
        q.bc[d] = p.bc[m.perm[d]];
        q.faces[d] = p.faces[m.perm[d]];
        bool const on = static_cast<int>(d) < sim::ndim();
        if (m.shift[d]) {
            // the widths move along, the domain starts where it did
            std::vector<double> w;
            for (int i = 0; i < q.n[d]; ++i) {
                std::size_t const o = static_cast<std::size_t>((((i - m.shift[d]) % q.n[d]) + q.n[d]) % q.n[d] + q.ng);
                w.push_back(q.faces[d][o + 1] - q.faces[d][o]);
            }
            q.faces[d] = closed::faces(q.faces[d][static_cast<std::size_t>(q.ng)], w, q.ng, true);
        }
        if (m.flip[d]) {
            double const c = sim::spherical() && d == 1 ? std::numbers::pi : 0;
            std::reverse(q.faces[d].begin(), q.faces[d].end());
            for (double& f : q.faces[d]) f = c - f;
            std::swap(q.bc[d][0], q.bc[d][1]);
        }
        bool const length = !sim::spherical() || d == 0;
        if (length)
            for (double& f : q.faces[d]) f *= m.len;
        q.g[d] = p.g[m.perm[d]] * (m.flip[d] ? -1 : 1) * m.vel * m.vel / m.len;
        (void)on;
    }
    q.M = p.M * m.vel * m.vel * m.len;
    q.time_step = p.time_step * m.len / m.vel;
    q.order.clear();
    for (int o : p.order) {
        std::size_t d = 0;
        while (m.perm[d] != static_cast<std::size_t>(o / 2)) ++d;
        q.order.push_back(static_cast<int>(2 * d) + ((o % 2) != static_cast<int>(m.flip[d])));
    }
    for (int k = 0; k < q.n[2]; ++k)
        for (int j = 0; j < q.n[1]; ++j)
            for (int i = 0; i < q.n[0]; ++i) {
                sim::Cell c = p.cells[p.at(m.old_of({i, j, k}, q.n))], z = c;
                for (std::size_t d = 0; d < 3; ++d) z.u[d] = c.u[m.perm[d]] * (m.flip[d] ? -1 : 1) * m.vel;
                z.rho *= m.rho;
                z.P *= m.rho * m.vel * m.vel;
                q.cells[q.at({i, j, k})] = z;
            }
    return q;
}

// "" if b is the image of a
std::string compare(Map const& m, sim::Snap const& a, sim::Snap const& b, double tol)
{
    if (a.iter != b.iter) return vh::cat("iterations ", a.iter, " and ", b.iter);
    if (!vh::close(a.t * m.len / m.vel, b.t, tol)) return vh::cat("times ", vh::num(a.t * m.len / m.vel), " and ", vh::num(b.t));
    for (int k = 0; k < b.n[2]; ++k)
        for (int j = 0; j < b.n[1]; ++j)
            for (int i = 0; i < b.n[0]; ++i) {
                auto const o = m.old_of({i, j, k}, b.n);
                std::size_t const x = a.at(o[0], o[1], o[2]), y = b.at(i, j, k);
                double const e = a.E[x], v = std::sqrt(2 * e / a.rho[x]);
                auto bad = [&](std::string const& w, double p, double q) { return vh::cat("iteration ", a.iter, " cell ", i, ",", j, ",", k, ": ", w, " ", vh::num(p), " against ", vh::num(q)); };
                if (!vh::close(b.rho[y] / m.rho, a.rho[x], tol)) return bad("density", b.rho[y] / m.rho, a.rho[x]);
                double const em = m.rho * m.vel * m.vel;
                if (!vh::close(b.E[y] / em, e, tol)) return bad("energy", b.E[y] / em, e);
                if (!vh::close(b.P[y] / em, a.P[x], tol, tol * e)) return bad("pressure", b.P[y] / em, a.P[x]);
                if (!vh::close(b.T[y] / (m.vel * m.vel), a.T[x], tol, tol * e / a.P[x] * a.T[x])) return bad("temperature", b.T[y] / (m.vel * m.vel), a.T[x]);
                for (std::size_t d = 0; d < static_cast<std::size_t>(sim::ndim()); ++d) {
                    double const u = b.u[d][y] / m.vel * (m.flip[d] ? -1 : 1);
                    if (!vh::close(u, a.u[m.perm[d]][x], 0, tol * v)) return bad(vh::cat("velocity ", d), u, a.u[m.perm[d]][x]);
                }
                for (std::size_t f = 0; f < a.fx.size(); ++f)
                    if (!vh::close(b.fx[f][y], a.fx[f][x], tol, tol)) return bad("scalar", b.fx[f][y], a.fx[f][x]);
            }
    return "";
}

void check(std::string const& what, Problem const& p, Map const& m)
{
    double const tol = sim::radgas() ? 1e-8 : 1e-10;
    auto const a = sim::run_alone(spec(p)), b = sim::run_alone(spec(apply(m, p)));
    if (!a.ok() || !b.ok()) {
        // an invalid state stops both
        if (a.ok() != b.ok() || a.snaps.size() != b.snaps.size()) return vh::violate(vh::cat(what, ": one of the runs fails"), a.problem + "\n" + b.problem);
        vh::counter("both runs stop");
    }
    if (a.snaps.empty() || a.snaps.size() != b.snaps.size()) return vh::violate(vh::cat(what, ": number of snapshots"), vh::cat(a.snaps.size(), " and ", b.snaps.size()));
    for (std::size_t q = 0; q < a.snaps.size(); ++q) {
        std::string const e = compare(m, a.snaps[q], b.snaps[q], tol);
        if (!e.empty()) return vh::violate(what, e);
        vh::state(a.snaps[q].hash());
    }
    vh::transitions(2 * static_cast<std::uint64_t>(p.dims[0] * p.dims[1] * p.dims[2]) * (a.snaps.size() - 1));
    vh::trace_validated();
}

// variants: kinds of borders, grids, gravity, repair
Problem problem(std::array<int, 3> n, long code, int base, int variant, char const* sv, char const* lm, bool all_periodic)
{
    int const nd = sim::ndim();
    Problem p;
    p.n = n;
    p.ng = 2 + (variant % 7 == 6);
    p.nfx = variant % 3;
    p.solver = sv;
    p.limiter = lm;
    p.pf = variant % 4 == 3 ? "On" : "Off";
    p.eps = variant % 8 == 3 ? 0.9 : variant % 16 == 7 ? 2 : 9; // of the alphabet, some states are below
    bool const sph = sim::spherical();
    double const pi = std::numbers::pi;
    ref::V3 const a = sph ? ref::V3 {1, 0.42 * pi, 0.1} : ref::V3 {-0.3, 0, 0.1}, b = sph ? ref::V3 {2.5, 0.55 * pi, 1.4} : ref::V3 {0.9, 0.9, 0.8};
    for (std::size_t d = 0; d < 3; ++d) {
        bool const on = static_cast<int>(d) < nd;
        int const pat = on ? (variant + static_cast<int>(d)) % 4 : 0;
        // the ghost cells of a walled domain follow the user
        bool const per = all_periodic || (on && (variant >> d) % 5 == 4 && !sph);
        p.faces[d] = closed::faces(a[d], closed::widths(b[d] - a[d], n[d], pat), on ? p.ng : 0, per);
        if (per) p.bc[d] = {2, 2};
        else p.bc[d] = {static_cast<int>((variant + d) % 2), static_cast<int>((variant / 2 + d) % 2)};
    }
    for (int f = 0; f < 2 * nd; ++f) p.order.push_back(f);
    for (int r = 0; r < variant % 5; ++r) std::next_permutation(p.order.begin(), p.order.end());
    double const us = alpha::uscale();
    if (variant % 2) {
        p.g = {0.3 * us * us, nd > 1 ? -0.2 * us * us : 0, nd > 2 ? 0.15 * us * us : 0};
        p.M = 0.8 * us * us / ref::G;
    }
    p.cells.resize(static_cast<std::size_t>(n[0] * n[1] * n[2]));
    auto const f = alpha::digits(code, base, n, p.nfx, static_cast<int>(code % 2));
    for (int k = 0; k < n[2]; ++k)
        for (int j = 0; j < n[1]; ++j)
            for (int i = 0; i < n[0]; ++i) p.cells[p.at({i, j, k})] = f(i, j, k);
    return p;
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough(), sph = sim::spherical();
        std::array<int, 3> const n = nd == 1 ? std::array<int, 3> {5, 1, 1} : nd == 2 ? std::array<int, 3> {4, 3, 1} : std::array<int, 3> {4, 3, 3};
        int const base = nd == 1 ? 3 : 2;
        long const all = alpha::ipow(base, std::min(24, n[0] * n[1] * n[2]));
        long const codes = std::min<long>(all, th ? (nd == 3 ? 96 : 512) : nd == 3 ? 20 : nd == 2 ? 64 : 243);
        auto code_of = [=](long c) { return codes == all ? c : (c * 2654435761L + 12345) % all; };
        long idx = 0;
        std::vector<std::pair<std::string, Map>> maps;
        for (int d = sph; d < nd; ++d) {
            Map m;
            m.flip[static_cast<std::size_t>(d)] = true;
            maps.emplace_back(vh::cat("mirror ", d), m);
        }
        if (!sph)
            for (std::size_t d = 0; d < static_cast<std::size_t>(nd); ++d)
                for (std::size_t e = d + 1; e < static_cast<std::size_t>(nd); ++e) {
                    Map m;
                    std::swap(m.perm[d], m.perm[e]);
                    maps.emplace_back(vh::cat("exchange ", d, " ", e), m);
                }
        if (nd == 3 && !sph) {
            Map m;
            m.perm = {1, 2, 0};
            m.flip = {true, false, true};
            maps.emplace_back("rotation", m);
        }
        if (!sim::radgas()) {
            double const u[4][3] = {{1048576, 1. / 1024, 128}, {1e-20, 1e5, 1e12}, {1e12, 1e-4, 1e-9}, {3, 7, 0.1}};
            for (auto const& v : u) {
                Map m;
                m.rho = v[0];
                m.vel = v[1];
                m.len = v[2];
                maps.emplace_back(vh::cat("units ", v[0], " ", v[1], " ", v[2]), m);
            }
        }
        for (auto const& [name, m] : maps)
            for (char const* sv : alpha::solvers)
                for (char const* lm : alpha::limiters)
                    for (long c = 0; c < codes; ++c) {
                        ++idx;
                        long const var = (c * 5 + idx) % 60;
                        x.run(vh::cat(name, " ", sv, " ", lm, " variant ", var, " init ", c), [=, nm = name, mp = m] {
                            Problem p = problem(n, code_of(c), base, static_cast<int>(var), sv, lm, false);
                            if (nm.starts_with("exchange") || nm == "rotation" || nm.starts_with("mirror")) {
                                auto const sp = component::splits(1 + static_cast<int>(c % (nd == 1 ? 2 : 4)), n, p.ng);
                                if (!sp.empty()) p.dims = sp[static_cast<std::size_t>(c) % sp.size()];
                            }
                            check(vh::cat(nm, " ", sv, " ", lm), p, mp);
                        });
                    }
        // periodic states moved by whole cells
        if (!sph)
            for (char const* sv : alpha::solvers)
                for (char const* lm : alpha::limiters)
                    for (int d = 0; d < nd; ++d)
                        for (int by = 1; by < n[static_cast<std::size_t>(d)]; ++by)
                            for (long c = 0; c < (nd == 3 ? codes / 4 : codes / 2); ++c) {
                                ++idx;
                                long const var = (c * 7 + idx) % 60;
                                x.run(vh::cat("shift ", d, " by ", by, " ", sv, " ", lm, " variant ", var, " init ", c), [=] {
                                    Map m;
                                    m.shift[static_cast<std::size_t>(d)] = by;
                                    check(vh::cat("shift ", d, " ", sv, " ", lm), problem(n, code_of(c), base, static_cast<int>(var), sv, lm, true), m);
                                });
                            }
        // problems that vary along one (two) of the directions, against the reference in as many dimensions
        if (nd > 1)
            for (char const* sv : alpha::solvers)
                for (char const* lm : alpha::limiters)
                    for (int low = 1; low < nd; ++low)
                        for (long c = 0; c < (th ? 243 : 48); ++c)
                            x.run(vh::cat("in ", low, "d ", sv, " ", lm, " init ", c), [=] {
                                std::array<int, 3> const m = {5, low > 1 ? 3 : nd > 1 ? 2 : 1, nd > 2 ? 2 : 1};
                                Problem p = problem(m, 0, 2, 0, sv, lm, false);
                                std::array<int, 3> const ml = {5, low > 1 ? 3 : 1, 1};
                                long const code = low == 1 ? c * (th ? 1 : 5) : (c * 40503 + 77) % 32768;
                                auto const f = alpha::digits(code, low == 1 ? 3 : 2, ml, p.nfx = 1, static_cast<int>(c % 2));
                                for (int k = 0; k < m[2]; ++k)
                                    for (int j = 0; j < m[1]; ++j)
                                        for (int i = 0; i < m[0]; ++i) {
                                            sim::Cell z = f(i, low > 1 ? j : 0, 0);
                                            for (int d = low; d < nd; ++d) z.u[static_cast<std::size_t>(d)] = 0;
                                            p.cells[p.at({i, j, k})] = z;
                                        }
                                int const pat = static_cast<int>(c % 4);
                                p.M = 0.5 * alpha::uscale() * alpha::uscale() / ref::G;
                                p.g = {0.2, low > 1 ? -0.1 : 0, 0};
                                for (std::size_t d = 0; d < 3; ++d) {
                                    bool const on = static_cast<int>(d) < nd;
                                    double const a = p.faces[d][static_cast<std::size_t>(on ? p.ng : 0)], b = p.faces[d][p.faces[d].size() - 1 - static_cast<std::size_t>(on ? p.ng : 0)];
                                    p.faces[d] = closed::faces(a, closed::widths(b - a, m[d], on ? pat : 0), on ? p.ng : 0, !sph);
                                    p.bc[d] = static_cast<int>(d) < low ? std::array<int, 2> {static_cast<int>(c % 2), static_cast<int>(c / 2 % 2)} : std::array<int, 2> {static_cast<int>(c / 3 % 2), static_cast<int>(c / 3 % 2)};
                                    if (static_cast<int>(d) >= low && !sph && c % 5 == 0) p.bc[d] = {2, 2};
                                }
                                // the same small step in all dimensions
                                p.time_step = 0.004 / alpha::uscale();
                                p.steps = 5;
                                sim::Spec const s = spec(p);
                                auto const r = sim::run_alone(s);
                                if (!r.ok()) return vh::violate("a problem of fewer directions fails", r.problem);
                                sim::Spec t = s;
                                t.n = ml;
                                for (std::size_t d = static_cast<std::size_t>(low); d < 3; ++d) {
                                    std::size_t const g = static_cast<int>(d) < nd ? static_cast<std::size_t>(p.ng) : 0;
                                    t.faces[d] = {s.faces[d][g], s.faces[d][g + static_cast<std::size_t>(p.n[d])]};
                                    std::string const b = "BC_X" + std::to_string(d);
                                    t.ini.unset("Boundary Condition", b + "_left").unset("Boundary Condition", b + "_right");
                                }
                                t.ini.unset("Boundary Condition", "priority");
                                t.init = [=](int i, int j, int) { return p.cells[p.at({i, j, 0})]; };
                                ref::force_ndim = low;
                                ref::Sim q(t);
                                ref::force_ndim = 0;
                                q.run();
                                if (q.snaps.size() != r.snaps.size()) return vh::violate("a problem of fewer directions: number of snapshots", vh::cat(r.snaps.size(), " against ", q.snaps.size()));
                                double const tol = 1e-10;
                                for (std::size_t z = 0; z < q.snaps.size(); ++z) {
                                    auto const &A = r.snaps[z], &B = q.snaps[z];
                                    for (int k = 0; k < m[2]; ++k)
                                        for (int j = 0; j < m[1]; ++j)
                                            for (int i = 0; i < m[0]; ++i) {
                                                std::size_t const u = A.at(i, j, k), v = B.at(i, low > 1 ? j : 0, 0);
                                                double const vs = std::sqrt(2 * B.E[v] / B.rho[v]);
                                                auto bad = [&](std::string const& w, double f1, double f2) { vh::violate(vh::cat("in ", low, "d ", sv, " ", lm), vh::cat("iteration ", A.iter, " cell ", i, ",", j, ",", k, ": ", w, " ", vh::num(f1), " against ", vh::num(f2))); };
                                                if (!vh::close(A.t, B.t, tol)) return bad("time", A.t, B.t);
                                                if (!vh::close(A.rho[u], B.rho[v], tol)) return bad("density", A.rho[u], B.rho[v]);
                                                if (!vh::close(A.E[u], B.E[v], tol)) return bad("energy", A.E[u], B.E[v]);
                                                if (!vh::close(A.P[u], B.P[v], tol, tol * B.E[v])) return bad("pressure", A.P[u], B.P[v]);
                                                for (int d = 0; d < nd; ++d) {
                                                    double const w = d < low ? B.u[static_cast<std::size_t>(d)][v] : 0;
                                                    if (!vh::close(A.u[static_cast<std::size_t>(d)][u], w, 0, tol * vs)) return bad(vh::cat("velocity ", d), A.u[static_cast<std::size_t>(d)][u], w);
                                                }
                                                if (!vh::close(A.fx[0][u], B.fx[0][v], tol, tol)) return bad("scalar", A.fx[0][u], B.fx[0][v]);
                                            }
                                    vh::state(A.hash());
                                }
                                vh::transitions(static_cast<std::uint64_t>(p.steps));
                                vh::trace_validated();
                            });
    });
}
