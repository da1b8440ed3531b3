// C21: the real time loop against the reference scheme, over all initial states of an alphabet and all options.
#include "common.hpp"

static void one(std::string const& id, sim::Spec const& s)
{
    auto const r = ref::conform(s);
    if (!r.diff.empty()) vh::violate(id.substr(0, id.find(" init")), r.diff);
    if (!r.model.error.empty()) vh::counter("stopped on an invalid state");
    vh::counter("steps", static_cast<std::uint64_t>(r.model.iter));
}

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough();
        // size of the domain and of the alphabet
        std::array<int, 3> const n = nd == 1 ? std::array<int, 3> {th ? 5 : 4, 1, 1} : nd == 2 ? std::array<int, 3> {3, 2, 1} : std::array<int, 3> {2, 2, 2};
        int const base = nd == 1 ? (th ? 5 : 4) : nd == 2 ? (th ? 3 : 2) : 2;
        long const codes = alpha::ipow(base, n[0] * n[1] * n[2]);
        std::vector<std::array<char const*, 2>> bcs = {{"Periodic", "Periodic"}, {"Reflexive", "NullGradient"}, {"NullGradient", "Reflexive"}};
        if (sim::spherical()) bcs.erase(bcs.begin());
        int combo = 0;
        for (char const* sv : alpha::solvers)
            for (char const* lm : alpha::limiters)
                for (std::size_t b = 0; b < bcs.size(); ++b) {
                    ++combo;
                    // quick: every boundary kind with every solver and with every limiter, not all triples
                    if (!th && static_cast<std::size_t>(combo / static_cast<int>(bcs.size())) % bcs.size() != b && !(nd == 1 && b == 0)) continue;
                    for (long code = 0; code < codes; ++code)
                        x.run(vh::cat(sv, " ", lm, " ", bcs[b][0], " init ", code), [=] {
                            sim::Spec s;
                            s.n = n;
                            s.nfx = 2;
                            alpha::domain(s);
                            s.init = alpha::digits(code, base, n, 2);
                            s.ini.set("Hydro", "riemann_solver", sv).set("Hydro", "reconstruction", lm);
                            s.ini.set("Output", "iter_frequency", 1).set("Output", "max_iter", 3);
                            for (int d = 0; d < nd; ++d) {
                                std::string const k = "BC_X" + std::to_string(d);
                                bool const swap = d % 2 == 1; // different kinds in different directions
                                s.ini.set("Boundary Condition", k + "_left", bcs[b][swap]).set("Boundary Condition", k + "_right", bcs[b][!swap]);
                            }
                            one(vh::cat(sv, " ", lm, " ", bcs[b][0]), s);
                        });
                }
        // longer runs on more cells, non-uniform grids, repair, heating, several gamma
        for (char const* sv : alpha::solvers)
            for (char const* lm : alpha::limiters)
                for (int v = 0; v < 8; ++v)
                    for (long code = 0; code < (th ? 24 : 6); ++code)
                        x.run(vh::cat("long ", sv, " ", lm, " ", v, " init ", code), [=] {
                            sim::Spec s;
                            s.n = nd == 1 ? std::array<int, 3> {9, 1, 1} : nd == 2 ? std::array<int, 3> {5, 4, 1} : std::array<int, 3> {4, 3, 3};
                            s.nfx = v % 3;
                            s.ng = 2 + (v == 5);
                            alpha::domain(s);
                            auto const nn = s.n;
                            int const nfx = s.nfx;
                            s.init = [=](int i, int j, int k) { return alpha::state(static_cast<int>((i * (code + 1) + j * (code / 2 + 2) + k * 3 + code) % 5) + (i + j + k == code % 7), nfx); };
                            s.ini.set("Hydro", "riemann_solver", sv).set("Hydro", "reconstruction", lm);
                            s.ini.set("Output", "iter_frequency", 2).set("Output", "max_iter", 7);
                            s.ini.set("Boundary Condition", "BC", v % 2 ? "NullGradient" : "Reflexive");
                            if (v & 1) s.ini.set("Perfect Gas", "gamma", 1.4).set("Perfect Gas", "mu", 0.6);
                            if (v & 2) { // stretched grid
                                auto const p = ref::params(s);
                                s.faces = p.faces;
                                for (int d = 0; d < nd; ++d)
                                    for (std::size_t i = 0; i < s.faces[d].size(); ++i) s.faces[d][i] += 0.08 * (p.faces[d][1] - p.faces[d][0]) * std::sin(1.7 * static_cast<double>(i) + d);
                            }
                            if (v & 4) s.ini.set("Run", "cfl", 0.8);
                            one(vh::cat("long ", sv, " ", lm, " ", v), s);
                        });
        // many cells, steps, ghost layers and scalars
        for (int v = 0; v < (th ? 48 : 12); ++v)
            x.run(vh::cat("large ", v), [=] {
                sim::Spec s;
                s.n = alpha::large();
                if (v % 4 == 3) std::swap(s.n[0], s.n[static_cast<std::size_t>(nd - 1)]);
                s.ng = 2 + v % 4;
                s.nfx = v % 4 == 1 ? 10 : v % 3;
                alpha::domain(s);
                s.init = alpha::smooth(s.n, s.nfx, v);
                s.ini.set("Hydro", "riemann_solver", alpha::solvers[v % 3]).set("Hydro", "reconstruction", alpha::limiters[(v + v / 3) % 4]);
                s.ini.set("Output", "iter_frequency", 7).set("Output", "max_iter", nd == 1 ? 90 : nd == 2 ? 35 : 12).set("Run", "t_end", 1e9);
                s.ini.set("Boundary Condition", "BC", v % 2 ? "NullGradient" : "Reflexive");
                if (!sim::spherical() && v % 3 == 2) s.ini.set("Boundary Condition", "BC", "Periodic");
                auto const r = ref::conform(s, 1e-7);
                if (!r.diff.empty()) vh::violate("large", r.diff);
                if (!r.model.error.empty()) vh::counter("stopped on an invalid state");
                vh::counter("steps", static_cast<std::uint64_t>(r.model.iter));
            });
    });
}
