// Used when the interface of a component differs from the one the check calls: the same component inside real runs, against the reference.
#pragma once
#include "common.hpp"

namespace runs_only {

// all pairs of states on both sides of a face of each direction (riemann), or all patterns of three states on a line (otherwise)
inline int sweep(int argc, char** argv, bool riemann)
{
    return vh::main(argc, argv, [riemann](vh::Explorer& x) {
        int const nd = sim::ndim();
        for (int dir = 0; dir < nd; ++dir)
            for (char const* sv : alpha::solvers)
                for (char const* lm : alpha::limiters) {
                    if (riemann != (lm == alpha::limiters[0]) && (riemann || sv == alpha::solvers[2])) continue;
                    for (int code = 0; code < (riemann ? 36 * 9 : 243); ++code)
                        x.run(vh::cat("in a run: ", sv, " ", lm, " direction ", dir, " init ", code), [=] {
                            sim::Spec s;
                            s.nfx = 1;
                            for (int d = 0; d < nd; ++d) s.n[static_cast<std::size_t>(d)] = d == dir ? (riemann ? 4 : 5) : 2;
                            alpha::domain(s);
                            s.ini.set("Hydro", "riemann_solver", sv).set("Hydro", "reconstruction", lm).set("Boundary Condition", "BC", "NullGradient");
                            s.ini.set("Output", "iter_frequency", 1).set("Output", "max_iter", 2);
                            s.init = [=](int i, int j, int k) {
                                int const q = std::array<int, 3> {i, j, k}[static_cast<std::size_t>(dir)];
                                static double const f[] = {0, 1, 2.5};
                                sim::Cell c;
                                if (riemann) {
                                    c = alpha::state(q < 2 ? code % 6 : code / 6 % 6, 1);
                                    double const m = f[q < 2 ? code / 36 % 3 : code / 108];
                                    for (double& u : c.u) u *= m;
                                } else {
                                    int z = code;
                                    for (int p = 0; p < q; ++p) z /= 3;
                                    c = alpha::state(z % 3, 1);
                                }
                                return c;
                            };
                            auto const r = ref::conform(s);
                            if (!r.diff.empty()) vh::violate(vh::cat("in a run: ", sv, " ", lm), r.diff);
                            vh::transitions(2);
                            vh::trace_validated();
                        });
                }
    });
}

} // namespace runs_only
