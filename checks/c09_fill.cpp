// C09: what each kind of boundary puts in the ghost cells.
#include "ghosts.hpp"

namespace {

char const* const names[] = {"NullGradient", "Periodic", "Reflexive", "UserDefined"};

void check(sim::Spec s, std::array<std::string, 6> const& faces)
{
    int const nd = sim::ndim();
    int const nfx = s.nfx;
    s.user_value = [=](int d, int f) { return alpha::state(2 * d + f, nfx); };
    auto const c = ghosts::capture(s);
    if (!c.problem.empty()) return vh::violate("the run fails", c.problem);
    vh::trace_validated();
    vh::transitions(static_cast<std::uint64_t>(2 * nd));
    ghosts::Global w;
    std::string e = ghosts::gather(c.blocks, s.n, w);
    if (!e.empty()) return vh::violate("blocks", e);
    vh::Hash h;
    for (int k = 0; k < s.n[2]; ++k)
        for (int j = 0; j < s.n[1]; ++j)
            for (int i = 0; i < s.n[0]; ++i)
                for (int f = 0; f < w.nf; ++f) {
                    if (f >= 1 && f <= nd) continue;
                    if (w.at(f, {i, j, k}) != ghosts::marker(f, {i, j, k})) return vh::violate("interior cells are changed", vh::cat("cell ", i, ",", j, ",", k, " field ", f));
                }
    for (auto const& b : c.blocks)
        for (double v : b.a) h << v;
    vh::state(h);
    ghosts::Rules r;
    r.n = s.n;
    r.faces = faces;
    for (int f = 0; f < 2 * nd; ++f) r.order.push_back(f);
    ref::Eos const eos = ref::params(s).eos;
    r.user = [=](int face, int f) {
        sim::Cell const q = alpha::state(face, nfx);
        if (f == 0) return q.rho;
        if (f <= nd) return q.rho * q.u[static_cast<std::size_t>(f - 1)];
        if (f >= 2 + nd) return q.fx[static_cast<std::size_t>(f - 2 - nd)];
        double ek = 0;
        for (int d = 0; d < nd; ++d) ek += q.rho * q.u[static_cast<std::size_t>(d)] * q.u[static_cast<std::size_t>(d)] / 2;
        return ek + eos.evol(q.rho, q.P);
    };
    e = ghosts::compare(c.blocks, w, r, ghosts::physical | ghosts::inside);
    if (!e.empty()) return vh::violate("ghost cells", e);
    // user boundaries are called on the processes at the border only, once per stage, others never
    for (std::size_t p = 0; p < c.blocks.size(); ++p) {
        auto const& b = c.blocks[p];
        std::vector<std::array<int, 2>> want;
        for (int f = 0; f < 2 * nd; ++f) {
            std::size_t const d = static_cast<std::size_t>(f / 2);
            bool const edge = f % 2 == 0 ? b.lo[d] == 0 : b.lo[d] + b.n[d] == s.n[d];
            if (faces[static_cast<std::size_t>(f)] == "UserDefined" && edge) want.push_back({f / 2, f % 2});
        }
        if (want != c.order[p]) return vh::violate("calls of user boundaries", vh::cat("process ", p, ": ", c.order[p].size(), " instead of ", want.size()));
    }
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        bool const th = vh::thorough();
        bool const im = sim::gravity() == "Internal_mass";
        struct Shape
        {
            std::array<int, 3> n, dims;
            int ng;
        };
        std::vector<Shape> shapes;
        if (nd == 1)
            for (int ng = 2; ng <= 5; ++ng)
                for (int p = 1; p <= (im ? 1 : 4); ++p)
                    for (int n = p * ng; n <= p * ng + 3; ++n) shapes.push_back({{n, 1, 1}, {p, 1, 1}, ng});
        if (nd == 2) shapes = {{{3, 3, 1}, {1, 1, 1}, 2}, {{4, 5, 1}, {1, 2, 1}, 2}, {{3, 4, 1}, {1, 1, 1}, 3}, {{6, 6, 1}, {im ? 1 : 2, 2, 1}, 3}, {{5, 4, 1}, {im ? 1 : 2, 1, 1}, 2}, {{5, 5, 1}, {1, 1, 1}, 4}};
        if (nd == 3) {
            shapes = {{{2, 3, 2}, {1, 1, 1}, 2}};
            if (th) shapes.insert(shapes.end(), {{{3, 4, 2}, {1, 2, 1}, 2}, {{4, 2, 4}, {im ? 1 : 2, 1, 2}, 2}, {{3, 3, 4}, {1, 1, 1}, 3}});
        }
        long const nf = 2 * nd;
        // wide blocks, deep ghost layers, more scalars: boundaries dealt out
        std::vector<Shape> const wide = nd == 1   ? std::vector<Shape> {{{57, 1, 1}, {1, 1, 1}, 7}, {{83, 1, 1}, {im ? 1 : 9, 1, 1}, 6}}
                                        : nd == 2 ? std::vector<Shape> {{{31, 29, 1}, {1, 1, 1}, 6}, {{37, 33, 1}, {im ? 1 : 5, 4, 1}, 5}}
                                                  : std::vector<Shape> {{{14, 15, 13}, {1, 1, 1}, 5}, {{13, 17, 15}, {im ? 1 : 2, 3, 2}, 5}};
        std::size_t const narrow = shapes.size();
        shapes.insert(shapes.end(), wide.begin(), wide.end());
        for (std::size_t q = 0; q < shapes.size(); ++q)
            for (long code = 0; code < alpha::ipow(4, static_cast<int>(nf)); ++code)
                for (int nfx : {0, 5}) {
                    auto const sh = shapes[q];
                    if (nd == 3 && !th && (code % 3 != 0) != (nfx != 0)) continue;
                    if (q >= narrow && nd > 1 && (code + (nfx != 0)) % (nd == 2 ? 5 : th ? 17 : 67)) continue;
                    std::array<std::string, 6> faces;
                    long c = code;
                    for (int f = 0; f < nf; ++f, c /= 4) faces[static_cast<std::size_t>(f)] = names[c % 4];
                    x.run(vh::cat(sh.n[0], "x", sh.n[1], "x", sh.n[2], " on ", sh.dims[0], "x", sh.dims[1], "x", sh.dims[2], " ng ", sh.ng, " nfx ", nfx, " boundaries ", code), [=] {
                        sim::Spec s;
                        s.n = sh.n;
                        s.ng = sh.ng;
                        s.nfx = nfx;
                        alpha::domain(s);
                        s.mpi.nranks = sh.dims[0] * sh.dims[1] * sh.dims[2];
                        for (int d = 0; d < nd; ++d)
                            for (int f = 0; f < 2; ++f) {
                                s.ini.set("Parallelization", vh::cat("mpi_dims_cart_x", d), sh.dims[static_cast<std::size_t>(d)]);
                                s.ini.set("Boundary Condition", vh::cat("BC_X", d, f ? "_right" : "_left"), faces[static_cast<std::size_t>(2 * d + f)]);
                            }
                        s.init = [=](int i, int j, int k) { return alpha::state((i * 3 + j * 5 + k * 7) % 5, nfx); };
                        check(s, faces);
                    });
                }
    });
}
