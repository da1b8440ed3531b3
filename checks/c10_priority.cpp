// C10: which condition each face uses, and which one prevails in edges and corners.
#include "ghosts.hpp"

namespace {

char const* const names[] = {"NullGradient", "Periodic", "Reflexive", "UserDefined"};
bool known(std::string const& s)
{
    for (char const* n : names)
        if (s == n) return true;
    return false;
}
char const* const face_names[2][6] = {{"X_left", "X_right", "Y_left", "Y_right", "Z_left", "Z_right"}, {"X0_left", "X0_right", "X1_left", "X1_right", "X2_left", "X2_right"}};

std::array<int, 3> shape()
{
    int const nd = sim::ndim();
    return nd == 1 ? std::array<int, 3> {3, 1, 1} : nd == 2 ? std::array<int, 3> {3, 4, 1} : std::array<int, 3> {2, 3, 2};
}

sim::Spec base(std::array<int, 3> n, int p = 1)
{
    sim::Spec s;
    s.n = n;
    s.nfx = 1;
    s.mpi.nranks = p;
    alpha::domain(s);
    s.init = [](int i, int j, int k) { return alpha::state((i * 3 + j * 5 + k * 7) % 5, 1); };
    s.user_value = [](int d, int f) { return alpha::state(2 * d + f, 1); };
    return s;
}

// the run must follow the faces and the order
void accepted(sim::Spec const& s, std::array<std::string, 6> const& faces, std::vector<int> const& order)
{
    int const nd = sim::ndim();
    auto const c = ghosts::capture(s);
    if (!c.problem.empty()) return vh::violate("a documented choice is refused", c.problem);
    vh::trace_validated();
    vh::transitions(1);
    ghosts::Global w;
    std::string e = ghosts::gather(c.blocks, s.n, w);
    if (!e.empty()) return vh::violate("blocks", e);
    ghosts::Rules r;
    r.n = s.n;
    r.faces = faces;
    r.order = order;
    ref::Eos const eos = ref::params(s).eos;
    r.user = [=](int face, int f) {
        sim::Cell const q = alpha::state(face, 1);
        if (f == 0) return q.rho;
        if (f <= nd) return q.rho * q.u[static_cast<std::size_t>(f - 1)];
        if (f >= 2 + nd) return q.fx[static_cast<std::size_t>(f - 2 - nd)];
        double ek = 0;
        for (int d = 0; d < nd; ++d) ek += q.rho * q.u[static_cast<std::size_t>(d)] * q.u[static_cast<std::size_t>(d)] / 2;
        return ek + eos.evol(q.rho, q.P);
    };
    vh::Hash h;
    for (double v : c.blocks[0].a) h << v;
    vh::state(h);
    e = ghosts::compare(c.blocks, w, r, ghosts::physical | ghosts::inside);
    if (!e.empty()) return vh::violate("ghost cells", e);
    // user boundaries are called in the order of application
    for (std::size_t p = 0; p < c.blocks.size(); ++p) {
        auto const& b = c.blocks[p];
        std::vector<std::array<int, 2>> want;
        for (int f : order) {
            std::size_t const d = static_cast<std::size_t>(f / 2);
            bool const edge = f % 2 == 0 ? b.lo[d] == 0 : b.lo[d] + b.n[d] == s.n[d];
            if (faces[static_cast<std::size_t>(f)] == "UserDefined" && edge) want.push_back({f / 2, f % 2});
        }
        if (want != c.order[p]) return vh::violate("order of the boundaries", vh::cat("process ", p));
    }
}

void refused(sim::Spec s)
{
    long steps = 0;
    s.user_step = true;
    s.on_user_step = [&](double, double) { ++steps; };
    s.ini.set("Output", "max_iter", 1);
    auto const r = sim::run_alone(s);
    vh::trace_validated();
    vh::transitions(1);
    if (!alpha::refused(r.out)) return vh::violate("an undocumented choice is accepted", r.out.summary());
    if (steps) vh::violate("refused after the first step", "");
}

std::vector<int> default_order()
{
    std::vector<int> o;
    for (int f = 0; f < 2 * sim::ndim(); ++f) o.push_back(f);
    return o;
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        int const nf = 2 * nd;
        bool const th = vh::thorough();
        // ---- hierarchy: every combination of the four names of a direction
        static char const* const vals[] = {nullptr, "NullGradient", "Periodic", "Reflexive", "UserDefined", "", "Open"};
        for (int d = 0; d < nd; ++d)
            for (long code = 0; code < alpha::ipow(7, 4); ++code) {
                char const* v[4];
                long c = code;
                for (auto& q : v) {
                    q = vals[c % 7];
                    c /= 7;
                }
                // a name that is there is used, even an empty one
                auto given = [](char const* a, std::string const& otherwise) { return a ? std::string(a) : otherwise; };
                std::string const dir = given(v[1], given(v[0], ""));
                std::string const f0 = given(v[2], dir), f1 = given(v[3], dir);
                bool const good = known(f0) && known(f1);
                // an unknown name that is not used says nothing
                bool unused_bad = false;
                for (char const* q : v) unused_bad = unused_bad || (q && std::string(q) == "Open");
                if (good && unused_bad) continue;
                x.run(vh::cat("names of direction ", d, ": ", code), [=] {
                    auto s = base(shape());
                    std::array<std::string, 6> faces;
                    // the other directions are given by name
                    for (int q = 0; q < nd; ++q) {
                        faces[static_cast<std::size_t>(2 * q)] = names[(q + 2) % 4];
                        faces[static_cast<std::size_t>(2 * q + 1)] = names[(q + 3) % 4];
                        if (q == d) continue;
                        s.ini.set("Boundary Condition", vh::cat("BC_X", q, "_left"), faces[static_cast<std::size_t>(2 * q)]).set("Boundary Condition", vh::cat("BC_X", q, "_right"), faces[static_cast<std::size_t>(2 * q + 1)]);
                    }
                    faces[static_cast<std::size_t>(2 * d)] = f0;
                    faces[static_cast<std::size_t>(2 * d + 1)] = f1;
                    if (v[0]) s.ini.set("Boundary Condition", "BC", v[0]);
                    if (v[1]) s.ini.set("Boundary Condition", vh::cat("BC_X", d), v[1]);
                    if (v[2]) s.ini.set("Boundary Condition", vh::cat("BC_X", d, "_left"), v[2]);
                    if (v[3]) s.ini.set("Boundary Condition", vh::cat("BC_X", d, "_right"), v[3]);
                    // the names of the other directions prevail over the global one
                    if (good)
                        accepted(s, faces, default_order());
                    else
                        refused(s);
                });
            }
        // which of the names are given, in all directions at once
        for (long which = 0; which < (1L << (1 + 3 * nd)); ++which)
            for (int turn = 0; turn < 4; ++turn) {
                // key 0: the general name; then for each direction its own, left, right
                auto const value = [=](int key) { return std::string(which >> key & 1 ? names[static_cast<std::size_t>((key + key / 4 + turn) % 4)] : ""); };
                std::array<std::string, 6> faces;
                bool good = true;
                for (int f = 0; f < nf; ++f) {
                    std::string v = value(2 + 3 * (f / 2) + f % 2);
                    if (v.empty()) v = value(1 + 3 * (f / 2));
                    if (v.empty()) v = value(0);
                    good = good && !v.empty();
                    faces[static_cast<std::size_t>(f)] = v;
                }
                x.run(vh::cat("given names ", which, " turned by ", turn), [=] {
                    auto s = base(shape());
                    for (int key = 0; key < 1 + 3 * nd; ++key) {
                        if (!(which >> key & 1)) continue;
                        int const d = (key - 1) / 3;
                        static char const* const side[] = {"", "_left", "_right"};
                        s.ini.set("Boundary Condition", key == 0 ? std::string("BC") : vh::cat("BC_X", d, side[(key - 1) % 3]), value(key));
                    }
                    if (good)
                        accepted(s, faces, default_order());
                    else
                        refused(s);
                });
            }
        // names of the directions that do not exist say nothing
        for (int d = nd; d < 3; ++d)
            for (char const* n : {"NullGradient", "Reflexive", "Open"})
                x.run(vh::cat("absent direction ", d, " ", n), [=] {
                    auto s = base(shape());
                    std::array<std::string, 6> faces;
                    faces.fill("Reflexive");
                    s.ini.set("Boundary Condition", "BC", "Reflexive").set("Boundary Condition", vh::cat("BC_X", d), n).set("Boundary Condition", vh::cat("BC_X", d, "_left"), n);
                    accepted(s, faces, default_order());
                });
        // ---- all priority lists
        std::vector<int> perm = default_order();
        long pn = 0;
        do {
            ++pn;
            long const all = alpha::ipow(4, nf);
            for (long code = 0; code < all; ++code) {
                // in 3D: every list with some assignments of names, all assignments being met with some list
                if (nd == 3 && (code + 37 * pn) % (th ? 41 : 509) != 0) continue;
                if (nd == 3 && false) continue;
                int const np = nd == 1 ? 2 : nd == 2 ? 4 : 1;
                for (int p = 1; p <= np; p += (nd == 2 ? 3 : 1))
                    x.run(vh::cat("priority ", pn, " boundaries ", code, " on ", p), [=] {
                        auto n = shape();
                        if (p > 1)
                            for (int d = 0; d < nd; ++d) n[static_cast<std::size_t>(d)] = 4 + d;
                        auto s = base(n, p);
                        std::array<std::string, 6> faces;
                        long c = code;
                        for (int f = 0; f < nf; ++f, c /= 4) {
                            faces[static_cast<std::size_t>(f)] = names[c % 4];
                            s.ini.set("Boundary Condition", vh::cat("BC_X", f / 2, f % 2 ? "_right" : "_left"), names[c % 4]);
                        }
                        std::string list;
                        for (int f : perm) list += (list.empty() ? "" : (code % 5 == 1 ? "   " : " ")) + std::string(face_names[(code + f) % 3 == 0][f]);
                        s.ini.set("Boundary Condition", "priority", list);
                        std::vector<int> order(perm.rbegin(), perm.rend());
                        accepted(s, faces, order);
                    });
            }
        } while (std::next_permutation(perm.begin(), perm.end()));
        // ---- all lists of tokens: accepted if and only if every face is named once
        std::vector<std::string> tok;
        for (int f = 0; f < nf; ++f) tok.push_back(face_names[0][f]);
        tok.push_back(face_names[1][0]);
        if (nd < 3) tok.push_back(face_names[0][nf]);
        tok.push_back("front");
        long const nt = static_cast<long>(tok.size());
        for (int len = 1; len <= nf + 1; ++len)
            for (long code = 0; code < alpha::ipow(nt, len); ++code) {
                std::vector<int> t;
                long c = code;
                for (int q = 0; q < len; ++q, c /= nt) t.push_back(static_cast<int>(c % nt));
                // in 3D: the lists with at most one wrong place, and the short ones
                if (nd == 3) {
                    int wrong = 0;
                    for (int q = 0; q < len; ++q) {
                        bool dup = t[static_cast<std::size_t>(q)] >= nf;
                        for (int z = 0; z < q; ++z) dup = dup || t[static_cast<std::size_t>(z)] == t[static_cast<std::size_t>(q)];
                        wrong += dup;
                    }
                    if (len > 3 && wrong > 1) continue;
                    if (len > 4 && code % (th ? 7 : 61) != 0) continue;
                    if (len > 3 && !th && code % 5 != 0) continue;
                }
                std::vector<int> seen(static_cast<std::size_t>(nf), 0);
                bool good = len == nf;
                std::vector<int> order;
                for (int q : t) {
                    if (q > nf || (q == nf && tok[static_cast<std::size_t>(q)] != face_names[1][0])) good = false;
                    else {
                        int const f = q == nf ? 0 : q;
                        good = good && !seen[static_cast<std::size_t>(f)]++;
                        order.push_back(f);
                    }
                }
                std::ranges::reverse(order);
                x.run(vh::cat("list of ", len, " number ", code), [=] {
                    auto s = base(shape());
                    std::string list;
                    for (int q : t) list += (list.empty() ? "" : " ") + tok[static_cast<std::size_t>(q)];
                    s.ini.set("Boundary Condition", "BC", "Reflexive").set("Boundary Condition", "BC_X0_left", "UserDefined").set("Boundary Condition", "priority", list);
                    if (nd > 1) s.ini.set("Boundary Condition", "BC_X1_right", "UserDefined");
                    std::array<std::string, 6> faces;
                    faces.fill("Reflexive");
                    faces[0] = "UserDefined";
                    if (nd > 1) faces[3] = "UserDefined";
                    if (good)
                        accepted(s, faces, order);
                    else
                        refused(s);
                });
            }
        for (char const* l : {"X_left,X_right", "x_left x_right", "X_Left X_Right", "left right", "0 1", "X_left X_rightt", "Xleft Xright", "X_left;", "X_left_ X_right", "_left _right"})
            x.run(vh::cat("list ", l), [=] {
                auto s = base(shape());
                std::string t = l;
                for (int f = 2; f < nf; ++f) t += std::string(" ") + face_names[0][f];
                s.ini.set("Boundary Condition", "BC", "Reflexive").set("Boundary Condition", "priority", t);
                refused(s);
            });
    });
}
