// C32: documented names select their scheme, everything else stops the run before the first step.
#include "common.hpp"

namespace {

struct Opt
{
    char const *sec, *key;
    std::vector<std::string> names;
};

std::vector<Opt> options()
{
    std::vector<std::string> const bc = {"NullGradient", "Periodic", "Reflexive", "UserDefined"};
    return {{"Hydro", "riemann_solver", {"HLL", "HLLC", "Low Mach"}},
            {"Hydro", "reconstruction", {"Constant", "VanLeer", "Minmod", "VanAlbada"}},
            {"Grid", "type", {"Regular", "UserDefined"}},
            {"User step", "user_step", {"Off", "Heat_nickel", "UserDefined"}},
            {"Boundary Condition", "BC", bc},
            {"Boundary Condition", "BC_X0", bc},
            {"Boundary Condition", "BC_X0_right", bc}};
}

void base(sim::Spec& s)
{
    int const nd = sim::ndim();
    s.n = nd == 1 ? std::array<int, 3> {8, 1, 1} : std::array<int, 3> {6, 3, 1};
    s.nfx = 1;
    alpha::domain(s);
    s.init = [](int i, int j, int) { return alpha::state(i + 2 * j + (i > 3 ? 1 : 0), 1); };
    s.user_value = [](int, int) { return alpha::state(2, 1); };
    s.ini.set("Boundary Condition", "BC", "NullGradient").set("Output", "iter_frequency", 1).set("Output", "max_iter", 2).set("Run", "cfl", 0.3);
}

std::vector<std::string> edits(std::string const& s)
{
    std::vector<std::string> out;
    std::string const extra = "aX0_. ";
    for (std::size_t i = 0; i <= s.size(); ++i) {
        for (char c : extra) out.push_back(s.substr(0, i) + c + s.substr(i));
        if (i == s.size()) break;
        out.push_back(s.substr(0, i) + s.substr(i + 1));
        for (char c : extra) out.push_back(s.substr(0, i) + c + s.substr(i + 1));
        out.push_back(s.substr(0, i) + s[i] + s.substr(i));
        std::string t = s;
        t[i] = static_cast<char>(std::isupper(static_cast<unsigned char>(t[i])) ? std::tolower(static_cast<unsigned char>(t[i])) : std::toupper(static_cast<unsigned char>(t[i])));
        out.push_back(t);
        if (i + 1 < s.size()) {
            t = s;
            std::swap(t[i], t[i + 1]);
            out.push_back(t);
        }
        out.push_back(s.substr(0, i));
        out.push_back(s.substr(i));
    }
    std::string up = s, low = s;
    for (auto& c : up) c = static_cast<char>(std::toupper(static_cast<unsigned char>(c)));
    for (auto& c : low) c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
    for (auto const& t : {up, low, s + s, s + " " + s, "\"" + s + "\"", s + ".", s + " # " + s}) out.push_back(t);
    return out;
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        auto const opts = options();
        // accepted names: the scheme of that name, not another one
        for (auto const& o : opts)
            for (auto const& n : o.names)
                for (int procs = 1; procs <= 2; ++procs)
                    x.run(vh::cat(o.key, " = ", n, " on ", procs), [=] {
                        sim::Spec s;
                        base(s);
                        s.mpi.nranks = procs;
                        s.ini.set(o.sec, o.key, n);
                        if (std::string(o.key) == "user_step") {
                            s.user_step = n == "UserDefined";
                            s.user_heat = [](int i, int, int, double rho, double, double dt) { return alpha::pscale() * 10 * rho * dt * (i + 1); };
                            if (n == "Heat_nickel") s.init = [](int i, int j, int) {
                                sim::Cell q = alpha::state(i + 2 * j, 1);
                                q.fx[0] = 0.5;
                                return q;
                            };
                        }
                        if (std::string(o.key) == "type" && n == "UserDefined") {
                            auto const p = ref::params(s);
                            for (std::size_t d = 0; d < 3; ++d)
                                for (int i = -p.ng[d]; i <= p.n[d] + p.ng[d]; ++i) s.faces[d].push_back(p.xmin[d] + (p.xmax[d] - p.xmin[d]) * ((i + 0.02 * i * i) / p.n[d]));
                        }
                        if (std::string(o.key) == "BC_X0_right" && n == "Periodic") s.ini.set("Boundary Condition", "BC_X0", "Periodic");
                        auto const r = ref::conform(s);
                        if (!r.diff.empty()) vh::violate(vh::cat(o.key, " = ", n), r.diff);
                        vh::state(r.res.ok() ? r.res.last().hash() : 0);
                    });
        // different names, different results
        x.run("the names are distinct", [=] {
            std::map<std::string, std::string> seen;
            for (auto const& o : opts) {
                if (std::string(o.key) != "riemann_solver" && std::string(o.key) != "reconstruction" && std::string(o.key) != "BC") continue;
                std::map<std::uint64_t, std::string> h;
                for (auto const& n : o.names) {
                    sim::Spec s;
                    base(s);
                    s.ini.set(o.sec, o.key, n);
                    auto const r = sim::run_alone(s);
                    if (!r.ok()) return vh::violate("run", r.problem);
                    auto const [it, fresh] = h.emplace(r.last().hash(), n);
                    if (!fresh) vh::violate(vh::cat(o.key, ": two names, one scheme"), it->second + " and " + n);
                }
            }
        });
        // switches: nothing but the documented name turns them on
        for (bool fix : {true, false}) {
            std::string const on = fix ? "On" : "UserDefined";
            std::set<std::string> other {"", "Off", "None", "No", "0", "1", "true", "yes", "Yes", "enabled", "Heat_nickel", "On", "UserDefined", "Default"};
            for (auto const& e : edits(on)) other.insert(e);
            for (auto const& e : edits("Off")) other.insert(e);
            if (vh::thorough())
                for (auto const& e : edits(on))
                    for (auto const& f : edits(e)) other.insert(f);
            for (auto b : other) {
                while (!b.empty() && b.front() == ' ') b.erase(0, 1);
                while (!b.empty() && b.back() == ' ') b.pop_back();
                if (b == on) continue;
                x.run(vh::cat(fix ? "pressure_fix" : "shift_grid", " = <", b, ">"), [=] {
                    for (int procs : {1, 2}) {
                        sim::Spec s;
                        base(s);
                        s.mpi.nranks = procs;
                        s.ini.set("Pressure fix", "eps_pf", 0.9); // the repair would act everywhere
                        s.shift = [](long) { return true; };
                        s.own_shift_grid = true;
                        auto const r0 = sim::run_alone(s);
                        if (!r0.ok()) return vh::violate("run", r0.problem);
                        s.ini.set(fix ? "Pressure fix" : "Grid", fix ? "pressure_fix" : "shift_grid", on);
                        auto const r1 = sim::run_alone(s);
                        if (r1.ok() && sim::diff(r1.snaps, r0.snaps, 0).empty()) return vh::violate("a documented name has no effect", on);
                        s.ini.set(fix ? "Pressure fix" : "Grid", fix ? "pressure_fix" : "shift_grid", b);
                        auto const r2 = sim::run_alone(s);
                        vh::trace_validated();
                        vh::transitions(2);
                        bool refused = !r2.out.mpi.deadlock;
                        for (int rc : r2.out.rc) refused = refused && rc > 0;
                        if (refused) continue;
                        if (!r2.ok()) return vh::violate("run", r2.problem);
                        std::string const d = sim::diff(r2.snaps, r0.snaps, 0);
                        if (!d.empty()) return vh::violate(vh::cat(fix ? "pressure_fix" : "shift_grid", ": another name than the documented one has an effect"), vh::cat("<", b, ">: ", d));
                    }
                });
            }
        }
        // refused names
        for (auto const& o : opts) {
            std::set<std::string> bad = {""};
            for (auto const& n : o.names) {
                for (auto const& e : edits(n)) bad.insert(e);
                if (vh::thorough())
                    for (auto const& e : edits(n))
                        for (auto const& f : edits(e)) bad.insert(f);
            }
            for (auto const& p : opts)
                for (auto const& n : p.names) bad.insert(n);
            for (char const* w : {"None", "Default", "default", "0", "1", "On", "Roe", "HLLD", "LowMach", "low_mach", "superbee", "Dirichlet", "Neumann", "Outflow", "none", "user"}) bad.insert(w);
            std::set<std::string> trimmed;
            for (auto b : bad) {
                while (!b.empty() && b.front() == ' ') b.erase(0, 1);
                while (!b.empty() && b.back() == ' ') b.pop_back();
                if (std::find(o.names.begin(), o.names.end(), b) == o.names.end()) trimmed.insert(b);
            }
            for (auto const& b : trimmed)
                x.run(vh::cat(o.key, " = <", b, ">"), [=] {
                    for (int procs : {1, 2}) {
                        sim::Spec s;
                        base(s);
                        s.mpi.nranks = procs;
                        s.ini.set(o.sec, o.key, b);
                        // faces without a condition: the name alone decides
                        if (std::string(o.sec) == "Boundary Condition" && o.key != std::string("BC")) s.ini.set("Boundary Condition", "BC", "NullGradient");
                        prog::ScopedFs fs;
                        auto const r = sim::run(s);
                        bool ok = !r.out.mpi.deadlock && r.out.mpi.error.empty();
                        for (int p = 0; p < procs; ++p) ok = ok && r.out.rc[static_cast<std::size_t>(p)] == 1 && !r.out.err[static_cast<std::size_t>(p)].empty();
                        if (!ok) vh::violate(vh::cat(o.key, ": accepted another name"), vh::cat("<", b, "> on ", procs, ": ", r.out.summary()));
                        for (auto const& sn : r.snaps)
                            if (sn.iter > 0) vh::violate(vh::cat(o.key, ": refused too late"), b);
                        vh::state(vh::Hash() << r.out.err[0].substr(0, 40));
                        vh::trace_validated();
                        vh::transitions(1);
                    }
                });
        }
    });
}
