// C31: every parameter from its own section and name, defaults, no cross talk; printed configuration.
#include <cmath>
#include <cstdio>
#include <functional>

#ifndef VH_RUNS_ONLY
#include <inih/INIReader.hpp>
#include <param.hpp>
#endif

#include "common.hpp"

namespace {

#ifndef VH_RUNS_ONLY
using hclpp::Param;
#endif

#ifndef VH_RUNS_ONLY
struct Key
{
    std::string sec, name;
    std::string def; // value when absent, written canonically
    std::vector<std::pair<std::string, std::string>> vals; // text in the file, canonical value
    std::function<std::string(Param const&)> get;
};
#endif

std::string c(double v) { return vh::num(v); }
std::string c(int v) { return std::to_string(v); }
std::string c(bool v) { return v ? "true" : "false"; }
std::string c(std::string const& v) { return "'" + v + "'"; }

#ifndef VH_RUNS_ONLY
std::vector<Key> keys()
{
    std::vector<Key> k;
    auto real = [&](char const* s, char const* n, double d, auto m) { k.push_back({s, n, c(d), {{"0.75", c(0.75)}, {"-3e-2", c(-0.03)}, {"12", c(12.)}}, [m](Param const& p) { return c(p.*m); }}); };
    auto integer = [&](char const* s, char const* n, int d, auto get) { k.push_back({s, n, c(d), {{"3", c(3)}, {"17", c(17)}, {"41", c(41)}}, [get](Param const& p) { return c(get(p)); }}); };
    auto text = [&](char const* s, char const* n, char const* d, auto m) { k.push_back({s, n, c(std::string(d)), {{"Some text", "'Some text'"}, {"On", "'On'"}, {"x_1/y", "'x_1/y'"}}, [m](Param const& p) { return c(p.*m); }}); };
    auto flag = [&](char const* s, char const* n, auto m) { k.push_back({s, n, "false", {{"true", "true"}, {"no", "false"}, {"ON", "true"}}, [m](Param const& p) { return c(p.*m); }}); };
    text("Problem", "type", "ShockTube", &Param::problem);
    flag("Problem", "restart", &Param::restart);
    text("Problem", "restart_file", "None", &Param::restart_file);
    real("Problem", "rmax_shift", 1e20, &Param::rmax_shift);
    for (int d = 0; d < 3; ++d) {
        integer("Grid", d == 0 ? "Nx0_glob" : d == 1 ? "Nx1_glob" : "Nx2_glob", 0, [d](Param const& p) { return p.Nx_glob_ng[static_cast<std::size_t>(d)]; });
        integer("Parallelization", d == 0 ? "mpi_dims_cart_x0" : d == 1 ? "mpi_dims_cart_x1" : "mpi_dims_cart_x2", 0, [d](Param const& p) { return p.mpi_dims_cart[static_cast<std::size_t>(d)]; });
    }
    text("Grid", "type", "Regular", &Param::grid_type);
    integer("Grid", "Nghost", 2, [](Param const& p) { return p.Ng; });
    real("Grid", "x0min", 0, &Param::x0min);
    real("Grid", "x0max", 1, &Param::x0max);
    real("Grid", "x1min", 0, &Param::x1min);
    real("Grid", "x1max", 1, &Param::x1max);
    real("Grid", "x2min", 0, &Param::x2min);
    real("Grid", "x2max", 1, &Param::x2max);
    text("Grid", "shift_grid", "Off", &Param::shift_grid);
    flag("Parallelization", "mpi_device_aware", &Param::mpi_device_aware);
    real("Run", "t_ini", 0, &Param::t_ini);
    real("Run", "t_end", 0.2, &Param::t_end);
    real("Run", "cfl", 0.4, &Param::cfl);
    integer("Output", "max_iter", 10000, [](Param const& p) { return p.max_iter; });
    integer("Output", "iter_frequency", 0, [](Param const& p) { return p.iter_output_frequency; });
    real("Output", "time_frequency", 0, &Param::time_output_frequency);
    real("Output", "time_first_output", 0, &Param::time_first_output);
    text("Output", "directory", ".", &Param::directory);
    text("Output", "prefix", "result", &Param::prefix);
    integer("Output", "time_job", 20, [](Param const& p) { return p.time_job; });
    text("Hydro", "reconstruction", "VanLeer", &Param::reconstruction_type);
    text("Hydro", "riemann_solver", "HLL", &Param::riemann_solver);
    real("Gravity", "gx0", 0, &Param::gx0);
    real("Gravity", "gx1", 0, &Param::gx1);
    real("Gravity", "gx2", 0, &Param::gx2);
    real("Gravity", "M", 1, &Param::M);
    real("Perfect Gas", "gamma", 5. / 3, &Param::gamma);
    real("Perfect Gas", "mu", 1, &Param::mu);
    text("Boundary Condition", "BC", "", &Param::bc_choice);
    text("Boundary Condition", "priority", "", &Param::bc_priority);
    integer("Passive Scalar", "nfx", 0, [](Param const& p) { return p.nfx; });
    text("User step", "user_step", "Off", &Param::user_step);
    text("Pressure fix", "pressure_fix", "Off", &Param::pressure_fix);
    real("Pressure fix", "eps_pf", 1e-6, &Param::eps_pf);
    return k;
}
#endif

#ifndef VH_RUNS_ONLY
std::vector<Key> const K = keys();

using Choice = std::vector<std::pair<std::size_t, std::size_t>>; // key, value
#endif

#ifndef VH_RUNS_ONLY
// the outcome for every key, compared with the table
void judge(Choice const& ch, std::vector<std::array<std::string, 3>> const& noise, int fold)
{
    auto spell = [&](std::string s) {
        if (fold == 1)
            for (auto& x : s) x = static_cast<char>(std::toupper(static_cast<unsigned char>(x)));
        if (fold == 2)
            for (auto& x : s) x = static_cast<char>(std::tolower(static_cast<unsigned char>(x)));
        return s;
    };
    std::string text;
    for (auto const& n : noise) text += "[" + n[0] + "]\n" + n[1] + " = " + n[2] + "\n";
    for (auto const& [k, v] : ch) text += "[" + spell(K[k].sec) + "]\n" + spell(K[k].name) + (v % 2 ? "=" : "  :   ") + K[k].vals[v].first + "\n";
    FILE* f = std::fopen("p.ini", "wb");
    std::fputs(text.c_str(), f);
    std::fclose(f);
    Param const p {INIReader("p.ini")};
    double t_ini = 0, freq = 0;
    bool first_given = false;
    for (auto const& [k, v] : ch) {
        if (K[k].name == "t_ini") t_ini = std::stod(K[k].vals[v].second);
        if (K[k].name == "time_frequency") freq = std::stod(K[k].vals[v].second);
        if (K[k].name == "time_first_output") first_given = true;
    }
    vh::Hash h;
    for (std::size_t i = 0; i < K.size(); ++i) {
        std::string want = K[i].def;
        if (K[i].name == "time_first_output" && !first_given) want = c(t_ini + freq);
        for (auto const& [k, v] : ch)
            if (k == i) want = K[i].vals[v].second;
        std::string const have = K[i].get(p);
        h << have;
        if (have != want) vh::violate("[" + K[i].sec + "] " + K[i].name, vh::cat("with\n", text, "it is ", have, " instead of ", want));
    }
    // copies are the same
    Param q(p), r {INIReader()};
    r = p;
    Param const s(std::move(q));
    for (auto const& k : K)
        if (k.get(r) != k.get(p) || k.get(s) != k.get(p)) vh::violate("copy of the parameters", k.name);
    vh::state(h);
    vh::trace_validated();
    vh::transitions(ch.size());
}
#endif

// last field of the line of the configuration that starts with the name
std::string printed(std::string const& out, std::string const& name)
{
    std::size_t at = 0;
    std::string got = "(absent)";
    int n = 0;
    while (at < out.size()) {
        std::size_t const e = out.find('\n', at);
        std::string const l = out.substr(at, e - at);
        at = e == std::string::npos ? out.size() : e + 1;
        if (l.rfind(name + "..", 0) == 0) {
            std::size_t i = l.find_first_not_of('.', name.size());
            // a value that begins with dots keeps them
            got = i == std::string::npos ? "" : l.substr(i);
            ++n;
        }
    }
    return n > 1 ? "(printed several times)" : got;
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        bool const th = vh::thorough();
#ifndef VH_RUNS_ONLY
        x.run("nothing", [] { judge({}, {}, 0); });
        for (std::size_t i = 0; i < K.size(); ++i)
            x.run(vh::cat("[", K[i].sec, "] ", K[i].name), [=] {
                for (std::size_t v = 0; v < 3; ++v)
                    for (int fold = 0; fold < 3; ++fold) judge({{i, v}}, {}, fold);
                // any other section, and names close by: no effect
                for (auto const& o : K)
                    if (o.sec != K[i].sec) {
                        bool taken = false;
                        for (auto const& p : K) taken = taken || (p.sec == o.sec && p.name == K[i].name);
                        if (!taken) judge({}, {{o.sec, K[i].name, K[i].vals[0].first}}, 0);
                    }
                judge({}, {{"", K[i].name, K[i].vals[0].first}}, 0);
                judge({}, {{K[i].sec, K[i].name + "_", K[i].vals[0].first}}, 0);
                judge({}, {{K[i].sec, K[i].name.substr(1), K[i].vals[0].first}}, 0);
                judge({}, {{K[i].sec + " ", K[i].name, K[i].vals[0].first}}, 0);
                // pairs, both orders
                for (std::size_t j = 0; j < K.size(); ++j)
                    if (j != i)
                        for (std::size_t v = 0; v < 3; ++v)
                            for (std::size_t w = 0; w < 3; ++w) judge({{i, v}, {j, w}}, {}, 0);
                // all but one
                for (std::size_t v = 0; v < 3; ++v) {
                    Choice ch;
                    for (std::size_t j = 0; j < K.size(); ++j)
                        if (j != i) ch.push_back({j, (v + j) % 3});
                    judge(ch, {}, static_cast<int>(v));
                    ch.push_back({i, v});
                    judge(ch, {}, 0);
                }
                if (th)
                    for (std::size_t j = i + 1; j < K.size(); ++j)
                        for (std::size_t l = j + 1; l < K.size(); ++l)
                            for (std::size_t v = 0; v < 3; ++v) judge({{i, v}, {j, (v + 1) % 3}, {l, (v + 2) % 3}}, {}, 0);
            });
#endif
        // what is printed
        struct Item
        {
            char const *sec, *key, *label;
            std::vector<std::pair<char const*, char const*>> vals;
        };
        std::vector<Item> const items = {
                {"Problem", "restart_file", "restart_file", {{"", "None"}, {"some_file.h5", "some_file.h5"}}},
                {"Parallelization", "mpi_device_aware", "mpi_device_aware", {{"", "0"}, {"true", "1"}, {"off", "0"}}},
                {"Passive Scalar", "nfx", "nfx", {{"", "0"}, {"1", "1"}, {"4", "4"}}},
                {"Pressure fix", "pressure_fix", "pressure_fix", {{"", "Off"}, {"On", "On"}}},
                {"Pressure fix", "eps_pf", "eps_pf", {{"", "1e-06"}, {"0.25", "0.25"}}},
                {"Hydro", "riemann_solver", "riemann_solver", {{"", "HLL"}, {"HLLC", "HLLC"}, {"Low Mach", "Low Mach"}}},
                {"User step", "user_step", "user_step", {{"", "Off"}, {"Heat_nickel", "Heat_nickel"}}},
        };
        std::vector<int> arity;
        long total = 1;
        for (auto const& i : items) {
            arity.push_back(static_cast<int>(i.vals.size()));
            total *= arity.back();
        }
        for (long code = 0; code < total; ++code)
            for (int procs = 1; procs <= 2; ++procs)
                x.run(vh::cat("printed ", code, " on ", procs), [=] {
                    sim::Spec s;
                    s.n = {6, 1, 1};
                    alpha::domain(s);
                    s.ini.set("Boundary Condition", "BC", "NullGradient").set("Output", "max_iter", 1);
                    s.mpi.nranks = procs;
                    if (procs == 2) s.ini.set("Parallelization", "mpi_dims_cart_x0", 2);
                    long c = code;
                    bool heat = false;
                    for (std::size_t i = 0; i < items.size(); ++i) {
                        auto const& v = items[i].vals[static_cast<std::size_t>(c % arity[i])];
                        c /= arity[i];
                        if (items[i].key == std::string("nfx")) s.nfx = std::atoi(v.second);
                        else if (*v.first) s.ini.set(items[i].sec, items[i].key, v.first);
                        heat = heat || v.second == std::string("Heat_nickel");
                    }
                    if (heat && s.nfx == 0) return; // the heating needs a scalar
                    s.init = [n = s.nfx](int i, int, int) { return alpha::state(i, n); };
                    auto const r = sim::run_alone(s);
                    if (!r.ok()) return vh::violate("run", r.problem);
                    c = code;
                    for (std::size_t i = 0; i < items.size(); ++i) {
                        auto const& v = items[i].vals[static_cast<std::size_t>(c % arity[i])];
                        c /= arity[i];
                        std::string const p = printed(r.out.out[0], items[i].label);
                        if (p != v.second) vh::violate(vh::cat("printed ", items[i].label), vh::cat("<", p, "> instead of <", v.second, ">"));
                    }
                    for (auto const& [l, v] : std::vector<std::pair<std::string, std::string>> {{"setup", "vsetup"}, {"eos", sim::radgas() ? "Gas+Radiation" : "PerfectGas"}, {"geometry", sim::spherical() ? "Spherical" : "Cartesian"}, {"gravity", sim::gravity()}, {"restart", "0"}, {"mpi_dims_cart_x0", procs == 2 ? "2" : "0"}, {"mpi_dims_cart_x1", "0"}, {"mpi_dims_cart_x2", "0"}, {"git_branch", "v-branch"}, {"git_build_string", "v-build"}}) {
                        std::string const p = printed(r.out.out[0], l);
                        if (p != v) vh::violate("printed " + l, vh::cat("<", p, "> instead of <", v, ">"));
                    }
                    if (procs == 2 && printed(r.out.out[1], "nfx") != "(absent)") vh::violate("configuration printed twice", r.out.out[1].substr(0, 300));
                    vh::transitions(1);
                    vh::state(vh::Hash() << code << procs);
                    vh::trace_validated();
                });
    });
}
