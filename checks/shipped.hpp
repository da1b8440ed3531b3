// The shipped problems and input files.
#pragma once
#include "common.hpp"
#include "v1d.hpp"

#include <fstream>
#include <random>

// the perturbation of rayleigh_taylor3d is drawn from this device: the same in every run here
namespace {
unsigned long drawn = 0;
}
std::random_device::result_type std::random_device::_M_getval()
{
    return static_cast<std::random_device::result_type>((++drawn * 0x9E3779B97F4A7C15UL) >> 32);
}

namespace shipped {

inline double const pi = std::numbers::pi;
inline char const* const repo = std::getenv("VH_REPO") ? std::getenv("VH_REPO") : "/repo";

// the shipped file, some values replaced, the rest of it untouched
struct Shipped
{
    std::string text;
    std::map<std::string, std::string> value; // "section.name" -> first word
    std::map<std::string, std::string> whole; // "section.name" -> value without comment

    explicit Shipped(std::string const& name)
    {
        std::ifstream f(std::string(repo) + "/inputs/" + name);
        std::stringstream ss;
        ss << f.rdbuf();
        text = ss.str();
        parse();
    }
    static std::string low(std::string s)
    {
        for (char& c : s) c = static_cast<char>(std::tolower(c));
        return s;
    }
    static std::string trim(std::string s)
    {
        while (!s.empty() && std::isspace(static_cast<unsigned char>(s.back()))) s.pop_back();
        while (!s.empty() && std::isspace(static_cast<unsigned char>(s.front()))) s.erase(0, 1);
        return s;
    }
    void parse()
    {
        value.clear();
        whole.clear();
        std::istringstream is(text);
        std::string l, sec;
        while (std::getline(is, l)) {
            l = trim(l);
            if (l.empty() || l[0] == ';' || l[0] == '#') continue;
            if (l[0] == '[') {
                sec = low(l.substr(1, l.find(']') - 1));
                continue;
            }
            auto const e = l.find('=');
            if (e == std::string::npos) continue;
            std::string v = trim(l.substr(e + 1)), w;
            std::istringstream(v) >> w;
            value[sec + "." + low(trim(l.substr(0, e)))] = w;
            if (auto const c = v.find(" ;"); c != std::string::npos) v.resize(c);
            whole[sec + "." + low(trim(l.substr(0, e)))] = trim(v);
        }
    }
    void set(std::string const& section, std::string const& name, std::string const& v)
    {
        std::istringstream is(text);
        std::string l, sec, out;
        bool done = false;
        while (std::getline(is, l)) {
            std::string const t = trim(l);
            if (!t.empty() && t[0] == '[') sec = low(t.substr(1, t.find(']') - 1));
            auto const e = l.find('=');
            if (!done && e != std::string::npos && !t.empty() && t[0] != ';' && sec == low(section) && low(trim(l.substr(0, e))) == low(name)) {
                std::string const rest = trim(l.substr(e + 1));
                std::istringstream rs(rest);
                std::string w;
                rs >> w;
                l = l.substr(0, e + 1) + " " + v + rest.substr(w.size());
                done = true;
            }
            out += l + "\n";
        }
        if (!done) out += "[" + section + "]\n" + name + " = " + v + "\n";
        text = out;
        parse();
    }
    void set(std::string const& section, std::string const& name, int v) { set(section, name, std::to_string(v)); }
    // the values under the names the reference looks for
    sim::Ini ini() const
    {
        static char const* const names[][2] = {{"Perfect Gas", "gamma"}, {"Perfect Gas", "mu"}, {"Gravity", "gx0"}, {"Gravity", "gx1"}, {"Gravity", "gx2"}, {"Gravity", "M"}, {"Grid", "x0min"}, {"Grid", "x0max"}, {"Grid", "x1min"}, {"Grid", "x1max"}, {"Grid", "x2min"}, {"Grid", "x2max"}, {"Hydro", "reconstruction"}, {"Hydro", "riemann_solver"}, {"User step", "user_step"}, {"Pressure fix", "pressure_fix"}, {"Pressure fix", "eps_pf"}, {"Boundary Condition", "BC"}, {"Boundary Condition", "BC_X0"}, {"Boundary Condition", "BC_X1"}, {"Boundary Condition", "BC_X2"}, {"Boundary Condition", "BC_X0_left"}, {"Boundary Condition", "BC_X0_right"}, {"Boundary Condition", "BC_X1_left"}, {"Boundary Condition", "BC_X1_right"}, {"Boundary Condition", "BC_X2_left"}, {"Boundary Condition", "BC_X2_right"}, {"Run", "t_ini"}, {"Run", "t_end"}, {"Run", "cfl"}, {"Output", "max_iter"}, {"Output", "iter_frequency"}, {"Output", "time_frequency"}, {"Output", "time_first_output"}, {"Problem", "rmax_shift"}, {"Output", "directory"}, {"Output", "prefix"}};
        sim::Ini r;
        for (auto const& n : names)
            if (auto const i = whole.find(low(n[0]) + "." + low(n[1])); i != whole.end() && !i->second.empty()) r.set(n[0], n[1], i->second);
        // from high to low, under the short names
        if (auto const i = whole.find("boundary condition.priority"); i != whole.end() && !i->second.empty()) {
            std::string out, w;
            std::istringstream is(i->second);
            while (is >> w) {
                for (int d = 0; d < 3; ++d)
                    if (w.starts_with("X" + std::to_string(d))) w = std::string(1, "XYZ"[d]) + w.substr(2);
                out += (out.empty() ? "" : " ") + w;
            }
            r.set("Boundary Condition", "priority", out);
        }
        return r;
    }
    double num(std::string const& key, double def) const
    {
        auto const i = value.find(key);
        return i == value.end() ? def : std::stod(i->second);
    }
};

// the shipped profile cannot be read here (no HDF5 library): one of the same kind, with its number of cells
inline v1d::Case profile(Shipped const& s, std::array<int, 3> n)
{
    v1d::Case c;
    c.n = n;
    c.nfx = static_cast<int>(s.num("passive scalar.nfx", 0));
    double const r0 = 2.94e8, r1 = 6.63e11, q = std::pow(r1 / r0, 1. / n[0]), t = s.num("run.t_ini", 0);
    for (int i = -c.ng; i <= n[0] + c.ng; ++i) c.x0.push_back(r0 * std::pow(q, i));
    for (int i = 0; i < n[0]; ++i) {
        double const r = (c.x0[static_cast<std::size_t>(i + c.ng)] + c.x0[static_cast<std::size_t>(i + c.ng + 1)]) / 2;
        c.prof[0].push_back(1e3 * std::pow(r0 / r, 1.5));
        c.prof[1].push_back(std::min(r / t, 1e6) * 0.5);
        c.prof[2].push_back(1e14 * std::pow(r0 / r, 2));
    }
    for (int f = 0; f < c.nfx; ++f)
        for (int i = 0; i < n[0]; ++i) c.prof[3].push_back(f == 0 ? 0.3 * (1 - i / static_cast<double>(n[0])) : 0.1 * f);
    return c;
}

struct Run
{
    sim::Res res;
    std::string problem;
};

inline Run run(Shipped const& s, v1d::Case const* prof, int p, int perm, kshim::ExecCfg const& exec = {})
{
    Run r;
    prog::ScopedFs fs;
    drawn = 0;
    prog::Opt o;
    o.ini = s.text;
    o.mpi.nranks = p;
    o.exec = exec;
    for (int q = 0; q < p && perm; ++q) o.mpi.cart_perm.push_back(perm == 1 ? p - 1 - q : (q + 1) % p);
    if (prof) {
        kio::Fs tmp;
        v1d::put(*prof, tmp);
        kio::fs->files[s.value.at("problem.init_file")] = tmp.files.begin()->second;
    }
    r.res.out = prog::run(o);
    if (prof) kio::fs->files.erase(s.value.at("problem.init_file"));
    if (!r.res.out.ok()) {
        r.problem = r.res.out.summary();
        return r;
    }
    try {
        r.res.snaps = sim::read_all(*kio::fs, static_cast<int>(s.num("passive scalar.nfx", 0)));
    } catch (std::exception const& e) {
        r.problem = e.what();
    }
    return r;
}

} // namespace shipped
using namespace shipped;
