// C36: which configuration of the I/O a run uses, and what a configuration of the user writes and reads.
#include "common.hpp"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <set>

namespace {

char const* const repo = std::getenv("VH_REPO") ? std::getenv("VH_REPO") : "/repo";

// ---- configurations, written here from the names of the data and events of the program
struct Layout
{
    std::vector<std::string> fields; // rho, P, E, T, u, fx, x0, x1, x2, output_id...
    std::string tag; // name of the datasets: tag + field
    bool raw = false; // also one file per process with the entire local arrays
    bool restart = false; // also what a restart reads
    bool one = false; // the components of the velocity in one dataset
};

bool is3(std::string const& f) { return f == "rho" || f == "P" || f == "E" || f == "T"; }
bool isx(std::string const& f) { return f == "x0" || f == "x1" || f == "x2"; }
bool isint(std::string const& f) { return f == "output_id" || f == "iter_output_id" || f == "time_output_id" || f == "iter"; }

std::string yaml(Layout const& l, int nfx)
{
    auto has = [&](std::string const& f) { return std::find(l.fields.begin(), l.fields.end(), f) != l.fields.end(); };
    std::string t = "---\nmetadata:\n  ndim: int\n  nfx: int\n  ifx: int\n  mpi_rank: int\n  grid_communicator: MPI_Comm\n";
    for (char const* a : {"nx_glob_ng", "nx_local_ng", "nx_local_wg", "n_ghost", "start"}) t += std::string("  ") + a + ": {type: array, subtype: int, size: 3}\n";
    for (char const* a : {"directory", "output_filename", "restart_filename"}) t += std::string("  ") + a + "_size: int\n  " + a + ": {type: array, subtype: char, size: $" + a + "_size}\n";
    for (auto const& f : l.fields)
        if (isint(f)) t += "  " + f + ": int\n";
    for (char const* f : {"current_time", "gamma"})
        if (has(f)) t += std::string("  ") + f + ": double\n";
    t += "data:\n";
    std::string const wg = "'$nx_local_wg[2]', '$nx_local_wg[1]', '$nx_local_wg[0]'";
    for (auto const& f : l.fields) {
        if (is3(f)) t += "  " + f + ": {type: array, subtype: double, size: [" + wg + "]}\n";
        if (f == "u") t += "  u: {type: array, subtype: double, size: ['$ndim', " + wg + "]}\n";
        if (f == "fx") t += "  fx: {type: array, subtype: double, size: ['$nfx', " + wg + "]}\n";
        if (isx(f)) t += "  " + f + ": {type: array, subtype: double, size: ['$nx_glob_ng[" + f.substr(1) + "]+2*$n_ghost[" + f.substr(1) + "]+1']}\n";
    }
    t += "plugins:\n  mpi:\n  decl_hdf5:\n";
    std::string const glob = "'$nx_glob_ng[2]', '$nx_glob_ng[1]', '$nx_glob_ng[0]'";
    auto sel = [&](std::string const& in, std::string const& first, bool keep) {
        std::string s = in + "memory_selection:\n";
        s += in + "  size: [" + (first.empty() ? "" : keep ? "'$ndim', " : "1, ") + "'$nx_local_ng[2]', '$nx_local_ng[1]', '$nx_local_ng[0]']\n";
        s += in + "  start: [" + (first.empty() ? "" : first + ", ") + "'$n_ghost[2]', '$n_ghost[1]', '$n_ghost[0]']\n";
        s += in + "dataset_selection:\n";
        s += in + "  size: [" + (keep ? "'$ndim', " : "") + "'$nx_local_ng[2]', '$nx_local_ng[1]', '$nx_local_ng[0]']\n";
        s += in + "  start: [" + (keep ? "0, " : "") + "'$start[2]', '$start[1]', '$start[0]']\n";
        return s;
    };
    auto body = [&](bool write) {
        std::string s;
        for (auto const& f : l.fields) {
            if (is3(f) && (write || f == "rho" || f == "P")) s += "        " + f + ":\n          dataset: " + l.tag + f + "\n" + sel("          ", "", false);
            if (f == "u" && l.one) s += "        u:\n          dataset: " + l.tag + "u\n" + sel("          ", "0", true);
            if (f == "u" && !l.one) {
                s += "        u:\n";
                for (int d = 0; d < sim::ndim(); ++d) s += "          - dataset: " + l.tag + "ux" + std::to_string(d) + "\n" + sel("            ", std::to_string(d), false);
            }
        }
        return s;
    };
    // the replicated ones; there is always something in the file
    t += "    - file: ${directory}//${output_filename}\n      on_event: write_replicated_data\n      collision_policy: replace\n      when: '${mpi_rank}=0'\n      write:\n        ndim:\n";
    for (auto const& f : l.fields)
        if (isint(f) || f == "current_time" || f == "gamma") t += "        " + f + ":\n          dataset: " + (l.restart ? "" : l.tag) + f + "\n";
    for (auto const& f : l.fields)
        if (isx(f)) t += "        " + f + ":\n          dataset: " + (l.restart ? "" : l.tag) + f + "\n";
    t += "    - file: ${directory}//${output_filename}\n      on_event: write_distributed_data\n      collision_policy: write_into\n      communicator: '$grid_communicator'\n";
    std::string ds;
    for (auto const& f : l.fields) {
        if (is3(f)) ds += "        " + l.tag + f + ": {type: array, subtype: double, size: [" + glob + "]}\n";
        if (f == "u" && l.one) ds += "        " + l.tag + "u: {type: array, subtype: double, size: ['$ndim', " + glob + "]}\n";
        if (f == "u" && !l.one)
            for (int d = 0; d < sim::ndim(); ++d) ds += "        " + l.tag + "ux" + std::to_string(d) + ": {type: array, subtype: double, size: [" + glob + "]}\n";
    }
    if (!ds.empty()) t += "      datasets:\n" + ds;
    t += "      write:\n" + body(true);
    if (has("fx")) {
        t += "    - file: ${directory}//${output_filename}\n      on_event: write_fx\n      collision_policy: write_into\n      communicator: '$grid_communicator'\n      datasets:\n";
        for (int q = 0; q < nfx; ++q) t += "        " + l.tag + "fx" + std::to_string(q) + ": {type: array, subtype: double, size: [" + glob + "]}\n";
        t += "      write:\n        fx:\n          dataset: '" + l.tag + "fx${ifx}'\n" + sel("          ", "'${ifx}'", false);
    }
    if (l.raw) {
        t += "    - file: 'raw/${output_filename}.${mpi_rank}'\n      on_event: write_distributed_data\n      collision_policy: replace\n      write:\n        start:\n        nx_local_wg:\n        nx_local_ng:\n        n_ghost:\n";
        for (auto const& f : l.fields)
            if (is3(f) || f == "u") t += "        " + f + ":\n          dataset: all_" + f + "\n";
    }
    if (l.restart) {
        t += "    - file: ${restart_filename}\n      on_event: read_file\n      communicator: '${grid_communicator}'\n      read:\n        output_id:\n        iter_output_id:\n        time_output_id:\n        iter:\n        current_time:\n        x0:\n        x1:\n        x2:\n" + body(false);
        if (has("fx")) t += "    - file: ${restart_filename}\n      on_event: read_fx\n      communicator: '${grid_communicator}'\n      read:\n        fx:\n          dataset: '" + l.tag + "fx${ifx}'\n" + sel("          ", "'${ifx}'", false);
    }
    return t;
}

void put(std::string const& name, std::string const& text)
{
    std::filesystem::create_directories(std::filesystem::path(name).parent_path());
    std::ofstream(name) << text;
}

// ---- runs
struct Shape
{
    std::array<int, 3> n {6, 1, 1}, dims {0, 0, 0};
    int p = 1, perm = 0, ng = 2, nfx = 0;
};

sim::Spec base(Shape const& o, int steps)
{
    sim::Spec s;
    s.n = o.n;
    s.ng = o.ng;
    s.nfx = o.nfx;
    alpha::domain(s);
    s.mpi.nranks = o.p;
    for (int r = 0; r < o.p && o.perm; ++r) s.mpi.cart_perm.push_back(o.p - 1 - r);
    for (int q = 0; q < sim::ndim(); ++q)
        if (o.dims[static_cast<std::size_t>(q)]) s.ini.set("Parallelization", "mpi_dims_cart_x" + std::to_string(q), o.dims[static_cast<std::size_t>(q)]);
    s.ini.set("Boundary Condition", "BC", "Reflexive").set("Output", "iter_frequency", 1).set("Output", "max_iter", steps);
    int const nfx = o.nfx;
    s.init = [=](int i, int j, int k) {
        sim::Cell c = alpha::state((i + 2 * j + 3 * k) % 3, 0);
        c.rho *= 1 + 0.01 * i + 0.02 * j + 0.03 * k;
        for (int q = 0; q < nfx; ++q) c.fx.push_back(0.1 * (q + 1) + 0.01 * i);
        return c;
    };
    return s;
}

// snapshots of a run under a generated configuration against those of the built-in one
void compare(kio::Fs const& fs, kio::Fs const& ref, Layout const& l, Shape const& o, int first_id)
{
    std::size_t seen = 0;
    for (auto const& [path, b] : ref.files) {
        if (b.dsets.at("output_id").i() < first_id) continue;
        auto const it = fs.files.find(path);
        if (it == fs.files.end()) {
            vh::violate("the snapshot of the built-in configuration has no counterpart", path);
            continue;
        }
        ++seen;
        auto const& f = it->second;
        std::set<std::string> want {"ndim"};
        auto same = [&](std::string const& have, std::string const& of) {
            want.insert(have);
            auto const h = f.dsets.find(have);
            if (h == f.dsets.end()) return vh::violate("a selected dataset is missing", path + ": " + have);
            auto const& d = b.dsets.at(of);
            if (h->second.bytes != d.bytes) vh::violate("a selected field differs from that of the built-in configuration", path + ": " + have);
            if (h->second.dims != d.dims) vh::violate("extents of a selected field", path + ": " + have);
        };
        std::string const rep = l.restart ? "" : l.tag;
        for (auto const& q : l.fields) {
            if (is3(q)) same(l.tag + q, q);
            else if (q == "fx")
                for (int c = 0; c < o.nfx; ++c) same(l.tag + "fx" + std::to_string(c), "fx" + std::to_string(c));
            else if (q == "u" && !l.one)
                for (int d = 0; d < sim::ndim(); ++d) same(l.tag + "ux" + std::to_string(d), "ux" + std::to_string(d));
            else if (q == "u") {
                want.insert(l.tag + "u");
                std::vector<char> all;
                for (int d = 0; d < sim::ndim(); ++d) {
                    auto const& c = b.dsets.at("ux" + std::to_string(d)).bytes;
                    all.insert(all.end(), c.begin(), c.end());
                }
                auto const h = f.dsets.find(l.tag + "u");
                if (h == f.dsets.end() || h->second.bytes != all) vh::violate("a selected field differs from that of the built-in configuration", path + ": velocity");
            } else same(rep + q, q);
        }
        for (auto const& [name, d] : f.dsets)
            if (!want.count(name)) vh::violate("a dataset nobody asked for", path + ": " + name);
        if (!l.raw) continue;
        // whole local arrays, one file per process: together they hold every cell once
        std::vector<int> cover(static_cast<std::size_t>(o.n[0]) * o.n[1] * o.n[2], 0);
        for (int r = 0; r < o.p; ++r) {
            auto const w = fs.files.find("raw/" + std::filesystem::path(path).filename().string() + "." + std::to_string(r));
            if (w == fs.files.end()) {
                vh::violate("the file of a process is missing", vh::cat(r));
                return;
            }
            auto const& g = w->second.dsets;
            auto ext = [&](char const* a, int d) { return g.at(a).i(static_cast<std::size_t>(d)); };
            for (auto const& q : l.fields) {
                if (!is3(q) && q != "u") continue;
                auto const& a = g.at("all_" + q);
                int const comps = q == "u" ? sim::ndim() : 1;
                for (int c = 0; c < comps; ++c)
                    for (int k = 0; k < ext("nx_local_ng", 2); ++k)
                        for (int j = 0; j < ext("nx_local_ng", 1); ++j)
                            for (int i = 0; i < ext("nx_local_ng", 0); ++i) {
                                std::size_t const at = ((static_cast<std::size_t>(c) * ext("nx_local_wg", 2) + k + ext("n_ghost", 2)) * ext("nx_local_wg", 1) + j + ext("n_ghost", 1)) * ext("nx_local_wg", 0) + i + ext("n_ghost", 0);
                                std::size_t const to = (static_cast<std::size_t>(k + ext("start", 2)) * o.n[1] + j + ext("start", 1)) * o.n[0] + i + ext("start", 0);
                                if (q == "rho" && to < cover.size()) ++cover[to];
                                double const want_v = b.dsets.at(q == "u" ? "ux" + std::to_string(c) : q).d(to);
                                if (std::memcmp(a.bytes.data() + 8 * at, &want_v, 8) != 0) {
                                    vh::violate("the local array of a process does not hold its block", vh::cat(path, " ", q, " process ", r, " cell ", i, ",", j, ",", k));
                                    return;
                                }
                            }
            }
        }
        for (int c : cover)
            if (c != 1) {
                vh::violate("the blocks of the processes do not cover the domain once", path);
                break;
            }
    }
    if (seen == 0) vh::violate("nothing to compare", "");
}

bool run_ok(sim::Spec const& s, char const* what)
{
    auto const r = sim::run(s);
    vh::trace_validated();
    vh::transitions(2);
    if (!r.out.ok()) {
        vh::violate(std::string("the run fails: ") + what, r.out.summary());
        return false;
    }
    return true;
}

std::vector<Shape> shapes(bool th)
{
    std::vector<Shape> v;
    int const nd = sim::ndim();
    bool const im = sim::gravity() == "Internal_mass";
    std::vector<std::array<int, 3>> dims;
    if (nd == 1) dims = {{1, 0, 0}, {2, 0, 0}, {3, 0, 0}};
    if (nd == 2) dims = {{1, 1, 0}, {2, 1, 0}, {1, 3, 0}, {2, 2, 0}};
    if (nd == 3) dims = {{1, 1, 1}, {1, 2, 1}, {2, 1, 2}, {1, 1, 3}};
    for (auto const& d : dims)
        for (int perm = 0; perm < 2; ++perm)
            for (int nfx : {0, 2})
                for (int ng : {2, 3}) {
                    Shape o;
                    o.dims = d;
                    o.p = std::max(1, d[0]) * std::max(1, d[1]) * std::max(1, d[2]);
                    if (o.p == 1 && perm) continue;
                    if (im && d[0] > 1) continue;
                    if (!th && ng == 3 && (nfx == 0 || perm)) continue;
                    o.perm = perm;
                    o.nfx = nfx;
                    o.ng = ng;
                    o.n = nd == 1 ? std::array<int, 3> {11, 1, 1} : nd == 2 ? std::array<int, 3> {7, 9, 1} : std::array<int, 3> {6, 7, 9};
                    v.push_back(o);
                }
    return v;
}

// which configuration did the run use: the tag of its density
std::string used(kio::Fs const& fs)
{
    std::set<std::string> tags;
    for (auto const& [p, f] : fs.files) {
        std::string t = "?";
        for (auto const& [n, d] : f.dsets)
            if (n.size() >= 3 && n.substr(n.size() - 3) == "rho") t = "'" + n.substr(0, n.size() - 3) + "'";
        tags.insert(t);
    }
    std::string s;
    for (auto const& t : tags) s += t;
    return s;
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        bool const th = vh::thorough();
        // ---- the arguments
        std::vector<std::pair<std::string, std::string>> const tokens {// the argument, the configuration it designates ("-": none)
                {"--pdi-config=cfg/a.yaml", "'a_'"}, {"--pdi-config=./cfg/../cfg/b.yaml", "'b_'"}, {"--pdi-config=", "''"}, {"--pdi-config=cfg/missing.yaml", "!"}, {"--pdi-config", "-"}, {"cfg/a.yaml", "-"},
                {"--other=cfg/a.yaml", "-"}, {"pdi-config=cfg/a.yaml", "-"}, {"-pdi-config=cfg/a.yaml", "-"}, {" --pdi-config=cfg/a.yaml", "-"}, {"--pdi-configs=cfg/a.yaml", "-"}, {"--PDI-CONFIG=cfg/a.yaml", "-"}, {"", "-"}, {"--pdi-config=cfg/name with = and space.yaml", "'c_'"}};
        int const depth = th && sim::ndim() == 1 ? 4 : sim::ndim() == 1 ? 3 : 2;
        std::size_t const nt = tokens.size();
        std::size_t total = 0, lists = 1;
        for (int d = 0; d <= depth; ++d, lists *= nt) total += lists;
        for (std::size_t code = 0; code < total; ++code) {
            std::vector<std::size_t> seq;
            std::size_t z = code, block = 1;
            while (z >= block) {
                z -= block;
                block *= nt;
                seq.push_back(0);
            }
            for (auto& q : seq) {
                q = z % nt;
                z /= nt;
            }
            for (int p : {1, 2}) {
                if (sim::gravity() == "Internal_mass" && sim::ndim() == 1 && p > 1) continue;
                std::string name;
                for (auto q : seq) name += " [" + tokens[q].first + "]";
                x.run(vh::cat("arguments", name, " on ", p), [=] {
                    for (char const* t : {"a", "b"}) {
                        Layout l;
                        l.fields = {"rho", "iter"};
                        l.tag = std::string(t) + "_";
                        put(std::string("cfg/") + t + ".yaml", yaml(l, 0));
                    }
                    Layout l;
                    l.fields = {"rho", "x0"};
                    l.tag = "c_";
                    put("cfg/name with = and space.yaml", yaml(l, 0));
                    Shape o;
                    o.p = p;
                    o.n = {4, sim::ndim() > 1 ? 4 : 1, sim::ndim() > 2 ? 4 : 1};
                    if (p == 2) o.dims = sim::gravity() == "Internal_mass" ? std::array<int, 3> {1, 2, 1} : std::array<int, 3> {2, 1, 1};
                    sim::Spec s = base(o, 0);
                    s.init = [](int i, int j, int k) { return alpha::state((i + j + k) % 3, 0); };
                    std::string want = "''";
                    for (auto q : seq) {
                        s.args.push_back(tokens[q].first);
                        if (tokens[q].second != "-") want = tokens[q].second;
                    }
                    prog::ScopedFs fs;
                    auto const r = sim::run(s);
                    vh::trace_validated();
                    vh::transitions(1);
                    vh::state((vh::Hash() << want << long(p)).h);
                    if (want == "!") {
                        for (int rc : r.out.rc)
                            if (rc == 0) vh::violate("a configuration that cannot be read does not stop the run", r.out.summary());
                        if (!fs.fs.files.empty()) vh::violate("something is written although the configuration cannot be read", "");
                        return;
                    }
                    if (!r.out.ok()) return vh::violate("the run fails", r.out.summary());
                    if (used(fs.fs) != want) vh::violate("another configuration than the one on the command line", used(fs.fs) + " instead of " + want);
                });
            }
        }
        // ---- the input file on the command line
        for (int p : {1, 2})
            for (int what = 0; what < 7; ++what)
                for (int extra = 0; extra < 3; ++extra) {
                    if (sim::gravity() == "Internal_mass" && sim::ndim() == 1 && p > 1) continue;
                    static char const* const names[] = {"in/other.ini", "./in/../in/other.ini", "in/with space.ini", "in/missing.ini", "in", "", "--pdi-config=in/other.ini"};
                    x.run(vh::cat("input file '", names[what], "' with ", extra, " more arguments on ", p), [=] {
                        Shape o;
                        o.p = p;
                        o.n = {4, sim::ndim() > 1 ? 4 : 1, sim::ndim() > 2 ? 4 : 1};
                        if (p == 2) o.dims = sim::gravity() == "Internal_mass" ? std::array<int, 3> {1, 2, 1} : std::array<int, 3> {2, 1, 1};
                        sim::Spec s = base(o, 1);
                        prog::ScopedFs fs;
                        auto const r0 = sim::run(s);
                        if (!r0.ok()) return vh::violate("the run fails", r0.problem);
                        kio::Fs const ref = fs.fs;
                        fs.fs = kio::Fs();
                        put("in/other.ini", s.text());
                        put("in/with space.ini", s.text());
                        s.args = {names[what]};
                        if (extra > 0) s.args.push_back("--pdi-config=");
                        if (extra > 1) s.args.push_back("in/missing.ini");
                        s.no_ini = true;
                        auto const r = sim::run(s);
                        vh::trace_validated();
                        vh::transitions(2);
                        if (what >= 3) {
                            for (int rc : r.out.rc)
                                if (rc == 0) vh::violate("an input file that cannot be read does not stop the run", r.out.summary());
                            if (!fs.fs.files.empty()) vh::violate("something is written although the input file cannot be read", "");
                            return;
                        }
                        if (!r.out.ok()) return vh::violate("the run fails", r.out.summary());
                        for (auto const& [n, f] : ref.files)
                            if (!fs.fs.files.count(n) || fs.fs.files.at(n).dsets.at("rho").bytes != f.dsets.at("rho").bytes) vh::violate("another input file than the one on the command line", n);
                    });
                }
        // ---- configurations of the user: all subsets of the fields
        std::vector<std::string> const all {"rho", "P", "E", "T", "u", "fx", "x0", "iter", "x1", "x2", "output_id", "iter_output_id", "time_output_id", "current_time", "gamma"};
        auto const sh = shapes(th);
        int const bits = 8; // the last ones go together
        for (std::size_t q = 0; q < sh.size(); ++q)
            for (int m = 0; m < (1 << bits); ++m) {
                if (!th && sim::ndim() > 1 && (m * 7 + static_cast<int>(q)) % (sim::ndim() == 2 ? 2 : 4)) continue;
                Shape const o = sh[q];
                x.run(vh::cat("subset ", m, " on ", o.dims[0], "x", o.dims[1], "x", o.dims[2], " placement ", o.perm, " scalars ", o.nfx, " ghosts ", o.ng), [=] {
                    Layout l;
                    for (int b = 0; b < bits; ++b)
                        if (m >> b & 1) l.fields.push_back(all[static_cast<std::size_t>(b)]);
                    if (m >> (bits - 1) & 1) l.fields.insert(l.fields.end(), all.begin() + bits, all.end());
                    if (o.nfx == 0) l.fields.erase(std::remove(l.fields.begin(), l.fields.end(), std::string("fx")), l.fields.end());
                    l.tag = m % 2 ? "my_" : "";
                    l.one = m / 2 % 2;
                    l.raw = m % 2 && (m / 4) % 2;
                    sim::Spec s = base(o, 2);
                    prog::ScopedFs fs;
                    if (!run_ok(s, "built-in configuration")) return;
                    kio::Fs const ref = fs.fs;
                    fs.fs = kio::Fs();
                    put("cfg/own.yaml", yaml(l, o.nfx));
                    s.args = {"--pdi-config=cfg/own.yaml"};
                    if (!run_ok(s, "configuration of the user")) return;
                    for (auto const& [p, f] : fs.fs.files)
                        if (auto d = f.dsets.find(l.tag + "rho"); d != f.dsets.end()) vh::state((vh::Hash() << long(m) << std::string(d->second.bytes.begin(), d->second.bytes.end())).h);
                    compare(fs.fs, ref, l, o, 0);
                });
            }
        // ---- the built-in one given as a file, and the one that comes with the convergence test
        for (auto const& o : sh) {
            std::string const where = vh::cat(" on ", o.dims[0], "x", o.dims[1], "x", o.dims[2], " placement ", o.perm, " scalars ", o.nfx, " ghosts ", o.ng);
            x.run("copy of the built-in configuration" + where, [=] {
                sim::Spec s = base(o, 3);
                prog::ScopedFs fs;
                auto const r0 = sim::run(s);
                if (!r0.ok()) return vh::violate("the run fails: built-in configuration", r0.problem);
                put("cfg/copy.yaml", kio::last_conf);
                s.args = {"--pdi-config=cfg/copy.yaml"};
                auto const r1 = sim::run_alone(s);
                vh::trace_validated();
                vh::transitions(3);
                if (!r1.ok()) return vh::violate("the run fails: copy of the built-in configuration", r1.problem);
                std::string const d = sim::diff(r1.snaps, r0.snaps, 0);
                if (!d.empty()) vh::violate("the copy of the built-in configuration writes something else", d);
                if (r1.out.out != r0.out.out) vh::violate("the run reports something else", r1.out.out[0]);
            });
            x.run("configuration of the convergence test" + where, [=] {
                std::string const path = std::string(repo) + "/test/convergence_advection_sinus/pdi_config.yaml";
                if (!std::filesystem::exists(path)) return;
                sim::Spec s = base(o, 3);
                prog::ScopedFs fs;
                if (!run_ok(s, "built-in configuration")) return;
                kio::Fs const ref = fs.fs;
                fs.fs = kio::Fs();
                s.args = {"--pdi-config=" + path};
                if (!run_ok(s, "configuration of the convergence test")) return;
                for (auto const& [p, b] : ref.files) {
                    auto const f = fs.fs.files.find(p);
                    if (f == fs.fs.files.end()) {
                        vh::violate("the snapshot of the built-in configuration has no counterpart", p);
                        continue;
                    }
                    for (char const* n : {"rho", "P", "x0_ng", "iter", "current_time"})
                        if (!f->second.dsets.count(n) || f->second.dsets.at(n).bytes != b.dsets.at(n).bytes) vh::violate("a selected field differs from that of the built-in configuration", p + ": " + n);
                    std::vector<char> u;
                    for (int d = 0; d < sim::ndim(); ++d) {
                        auto const& c = b.dsets.at("ux" + std::to_string(d)).bytes;
                        u.insert(u.end(), c.begin(), c.end());
                    }
                    if (!f->second.dsets.count("u") || f->second.dsets.at("u").bytes != u) vh::violate("a selected field differs from that of the built-in configuration", p + ": velocity");
                }
            });
            // ---- stop and restart under a configuration of the user
            for (int from = 0; from < 3; ++from)
                for (int one = 0; one < 2; ++one)
                    x.run(vh::cat("restart from ", from, one ? " (one velocity)" : "", where), [=] {
                        Layout l;
                        l.fields = all;
                        l.tag = "mine_";
                        l.restart = true;
                        l.one = one;
                        if (o.nfx == 0) l.fields.erase(std::remove(l.fields.begin(), l.fields.end(), std::string("fx")), l.fields.end());
                        sim::Spec s = base(o, 3);
                        prog::ScopedFs fs;
                        if (!run_ok(s, "built-in configuration")) return;
                        kio::Fs const ref = fs.fs;
                        fs.fs = kio::Fs();
                        put("cfg/own.yaml", yaml(l, o.nfx));
                        s.args = {"--pdi-config=cfg/own.yaml"};
                        if (!run_ok(s, "configuration of the user")) return;
                        compare(fs.fs, ref, l, o, 0);
                        kio::File f;
                        std::string path;
                        for (auto const& [p, b] : ref.files)
                            if (b.dsets.at("output_id").i() == from) path = p;
                        if (!fs.fs.files.count(path)) return;
                        f = fs.fs.files.at(path);
                        fs.fs.files.clear();
                        fs.fs.files["start.h5"] = f;
                        s.ini.set("Problem", "restart", "true").set("Problem", "restart_file", "start.h5");
                        s.init = nullptr;
                        if (!run_ok(s, "restart with the configuration of the user")) return;
                        // what follows is bit for bit what the uninterrupted run wrote: the state is restored exactly, up to the conversions between pressure and energy
                        for (auto const& [p, b] : ref.files) {
                            if (b.dsets.at("output_id").i() <= from) continue;
                            auto const g = fs.fs.files.find(p);
                            if (g == fs.fs.files.end()) {
                                vh::violate("a snapshot is missing after the restart", p);
                                continue;
                            }
                            std::vector<std::pair<std::string, std::string>> names {{"mine_rho", "rho"}, {"mine_P", "P"}, {"mine_E", "E"}};
                            for (int c = 0; c < o.nfx; ++c) names.push_back({"mine_fx" + std::to_string(c), "fx" + std::to_string(c)});
                            for (auto const& [h, w] : names) {
                                auto const& a = g->second.dsets.at(h);
                                auto const& c = b.dsets.at(w);
                                for (std::size_t e = 0; e < c.count(); ++e)
                                    if (!vh::close(a.d(e), c.d(e), 1e-9)) {
                                        vh::violate("the restarted run differs from the uninterrupted one", vh::cat(p, " ", w, "[", e, "] = ", a.d(e), " instead of ", c.d(e)));
                                        break;
                                    }
                            }
                            if (g->second.dsets.at("iter").i() != b.dsets.at("iter").i() || g->second.dsets.at("output_id").i() != b.dsets.at("output_id").i()) vh::violate("counters after the restart", p);
                        }
                    });
        }
    });
}
