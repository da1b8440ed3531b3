// C25: the XDMF index after every output.
#include "common.hpp"
#include <filesystem>
#include <fstream>
#include <set>

namespace {

struct Node
{
    std::string name, text;
    std::vector<std::pair<std::string, std::string>> attr;
    std::vector<Node> kids;
    std::string get(std::string const& k) const
    {
        for (auto const& [a, v] : attr)
            if (a == k) return v;
        return "";
    }
    std::vector<Node const*> all(std::string const& n) const
    {
        std::vector<Node const*> r;
        for (auto const& k : kids)
            if (k.name == n) r.push_back(&k);
        return r;
    }
};

// well-formed subset of XML; throws std::runtime_error
struct Parser
{
    std::string const& s;
    std::size_t p = 0;
    [[noreturn]] void fail(std::string const& w) const { throw std::runtime_error(w + " at offset " + std::to_string(p)); }
    bool at(char const* t) const { return s.compare(p, std::strlen(t), t) == 0; }
    void ws()
    {
        while (p < s.size() && std::isspace(static_cast<unsigned char>(s[p]))) ++p;
    }
    std::string name()
    {
        std::size_t const b = p;
        while (p < s.size() && (std::isalnum(static_cast<unsigned char>(s[p])) || s[p] == '_' || s[p] == ':')) ++p;
        if (b == p) fail("a name is expected");
        return s.substr(b, p - b);
    }
    Node element()
    {
        Node n;
        if (s[p] != '<') fail("an element is expected");
        ++p;
        n.name = name();
        for (;;) {
            std::size_t const b = p;
            ws();
            if (at("/>")) {
                p += 2;
                return n;
            }
            if (at(">")) {
                ++p;
                break;
            }
            if (b == p) fail("no blank before an attribute");
            std::string const a = name();
            if (!at("=\"")) fail("an attribute has no value");
            p += 2;
            std::size_t const e = s.find('"', p);
            if (e == std::string::npos) fail("a value is not closed");
            std::string const v = s.substr(p, e - p);
            if (v.find_first_of("<&") != std::string::npos) fail("markup in a value");
            if (!n.get(a).empty()) fail("repeated attribute");
            n.attr.emplace_back(a, v);
            p = e + 1;
        }
        for (;;) {
            while (p < s.size() && s[p] != '<') n.text += s[p++];
            if (p >= s.size()) fail(n.name + " is not closed");
            if (at("</")) {
                p += 2;
                if (name() != n.name) fail("tags do not match");
                ws();
                if (!at(">")) fail("bad end of a tag");
                ++p;
                break;
            }
            n.kids.push_back(element());
        }
        std::size_t const b = n.text.find_first_not_of(" \t\r\n"), e = n.text.find_last_not_of(" \t\r\n");
        n.text = b == std::string::npos ? "" : n.text.substr(b, e - b + 1);
        return n;
    }
    Node document()
    {
        if (!at("<?xml ")) fail("no XML declaration");
        p = s.find("?>");
        if (p == std::string::npos) fail("the declaration is not closed");
        p += 2;
        ws();
        if (at("<!DOCTYPE")) {
            p = s.find("]>", p);
            if (p == std::string::npos) fail("the document type is not closed");
            p += 2;
        }
        ws();
        Node n = element();
        ws();
        if (p != s.size()) fail("text after the root");
        return n;
    }
};

std::vector<std::size_t> numbers(std::string const& s)
{
    std::istringstream i(s);
    std::vector<std::size_t> v;
    std::size_t x;
    while (i >> x) v.push_back(x);
    return v;
}

// "" when the index describes exactly the snapshots `ids` (in this order) on the disk
std::string verify(std::string const& text, std::string const& dir, kio::Fs const& fs, std::vector<std::string> const& paths, int nfx)
{
    Node root;
    try {
        Parser p {text};
        root = p.document();
    } catch (std::exception const& e) {
        return std::string("not well formed: ") + e.what();
    }
    if (root.name != "Xdmf") return "the root is " + root.name;
    auto const dom = root.all("Domain");
    if (dom.size() != 1 || root.kids.size() != 1) return "domains";
    auto const col = dom[0]->all("Grid");
    if (col.size() != 1 || col[0]->get("GridType") != "Collection" || col[0]->get("CollectionType") != "Temporal") return "no temporal collection";
    auto const grids = col[0]->all("Grid");
    if (grids.size() != paths.size()) return vh::cat(grids.size(), " snapshots listed, ", paths.size(), " written");
    for (std::size_t g = 0; g < grids.size(); ++g) {
        Node const& n = *grids[g];
        if (n.get("GridType") != "Uniform") return "kind of grid";
        auto const it = fs.files.find(paths[g]);
        if (it == fs.files.end()) return "harness: " + paths[g] + " does not exist";
        kio::File const& f = it->second;
        auto const tm = n.all("Time");
        if (tm.size() != 1) return "number of times";
        double const t = f.dsets.at("current_time").d();
        if (std::stod(tm[0]->get("Value")) != t) return vh::cat("snapshot ", g, " listed at ", tm[0]->get("Value"), ", written at ", t);
        // one reference to a dataset: file, name and dimensions
        auto item = [&](Node const& d, std::string const& want) -> std::string {
            if (d.get("Format") != "HDF" || d.get("NumberType") != "Float" || d.get("Precision") != "8") return "format of " + want;
            auto const c = d.text.find(":/");
            if (c == std::string::npos) return "reference " + d.text;
            std::string const file = kio::norm((std::filesystem::path(dir.empty() ? "." : dir) / d.text.substr(0, c)).string()), ds = d.text.substr(c + 2);
            if (file != kio::norm(paths[g])) return want + " of snapshot " + paths[g] + " refers to " + file;
            if (ds != want) return want + " refers to " + ds;
            auto const di = f.dsets.find(ds);
            if (di == f.dsets.end()) return "reference to a dataset that does not exist: " + ds;
            if (numbers(d.get("Dimensions")) != di->second.dims) return "dimensions of " + ds + ": " + d.get("Dimensions");
            return "";
        };
        auto const topo = n.all("Topology");
        auto const geo = n.all("Geometry");
        if (topo.size() != 1 || geo.size() != 1) return "topology or geometry";
        if (topo[0]->get("TopologyType") != "3DRectMesh" || geo[0]->get("GeometryType") != "VXVYVZ") return "kind of mesh";
        auto const nodes = numbers(topo[0]->get("Dimensions"));
        auto cells = f.dsets.at("rho").dims;
        for (auto& c : cells) ++c;
        if (nodes != cells) return "number of nodes: " + topo[0]->get("Dimensions");
        auto const ax = geo[0]->all("DataItem");
        if (ax.size() != 3) return "number of axes";
        for (std::size_t d = 0; d < 3; ++d) {
            std::string const e = item(*ax[d], "x" + std::to_string(d) + "_ng");
            if (!e.empty()) return e;
        }
        std::set<std::string> want {"rho", "P", "E", "T"};
        for (int d = 0; d < sim::ndim(); ++d) want.insert("ux" + std::to_string(d));
        for (int c = 0; c < nfx; ++c) want.insert("fx" + std::to_string(c));
        for (Node const* a : n.all("Attribute")) {
            std::string const v = a->get("Name");
            if (!want.erase(v)) return "field " + v + " listed twice or unknown";
            if (a->get("Center") != "Cell" || a->get("AttributeType") != "Scalar") return "kind of field";
            auto const it2 = a->all("DataItem");
            if (it2.size() != 1) return "items of " + v;
            std::string const e = item(*it2[0], v);
            if (!e.empty()) return e;
        }
        if (!want.empty()) return "field " + *want.begin() + " is not listed";
    }
    return "";
}

struct Options
{
    std::array<int, 3> n {6, 1, 1};
    int p = 1, ng = 2, nfx = 0;
    std::string dir, prefix = "result";
    double t0 = 0, freq = 0;
    int fi = 1, iters = 4;
    int restart_at = -1;
    bool stale = false;
};

void check(Options const& o)
{
    namespace fsys = std::filesystem;
    sim::Spec s;
    s.n = o.n;
    s.ng = o.ng;
    s.nfx = o.nfx;
    alpha::domain(s);
    s.mpi.nranks = o.p;
    if (o.p > 1 && sim::gravity() == "Internal_mass") s.ini.set("Parallelization", "mpi_dims_cart_x0", 1);
    s.ini.set("Boundary Condition", "BC", "Reflexive").set("Run", "t_ini", o.t0).set("Run", "t_end", o.t0 + 1e6).set("Output", "max_iter", o.iters);
    if (o.fi) s.ini.set("Output", "iter_frequency", o.fi);
    if (o.freq > 0) s.ini.set("Output", "time_frequency", o.freq / alpha::uscale());
    if (!o.dir.empty()) s.ini.set("Output", "directory", o.dir);
    s.ini.set("Output", "prefix", o.prefix);
    int const nfx = o.nfx;
    s.init = [=](int i, int j, int k) { return alpha::state((i + 2 * j + 3 * k) % 5, nfx); };
    std::string const index = kio::norm((o.dir.empty() ? std::string(".") : o.dir) + "/" + o.prefix + ".xmf");
    prog::ScopedFs fs;
    int first = 0; // output number of the first snapshot of the run
    fsys::create_directories(o.dir.empty() ? "." : o.dir);
    s.keep_files = true;
    auto paths = [&] {
        // the snapshots of this run, in order
        std::vector<std::string> v;
        for (auto const& [p, f] : kio::fs->files)
            if (f.dsets.count("output_id") && f.dsets.at("output_id").i() >= first) v.push_back(p);
        return v;
    };
    int seen = 0;
    s.user_step = true;
    std::string early;
    auto look = [&](std::string const& when) {
        auto const v = paths();
        if (v.empty()) return;
        std::ifstream f(index);
        if (!f) {
            if (early.empty()) early = when + ": no index";
            return;
        }
        std::stringstream t;
        t << f.rdbuf();
        std::string const e = verify(t.str(), o.dir, *kio::fs, v, o.nfx);
        if (!e.empty() && early.empty()) early = when + ": " + e;
        ++seen;
    };
    s.on_user_step = [&](double, double) {
        if (kmpi::world_rank() == 0) look("between outputs");
    };
    if (o.stale) {
        std::ofstream f(index);
        f << std::string(100000, 'x') << "\n</Xdmf>\n";
    }
    if (o.restart_at >= 0) {
        auto const r0 = sim::run(s);
        if (!r0.ok()) return vh::violate("the run fails", r0.problem);
        auto const& from = r0.snaps.at(static_cast<std::size_t>(o.restart_at));
        first = from.output_id + 1;
        std::map<std::string, kio::File> keep;
        for (auto const& [p, f] : fs.fs.files)
            if (p <= from.path) keep[p] = f;
        fs.fs.files = keep;
        early.clear();
        s.ini.set("Problem", "restart", "true").set("Problem", "restart_file", from.path);
    }
    std::set<std::string> before;
    auto const r = sim::run(s);
    vh::trace_validated();
    if (!r.ok()) return vh::violate("the run fails", r.problem);
    if (!early.empty()) return vh::violate("the index is wrong during the run", early);
    auto const v = paths();
    look("at the end");
    if (!early.empty()) return vh::violate("the index is wrong at the end", early);
    vh::transitions(static_cast<std::uint64_t>(seen));
    vh::state(vh::Hash() << r.out.files.at(index));
    if (seen < 2) vh::counter("runs seen at their end only");
    for (auto const& [p, t] : r.out.files)
        if (p != index) vh::violate("unexpected file", p);
    if (!o.dir.empty() && kio::norm(o.dir) != ".") {
        std::string top = kio::norm(o.dir);
        top = top.substr(0, top.find('/'));
        if (!top.empty() && top != ".." && fsys::current_path().string().ends_with(".d")) fsys::remove_all(top);
    }
    fsys::remove(index);
    // one process writes it
    std::set<int> writers;
    for (auto const& [q, path] : r.out.written) {
        if (path == index) writers.insert(q);
    }
    if (writers.size() != 1) vh::violate("the index is not written by one process", vh::cat(writers.size(), " processes"));
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        int const nd = sim::ndim();
        std::vector<std::array<int, 3>> sizes;
        if (nd == 1) sizes = {{6, 1, 1}, {13, 1, 1}};
        if (nd == 2) sizes = {{6, 4, 1}, {5, 7, 1}};
        if (nd == 3) sizes = {{4, 5, 6}, {6, 4, 5}};
        int const pm = nd == 1 && sim::gravity() == "Internal_mass" ? 1 : 2;
        for (auto const& n : sizes)
            for (int p = 1; p <= pm; ++p)
                for (int nfx : {0, 1, 3, 10})
                    for (int ng : {2, 3})
                        for (int fi : {0, 1, 2, 3})
                            for (double freq : {0., 0.013, 0.05})
                                for (double t0 : {0., 0.3, 1234567.25, -3e-7})
                                    for (int rs : {-1, 0, 1, 2}) {
                                        if (p == 2 && (n[0] < 2 * ng || (nd > 1 && n[1] < 2 * ng && nd != 1)) && ng > 2) continue;
                                        if (rs >= 0 && !(fi == 1)) continue;
                                        if (rs >= 0 && (ng == 3 || nfx == 3)) continue;
                                        if (t0 != 0 && !(ng == 2 && nfx < 3 && n == sizes[0])) continue;
                                        if (t0 > 1e5 && freq == 0.013) continue;
                                        if (alpha::uscale() != 1 && (t0 == -3e-7 || freq == 0.013)) continue;
                                        Options o;
                                        o.n = n;
                                        o.p = p;
                                        o.nfx = nfx;
                                        o.ng = ng;
                                        o.fi = fi;
                                        o.freq = freq;
                                        o.t0 = t0;
                                        o.restart_at = rs;
                                        o.iters = 5;
                                        x.run(vh::cat(n[0], "x", n[1], "x", n[2], " on ", p, " scalars ", nfx, " ghosts ", ng, " every ", fi, " iterations, every ", freq, " from ", t0, " restart ", rs), [=] { check(o); });
                                    }
        for (char const* dir : {"", ".", "out", "out/", "a/b", "./out"})
            for (char const* prefix : {"result", "r", "my_run", "x.y", "p-1"})
                for (bool stale : {false, true})
                    for (int p = 1; p <= pm; ++p)
                        x.run(vh::cat("directory '", dir, "' prefix '", prefix, "' stale ", stale, " on ", p), [=] {
                            Options o;
                            o.n = sizes[0];
                            o.p = p;
                            o.dir = dir;
                            o.prefix = prefix;
                            o.stale = stale;
                            o.nfx = 1;
                            check(o);
                        });
        // many cells and scalars
        for (int q = 0; q < 6; ++q)
            x.run(vh::cat("large ", q), [=] {
                Options o;
                o.n = alpha::large();
                if (q % 2) std::swap(o.n[0], o.n[static_cast<std::size_t>(nd - 1)]);
                o.p = q % 3 ? pm : 1;
                o.nfx = q % 2 ? 10 : 2;
                o.ng = 2 + q % 4;
                o.iters = 12 + 11 * q;
                if (nd == 3) o.iters = 12;
                check(o);
            });
        // many snapshots
        x.run("long list", [=] {
            Options o;
            o.n = sizes[0];
            o.iters = 120;
            check(o);
        });
        // the list keeps all of them, however many; looked at the end
        for (int m : {530})
            x.run(vh::cat("list of ", m), [=] {
                Options o;
                o.n = {sizes[0][0], 1, 1};
                for (int d = 1; d < nd; ++d) o.n[static_cast<std::size_t>(d)] = 2;
                o.iters = m;
                check(o);
            });
    });
}
