#include "kio.hpp"

#include <algorithm>
#include <cctype>
#include <cstdarg>
#include <fstream>
#include <functional>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>

#include "hdf5.h"
#include "kmpi.hpp"
#include "kshim_runtime.hpp"
#include "pdi.h"

namespace kio {

namespace {
Fs g_fs;
}
Fs* fs = &g_fs;
Handles h5;
PdiHook pdi_hook;
std::string last_conf;
std::function<std::size_t(void const*)> alloc_bytes = kshim::bytes_at;

void reset_handles()
{
    h5 = Handles {};
}

std::string norm(std::string const& p)
{
    std::string r;
    for (char c : p) {
        if (c == '/' && !r.empty() && r.back() == '/') continue;
        r += c;
    }
    while (r.rfind("./", 0) == 0) r = r.substr(2);
    return r;
}

// ------------------------------------------------------------------ YAML (the subset PDI configurations use)
struct Node
{
    enum Kind { null, scalar, map, seq } kind = null;
    std::string s;
    std::vector<std::pair<std::string, Node>> m;
    std::vector<Node> q;
    Node const* get(std::string const& k) const
    {
        if (kind != map) return nullptr;
        for (auto const& [n, v] : m)
            if (n == k) return &v;
        return nullptr;
    }
};
namespace {
struct Line
{
    int indent;
    std::string text;
};
[[noreturn]] void yerr(std::string const& s)
{
    throw std::runtime_error("PDI: YAML error: " + s);
}
std::string trim(std::string const& s)
{
    std::size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n");
    return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
std::string strip_comment(std::string const& l)
{
    char q = 0;
    for (std::size_t i = 0; i < l.size(); ++i) {
        char const c = l[i];
        if (q) {
            if (c == q) q = 0;
        } else if ((c == '\'' || c == '"') && (i == 0 || std::string(" \t[{,:-").find(l[i - 1]) != std::string::npos)) {
            q = c;
        } else if (c == '#' && (i == 0 || l[i - 1] == ' ' || l[i - 1] == '\t')) {
            return l.substr(0, i);
        }
    }
    return l;
}
std::string unquote(std::string const& s)
{
    if (s.size() >= 2 && (s[0] == '\'' || s[0] == '"') && s.back() == s[0]) return s.substr(1, s.size() - 2);
    return s;
}
struct Flow
{
    std::string const& t;
    std::size_t i = 0;
    void ws()
    {
        while (i < t.size() && std::isspace(static_cast<unsigned char>(t[i]))) ++i;
    }
    std::string tok(std::string const& stop)
    {
        ws();
        if (i < t.size() && (t[i] == '\'' || t[i] == '"')) {
            char const q = t[i++];
            std::string r;
            while (i < t.size() && t[i] != q) r += t[i++];
            if (i >= t.size()) yerr("unterminated quote in " + t);
            ++i;
            return r;
        }
        std::string r;
        while (i < t.size() && stop.find(t[i]) == std::string::npos) {
            if (t[i] == '{') { // ${...}
                while (i < t.size() && t[i] != '}') r += t[i++];
            }
            if (i < t.size()) r += t[i++];
        }
        return trim(r);
    }
    Node value()
    {
        ws();
        Node n;
        if (i < t.size() && t[i] == '{') {
            ++i;
            n.kind = Node::map;
            for (;;) {
                ws();
                if (i >= t.size()) yerr("unterminated map in " + t);
                if (t[i] == '}') {
                    ++i;
                    return n;
                }
                std::string const k = tok(":,}");
                ws();
                Node v;
                if (i < t.size() && t[i] == ':') {
                    ++i;
                    v = value();
                }
                n.m.emplace_back(k, v);
                ws();
                if (i < t.size() && t[i] == ',') ++i;
            }
        }
        if (i < t.size() && t[i] == '[') {
            ++i;
            n.kind = Node::seq;
            for (;;) {
                ws();
                if (i >= t.size()) yerr("unterminated sequence in " + t);
                if (t[i] == ']') {
                    ++i;
                    return n;
                }
                n.q.push_back(value());
                ws();
                if (i < t.size() && t[i] == ',') ++i;
            }
        }
        n.kind = Node::scalar;
        n.s = tok(",]}");
        return n;
    }
};
Node parse_inline(std::string const& t)
{
    Node n;
    std::string const s = trim(t);
    if (s.empty() || s == "~" || s == "null") return n;
    if (s[0] == '{' || s[0] == '[') {
        Flow f {s};
        return f.value();
    }
    n.kind = Node::scalar;
    n.s = unquote(s);
    return n;
}
// position of the ':' that ends a key, npos if none
std::size_t key_end(std::string const& t)
{
    std::size_t i = 0;
    if (!t.empty() && (t[0] == '\'' || t[0] == '"')) {
        i = t.find(t[0], 1);
        if (i == std::string::npos) return i;
        ++i;
        return i < t.size() && t[i] == ':' ? i : std::string::npos;
    }
    if (!t.empty() && (t[0] == '{' || t[0] == '[')) return std::string::npos;
    for (; i < t.size(); ++i) {
        if (t[i] == ':' && (i + 1 == t.size() || t[i + 1] == ' ' || t[i + 1] == '\t')) return i;
    }
    return std::string::npos;
}
Node parse_block(std::vector<Line>& L, std::size_t& i, int indent);
Node parse_after_key(std::vector<Line>& L, std::size_t& i, int indent, std::string const& rest)
{
    if (!trim(rest).empty()) return parse_inline(rest);
    if (i < L.size() && (L[i].indent > indent || (L[i].indent == indent && L[i].text.rfind("- ", 0) == 0))) {
        return parse_block(L, i, L[i].indent);
    }
    return Node {};
}
Node parse_block(std::vector<Line>& L, std::size_t& i, int indent)
{
    Node n;
    if (L[i].text.rfind("- ", 0) == 0 || L[i].text == "-") {
        n.kind = Node::seq;
        while (i < L.size() && L[i].indent == indent && (L[i].text.rfind("- ", 0) == 0 || L[i].text == "-")) {
            std::string const rest = L[i].text.size() > 1 ? L[i].text.substr(2) : "";
            std::size_t const lead = rest.find_first_not_of(' ');
            if (lead != std::string::npos && (key_end(trim(rest)) != std::string::npos || rest.substr(lead).rfind("- ", 0) == 0)) {
                L[i].indent = indent + 2 + static_cast<int>(lead);
                L[i].text = trim(rest);
                n.q.push_back(parse_block(L, i, L[i].indent));
            } else {
                ++i;
                n.q.push_back(parse_after_key(L, i, indent, rest));
            }
        }
        return n;
    }
    if (key_end(L[i].text) == std::string::npos) {
        Node r = parse_inline(L[i].text);
        ++i;
        return r;
    }
    n.kind = Node::map;
    while (i < L.size() && L[i].indent == indent) {
        std::size_t const k = key_end(L[i].text);
        if (k == std::string::npos) yerr("key expected: " + L[i].text);
        std::string const key = unquote(trim(L[i].text.substr(0, k)));
        std::string rest = trim(L[i].text.substr(k + 1));
        ++i;
        // flow collections may span lines
        while (!rest.empty() && (rest[0] == '[' || rest[0] == '{')) {
            int depth = 0;
            for (char c : rest) depth += (c == '[' || c == '{') - (c == ']' || c == '}');
            if (depth <= 0 || i >= L.size()) break;
            rest += " " + L[i++].text;
        }
        if (n.get(key)) yerr("duplicate key " + key);
        n.m.emplace_back(key, parse_after_key(L, i, indent, rest));
    }
    if (i < L.size() && L[i].indent > indent) yerr("bad indentation: " + L[i].text);
    return n;
}
Node parse_yaml(std::string const& text)
{
    std::vector<Line> L;
    std::istringstream is(text);
    std::string l;
    while (std::getline(is, l)) {
        if (l.find('\t') != std::string::npos && l.find_first_not_of(" ") == l.find('\t')) yerr("tabulation in the indentation");
        l = strip_comment(l);
        if (trim(l).empty() || trim(l) == "---") continue;
        L.push_back({static_cast<int>(l.find_first_not_of(' ')), trim(l)});
    }
    if (L.empty()) return {};
    std::size_t i = 0;
    Node n = parse_block(L, i, L[0].indent);
    if (i != L.size()) yerr("trailing text: " + L[i].text);
    return n;
}

std::vector<std::shared_ptr<Node>> g_trees;

// ------------------------------------------------------------------ PDI state (one per process)
struct Meta
{
    std::string type; // int double char MPI_Comm
    std::vector<std::size_t> dims;
    std::vector<char> bytes;
};
struct Shared
{
    void* p;
    int access;
};
struct State
{
    std::shared_ptr<Node> conf;
    std::map<std::string, Meta> meta;
    std::map<std::string, std::vector<Shared>> shared;
};
std::vector<std::unique_ptr<State>> g_states;

State& st()
{
    void*& u = kmpi::user_slot(0);
    if (u == nullptr) throw std::runtime_error("PDI: used before PDI_init");
    return *static_cast<State*>(u);
}
[[noreturn]] void perr(std::string const& s)
{
    throw std::runtime_error("PDI: " + s);
}

long meta_int(std::string const& name, long idx, bool has_idx)
{
    State& s = st();
    auto it = s.meta.find(name);
    if (it == s.meta.end()) {
        perr("reference to '" + name + "' which has no value");
    }
    Meta const& m = it->second;
    std::size_t n = 1;
    for (auto d : m.dims) n *= d;
    if (!has_idx && !m.dims.empty()) perr("array '" + name + "' used as a number");
    if (has_idx && (idx < 0 || static_cast<std::size_t>(idx) >= n)) perr("index out of range in '" + name + "'");
    long const k = has_idx ? idx : 0;
    if (m.type == "int") {
        int v;
        std::memcpy(&v, m.bytes.data() + 4 * k, 4);
        return v;
    }
    if (m.type == "char") return m.bytes[k];
    if (m.type == "double") {
        double v;
        std::memcpy(&v, m.bytes.data() + 8 * k, 8);
        return static_cast<long>(v);
    }
    perr("'" + name + "' is not a number");
}

struct Expr
{
    std::string const& t;
    std::size_t i = 0;
    void ws()
    {
        while (i < t.size() && std::isspace(static_cast<unsigned char>(t[i]))) ++i;
    }
    bool eat(std::string const& x)
    {
        ws();
        if (t.compare(i, x.size(), x) == 0) {
            i += x.size();
            return true;
        }
        return false;
    }
    [[noreturn]] void bad()
    {
        perr("invalid expression '" + t + "'");
    }
    long full()
    {
        long const v = lor();
        ws();
        if (i != t.size()) bad();
        return v;
    }
    long lor()
    {
        long v = land();
        while (eat("||") || eat("|")) {
            long const r = land();
            v = v || r;
        }
        return v;
    }
    long land()
    {
        long v = cmp();
        while (eat("&&") || eat("&")) {
            long const r = cmp();
            v = v && r;
        }
        return v;
    }
    long cmp()
    {
        long v = add();
        for (;;) {
            if (eat("<=")) v = v <= add();
            else if (eat(">=")) v = v >= add();
            else if (eat("!=")) v = v != add();
            else if (eat("==") || eat("=")) v = v == add();
            else if (eat("<")) v = v < add();
            else if (eat(">")) v = v > add();
            else return v;
        }
    }
    long add()
    {
        long v = mul();
        for (;;) {
            if (eat("+")) v += mul();
            else if (eat("-")) v -= mul();
            else return v;
        }
    }
    long mul()
    {
        long v = prim();
        for (;;) {
            if (eat("*")) v *= prim();
            else if (eat("/")) {
                long const d = prim();
                if (d == 0) perr("division by zero in '" + t + "'");
                v /= d;
            } else if (eat("%")) {
                long const d = prim();
                if (d == 0) perr("division by zero in '" + t + "'");
                v %= d;
            } else return v;
        }
    }
    std::string ident()
    {
        std::string r;
        while (i < t.size() && (std::isalnum(static_cast<unsigned char>(t[i])) || t[i] == '_')) r += t[i++];
        if (r.empty()) bad();
        return r;
    }
    long prim()
    {
        ws();
        if (eat("(")) {
            long const v = lor();
            if (!eat(")")) bad();
            return v;
        }
        if (eat("-")) return -prim();
        if (eat("$")) {
            bool const br = eat("{");
            std::string const n = ident();
            long idx = 0;
            bool has = false;
            if (i < t.size() && t[i] == '[') {
                ++i;
                idx = lor();
                has = true;
                if (!eat("]")) bad();
            }
            if (br && !eat("}")) bad();
            return meta_int(n, idx, has);
        }
        if (i < t.size() && std::isdigit(static_cast<unsigned char>(t[i]))) {
            long v = 0;
            while (i < t.size() && std::isdigit(static_cast<unsigned char>(t[i]))) v = v * 10 + (t[i++] - '0');
            return v;
        }
        bad();
    }
};
long ev(std::string const& s)
{
    Expr e {s};
    return e.full();
}
long ev(Node const& n)
{
    if (n.kind != Node::scalar) perr("number expected");
    return ev(n.s);
}
std::string str(std::string const& s)
{
    std::string r;
    for (std::size_t i = 0; i < s.size();) {
        if (s[i] != '$') {
            r += s[i++];
            continue;
        }
        ++i;
        bool const br = i < s.size() && s[i] == '{';
        if (br) ++i;
        std::string n;
        while (i < s.size() && (std::isalnum(static_cast<unsigned char>(s[i])) || s[i] == '_')) n += s[i++];
        long idx = 0;
        bool has = false;
        if (i < s.size() && s[i] == '[') {
            std::size_t const e = s.find(']', i);
            if (e == std::string::npos) perr("invalid reference in '" + s + "'");
            idx = ev(s.substr(i + 1, e - i - 1));
            has = true;
            i = e + 1;
        }
        if (br) {
            if (i >= s.size() || s[i] != '}') perr("invalid reference in '" + s + "'");
            ++i;
        }
        auto it = st().meta.find(n);
        if (it == st().meta.end()) perr("reference to '" + n + "' which has no value");
        if (it->second.type == "char" && !has) {
            r += std::string(it->second.bytes.data(), it->second.bytes.size());
        } else {
            r += std::to_string(meta_int(n, idx, has));
        }
    }
    return r;
}

// type description -> base type and extents
void type_of(Node const& n, std::string& base, std::vector<std::size_t>& dims)
{
    dims.clear();
    if (n.kind == Node::scalar) {
        base = n.s;
        return;
    }
    Node const* ty = n.get("type");
    if (ty == nullptr) perr("type missing");
    if (ty->s != "array") {
        base = ty->s;
        return;
    }
    Node const* sub = n.get("subtype");
    Node const* size = n.get("size");
    if (!sub || !size) perr("incomplete array type");
    base = sub->s;
    auto const push = [&](Node const& x) {
        long const v = ev(x);
        if (v < 0) perr("negative array size");
        dims.push_back(static_cast<std::size_t>(v));
    };
    if (size->kind == Node::seq) {
        for (auto const& x : size->q) push(x);
    } else {
        push(*size);
    }
}
std::size_t esize(std::string const& t)
{
    if (t == "int" || t == "float") return 4;
    if (t == "double" || t == "long" || t == "int64") return 8;
    if (t == "char") return 1;
    if (t == "MPI_Comm") return sizeof(void*);
    perr("unknown type '" + t + "'");
}
std::size_t prod(std::vector<std::size_t> const& d)
{
    std::size_t n = 1;
    for (auto x : d) n *= x;
    return n;
}

struct Sel
{
    std::vector<std::size_t> start, size;
};
Sel selection(Node const* n, std::vector<std::size_t> const& dims, std::string const& what)
{
    Sel s;
    s.start.assign(dims.size(), 0);
    s.size = dims;
    if (n == nullptr || n->kind == Node::null) return s;
    auto const read = [&](char const* key, std::vector<std::size_t>& v) {
        Node const* k = n->get(key);
        if (k == nullptr) return;
        std::vector<Node> xs = k->kind == Node::seq ? k->q : std::vector<Node> {*k};
        if (xs.size() != dims.size()) perr(what + ": selection of rank " + std::to_string(xs.size()) + " on data of rank " + std::to_string(dims.size()));
        for (std::size_t i = 0; i < xs.size(); ++i) {
            long const x = ev(xs[i]);
            if (x < 0) perr(what + ": negative selection");
            v[i] = static_cast<std::size_t>(x);
        }
    };
    if (n->get("start") && !n->get("size")) {
        perr(what + ": selection with a start and no size");
    }
    read("size", s.size);
    read("start", s.start);
    for (std::size_t i = 0; i < dims.size(); ++i) {
        if (s.start[i] + s.size[i] > dims[i]) {
            perr(what + ": selection [" + std::to_string(s.start[i]) + "," + std::to_string(s.start[i] + s.size[i]) + ") outside of the extent " + std::to_string(dims[i]));
        }
    }
    return s;
}
std::vector<std::size_t> offsets(Sel const& s, std::vector<std::size_t> const& dims)
{
    std::vector<std::size_t> o;
    std::size_t const n = prod(s.size);
    std::vector<std::size_t> idx(dims.size(), 0);
    for (std::size_t q = 0; q < n; ++q) {
        std::size_t off = 0;
        for (std::size_t d = 0; d < dims.size(); ++d) off = off * dims[d] + s.start[d] + idx[d];
        o.push_back(off);
        for (int d = static_cast<int>(dims.size()) - 1; d >= 0; --d) {
            if (++idx[d] < s.size[d]) break;
            idx[d] = 0;
        }
    }
    return o;
}
bool event_matches(Node const* e, std::string const& ev_)
{
    if (e == nullptr) return false;
    if (e->kind == Node::seq) {
        return std::any_of(e->q.begin(), e->q.end(), [&](Node const& n) { return n.s == ev_; });
    }
    return e->s == ev_;
}

Node const* decl(std::string const& name, bool& is_meta)
{
    Node const* m = st().conf->get("metadata");
    if (m && m->get(name)) {
        is_meta = true;
        return m->get(name);
    }
    is_meta = false;
    Node const* d = st().conf->get("data");
    return d ? d->get(name) : nullptr;
}

// user memory of a descriptor
char* memory(std::string const& name, bool to_file, std::string& base, std::vector<std::size_t>& dims, bool& ro_meta)
{
    bool is_meta = false;
    Node const* d = decl(name, is_meta);
    if (d == nullptr) perr("'" + name + "' is not declared");
    type_of(*d, base, dims);
    auto it = st().shared.find(name);
    ro_meta = false;
    if (it != st().shared.end() && !it->second.empty()) {
        Shared const& s = it->second.back();
        if (!(s.access & (to_file ? PDI_OUT : PDI_IN))) {
            perr("'" + name + "' is not shared with the access rights needed to " + (to_file ? "write it to" : "read it from") + " a file");
        }
        return static_cast<char*>(s.p);
    }
    if (is_meta && to_file) {
        auto m = st().meta.find(name);
        if (m != st().meta.end()) return m->second.bytes.data();
    }
    return nullptr;
}

void transfer(Node const& file, std::string const& path, File* f, bool write, MPI_Comm comm)
{
    Node const* list = file.get(write ? "write" : "read");
    if (list == nullptr || list->kind == Node::null) return;
    Node const* dsets = file.get("datasets");
    std::vector<std::pair<std::string, Node>> items;
    if (list->kind == Node::seq) {
        for (auto const& x : list->q) items.emplace_back(x.s, Node {});
    } else {
        items = list->m;
    }
    for (auto const& [name, spec] : items) {
        std::vector<Node> specs = spec.kind == Node::seq ? spec.q : std::vector<Node> {spec};
        for (Node const& sp : specs) {
            Node const* when = sp.kind == Node::map ? sp.get("when") : nullptr;
            if (when && ev(when->s) == 0) continue;
            std::string base;
            std::vector<std::size_t> dims;
            bool ro = false;
            char* mem = memory(name, write, base, dims, ro);
            if (mem == nullptr) continue; // PDI skips data which is not available, with a warning
            std::string const dname = sp.kind == Node::map && sp.get("dataset") ? str(sp.get("dataset")->s) : name;
            Sel const ms = selection(sp.kind == Node::map ? sp.get("memory_selection") : nullptr, dims, name);
            std::size_t const es = esize(base);
            if (alloc_bytes) {
                std::size_t const have = alloc_bytes(mem);
                if (have != 0 && prod(dims) * es > have) {
                    perr("'" + name + "' is declared with " + std::to_string(prod(dims) * es) + " bytes, its memory has " + std::to_string(have));
                }
            }
            std::vector<std::size_t> fdims;
            std::string fbase = base;
            Node const* dd = dsets ? dsets->get(dname) : nullptr;
            if (write) {
                if (dd) {
                    type_of(*dd, fbase, fdims);
                } else if (!dims.empty()) {
                    fdims = ms.size;
                }
            }
            auto const body_create = [&] {
                if (write && f->dsets.find(dname) == f->dsets.end()) {
                    Dataset n;
                    n.type = fbase;
                    n.dims = fdims;
                    n.bytes.assign(n.count() * n.esize(), 0);
                    n.writes.assign(n.count(), 0);
                    f->dsets.emplace(dname, n);
                }
            };
            if (comm) {
                kmpi::collective(comm, ("dataset " + path + ":" + dname).c_str(), body_create);
            } else {
                kmpi::visible_op("dataset");
                body_create();
            }
            auto it = f->dsets.find(dname);
            if (it == f->dsets.end()) perr("dataset '" + dname + "' does not exist in '" + path + "'");
            Dataset& ds = it->second;
            if (ds.type != fbase && !(ds.type != "char" && base != "char")) perr("incompatible types for dataset '" + dname + "'");
            if (ds.type != base) perr("conversion between types for dataset '" + dname + "' is not supported by the stand-in");
            Node const* dsel = sp.kind == Node::map ? sp.get("dataset_selection") : nullptr;
            Sel const fsel = selection(dsel, ds.dims, dname);
            auto const mo = offsets(ms, dims), fo = offsets(fsel, ds.dims);
            if (mo.size() != fo.size()) {
                perr("'" + name + "': the memory selection has " + std::to_string(mo.size()) + " elements, the selection of dataset '" + dname + "' " + std::to_string(fo.size()));
            }
            for (std::size_t k = 0; k < mo.size(); ++k) {
                if (write) {
                    std::memcpy(ds.bytes.data() + fo[k] * es, mem + mo[k] * es, es);
                    ++ds.writes[fo[k]];
                } else {
                    std::memcpy(mem + mo[k] * es, ds.bytes.data() + fo[k] * es, es);
                }
            }
        }
    }
}

void run_event(std::string const& event)
{
    if (pdi_hook.on_event) pdi_hook.on_event(event);
    Node const* pl = st().conf->get("plugins");
    Node const* h = pl ? pl->get("decl_hdf5") : nullptr;
    if (h == nullptr) return;
    std::vector<Node> files = h->kind == Node::seq ? h->q : std::vector<Node> {*h};
    for (Node const& f : files) {
        if (!event_matches(f.get("on_event"), event)) continue;
        if (Node const* w = f.get("when"); w && ev(w->s) == 0) continue;
        std::string const path = norm(str(f.get("file")->s));
        MPI_Comm comm = nullptr;
        if (Node const* c = f.get("communicator")) {
            std::string n = c->s;
            n.erase(std::remove_if(n.begin(), n.end(), [](char x) { return x == '$' || x == '{' || x == '}'; }), n.end());
            auto it = st().meta.find(n);
            if (it == st().meta.end() || it->second.type != "MPI_Comm") perr("'" + n + "' is not a communicator");
            std::memcpy(&comm, it->second.bytes.data(), sizeof comm);
        }
        bool const write = f.get("write") != nullptr && f.get("write")->kind != Node::null;
        Node const* pol = f.get("collision_policy");
        std::string const policy = pol ? pol->s : "write_into_and_warn";
        bool skip = false;
        auto const open = [&] {
            auto it = fs->files.find(path);
            if (write) {
                if (it != fs->files.end()) {
                    if (it->second.writers > 0 || it->second.readers > 0) perr("file '" + path + "' is opened for writing while it is open elsewhere");
                    if (policy == "replace" || policy == "replace_and_warn") {
                        fs->files.erase(it);
                        it = fs->files.end();
                    } else if (policy == "skip" || policy == "skip_and_warn") {
                        skip = true;
                        return;
                    } else if (policy == "error") {
                        perr("file '" + path + "' exists");
                    } else if (policy != "write_into" && policy != "write_into_and_warn") {
                        perr("unknown collision policy '" + policy + "'");
                    }
                }
                if (it == fs->files.end()) {
                    File n;
                    n.serial = fs->next_serial++;
                    it = fs->files.emplace(path, n).first;
                    fs->log.push_back(path);
                }
                ++it->second.writers;
            } else {
                if (it == fs->files.end()) perr("file '" + path + "' does not exist");
                if (it->second.writers > 0) perr("file '" + path + "' is read while it is open for writing");
                ++it->second.readers;
            }
        };
        auto const close = [&] {
            auto it = fs->files.find(path);
            if (it != fs->files.end() && !skip) --(write ? it->second.writers : it->second.readers);
        };
        if (comm) {
            kmpi::collective(comm, ((write ? "write file " : "read file ") + path).c_str(), open);
        } else {
            kmpi::visible_op("file open");
            open();
        }
        if (!skip) {
            transfer(f, path, &fs->files.at(path), write, comm);
        }
        if (comm) {
            kmpi::collective(comm, ("close file " + path).c_str(), close);
        } else {
            kmpi::visible_op("file close");
            close();
        }
    }
}

void do_share(std::string const& name, void const* data, int access)
{
    bool is_meta = false;
    Node const* d = decl(name, is_meta);
    kshim::library_access(data, 0, "PDI");
    st().shared[name].push_back({const_cast<void*>(data), access});
    if (d && is_meta && data && (access & PDI_OUT)) {
        Meta m;
        type_of(*d, m.type, m.dims);
        m.bytes.assign(static_cast<char const*>(data), static_cast<char const*>(data) + prod(m.dims) * esize(m.type));
        st().meta[name] = m;
    }
}
void do_reclaim(std::string const& name)
{
    auto& v = st().shared[name];
    if (v.empty()) perr("reclaim of '" + name + "' which is not shared");
    Shared const s = v.back();
    v.pop_back();
    if (v.empty()) st().shared.erase(name);
    bool is_meta = false;
    Node const* d = decl(name, is_meta);
    if (d && is_meta && s.p) {
        Meta m;
        type_of(*d, m.type, m.dims);
        m.bytes.assign(static_cast<char const*>(s.p), static_cast<char const*>(s.p) + prod(m.dims) * esize(m.type));
        st().meta[name] = m;
    }
}
} // namespace

void pdi_reset()
{
    g_states.clear();
    g_trees.clear();
}

} // namespace kio

using namespace kio;

extern "C" {
PC_tree_t PC_parse_string(char const* s)
{
    last_conf = s;
    if (kshim::ctx->life) ++kshim::ctx->life->trees;
    kshim::life_event("PC_parse");
    g_trees.push_back(std::make_shared<Node>(parse_yaml(s)));
    return PC_tree_t {0, static_cast<int>(g_trees.size()) - 1};
}
PC_tree_t PC_parse_path(char const* p)
{
    std::ifstream f(p);
    if (!f) throw std::runtime_error("PDI: cannot read '" + std::string(p) + "'");
    std::stringstream ss;
    ss << f.rdbuf();
    return PC_parse_string(ss.str().c_str());
}
int PC_tree_destroy(PC_tree_t* t)
{
    if (t->status) kshim::life_error("a configuration is destroyed twice");
    if (kshim::ctx->life && kshim::ctx->life->trees) --kshim::ctx->life->trees;
    kshim::life_event("PC_tree_destroy");
    t->status = 1;
    return 0;
}

PDI_status_t PDI_init(PC_tree_t conf)
{
    void*& u = kmpi::user_slot(0);
    if (u != nullptr) perr("PDI_init called twice");
    if (conf.status) kshim::life_error("PDI is given a destroyed configuration");
    kshim::life_event("PDI_init");
    if (kshim::ctx->life) kshim::ctx->life->pdi = true;
    g_states.push_back(std::make_unique<State>());
    g_states.back()->conf = g_trees.at(conf.id);
    u = g_states.back().get();
    return 0;
}
PDI_status_t PDI_finalize(void)
{
    void*& u = kmpi::user_slot(0);
    if (u == nullptr) perr("PDI_finalize without PDI_init");
    for (auto const& [n, v] : st().shared)
        if (!v.empty()) perr("'" + n + "' is still shared at PDI_finalize");
    u = nullptr;
    kshim::life_event("PDI_finalize");
    if (kshim::ctx->life) kshim::ctx->life->pdi = false;
    return 0;
}
PDI_status_t PDI_multi_expose(char const* event, char const* name, void const* data, PDI_inout_t access, ...)
{
    std::vector<std::string> names;
    va_list ap;
    va_start(ap, access);
    std::vector<std::tuple<std::string, void const*, int>> todo {{name, data, access}};
    for (;;) {
        char const* const n = va_arg(ap, char const*);
        if (n == nullptr) break;
        void const* const d = va_arg(ap, void const*);
        int const a = va_arg(ap, int);
        todo.emplace_back(n, d, a);
    }
    va_end(ap);
    try {
        for (auto const& [n, d, a] : todo) {
            do_share(n, d, a);
            names.push_back(n);
        }
        run_event(event);
    } catch (...) {
        if (kmpi::user_slot(0)) st().shared.clear();
        throw;
    }
    std::reverse(names.begin(), names.end());
    for (auto const& n : names) do_reclaim(n);
    return 0;
}
PDI_status_t PDI_share(char const* name, void const* data, PDI_inout_t access)
{
    do_share(name, data, access);
    return 0;
}
PDI_status_t PDI_reclaim(char const* name)
{
    do_reclaim(name);
    return 0;
}
PDI_status_t PDI_expose(char const* name, void const* data, PDI_inout_t access)
{
    do_share(name, data, access);
    run_event("");
    do_reclaim(name);
    return 0;
}
PDI_status_t PDI_event(char const* event)
{
    run_event(event);
    return 0;
}
}

// ------------------------------------------------------------------ HDF5
namespace {
struct H
{
    std::string kind; // file dset space type attr
    std::string path; // file path
    std::string name;
    std::vector<std::size_t> dims;
    bool scalar = true;
    std::size_t size = 1;
    int cset = 0;
    bool rw = false;
    hid_t parent = -1;
};
std::map<hid_t, H> g_h;

bool failing(char const* fn)
{
    h5.call_log.push_back(fn);
    std::int64_t const k = static_cast<std::int64_t>(h5.calls++);
    return k == h5.fail_at;
}
hid_t add(H h)
{
    hid_t const id = h5.next++;
    h5.open[id] = h.kind;
    g_h[id] = std::move(h);
    return id;
}
H* get(hid_t id, char const* kind, char const* fn)
{
    auto it = h5.open.find(id);
    if (it == h5.open.end() || it->second != kind) {
        h5.errors.push_back(std::string(fn) + " on an invalid " + kind + " identifier");
        return nullptr;
    }
    return &g_h[id];
}
herr_t close_(hid_t id, char const* kind, char const* fn)
{
    auto it = h5.open.find(id);
    if (it == h5.open.end()) {
        h5.errors.push_back(std::string(fn) + " on an identifier that is not open");
        return -1;
    }
    if (it->second != kind) {
        h5.errors.push_back(std::string(fn) + " used to close a " + it->second);
        return -1;
    }
    H const h = g_h[id];
    if (h.kind == "file") {
        auto f = fs->files.find(h.path);
        if (f != fs->files.end()) --(h.rw ? f->second.writers : f->second.readers);
    }
    h5.open.erase(it);
    g_h.erase(id);
    return 0;
}
} // namespace

extern "C" {
hid_t H5Fopen(char const* p, unsigned flags, hid_t)
{
    kmpi::visible_op("H5Fopen");
    if (failing("H5Fopen")) return -1;
    std::string const path = norm(p);
    auto it = fs->files.find(path);
    if (it == fs->files.end()) return -1;
    bool const rw = flags & H5F_ACC_RDWR;
    if (it->second.writers > 0 || (rw && it->second.readers > 0)) return -1;
    ++(rw ? it->second.writers : it->second.readers);
    H h;
    h.kind = "file";
    h.path = path;
    h.rw = rw;
    return add(h);
}
hid_t H5Fcreate(char const* p, unsigned flags, hid_t, hid_t)
{
    kmpi::visible_op("H5Fcreate");
    if (failing("H5Fcreate")) return -1;
    std::string const path = norm(p);
    if (fs->files.count(path) && (flags & H5F_ACC_EXCL)) return -1;
    File n;
    n.serial = fs->next_serial++;
    n.writers = 1;
    fs->files[path] = n;
    fs->log.push_back(path);
    H h;
    h.kind = "file";
    h.path = path;
    h.rw = true;
    return add(h);
}
herr_t H5Fclose(hid_t i)
{
    return close_(i, "file", "H5Fclose");
}
herr_t H5Fflush(hid_t, int)
{
    return 0;
}
hid_t H5Dopen2(hid_t f, char const* name, hid_t)
{
    if (failing("H5Dopen")) return -1;
    H* h = get(f, "file", "H5Dopen");
    if (!h) return -1;
    std::string n = name;
    while (!n.empty() && n[0] == '/') n = n.substr(1);
    auto& file = fs->files[h->path];
    auto it = file.dsets.find(n);
    if (it == file.dsets.end()) return -1;
    H d;
    d.kind = "dset";
    d.path = h->path;
    d.name = n;
    d.dims = it->second.dims;
    d.scalar = d.dims.empty();
    return add(d);
}
herr_t H5Dclose(hid_t i)
{
    return close_(i, "dset", "H5Dclose");
}
hid_t H5Dget_space(hid_t d)
{
    if (failing("H5Dget_space")) return -1;
    H* h = get(d, "dset", "H5Dget_space");
    if (!h) return -1;
    H s;
    s.kind = "space";
    s.dims = h->dims;
    s.scalar = h->scalar;
    return add(s);
}
hid_t H5Dget_type(hid_t d)
{
    if (failing("H5Dget_type")) return -1;
    if (!get(d, "dset", "H5Dget_type")) return -1;
    H t;
    t.kind = "type";
    return add(t);
}
herr_t H5Dread(hid_t d, hid_t, hid_t, hid_t, hid_t, void* out)
{
    if (failing("H5Dread")) return -1;
    H* h = get(d, "dset", "H5Dread");
    if (!h) return -1;
    auto const& b = fs->files[h->path].dsets[h->name].bytes;
    std::memcpy(out, b.data(), b.size());
    return 0;
}
hid_t H5Screate(H5S_class_t)
{
    if (failing("H5Screate")) return -1;
    H s;
    s.kind = "space";
    return add(s);
}
hid_t H5Screate_simple(int n, hsize_t const* d, hsize_t const*)
{
    if (failing("H5Screate_simple")) return -1;
    H s;
    s.kind = "space";
    s.scalar = false;
    s.dims.assign(d, d + n);
    return add(s);
}
herr_t H5Sclose(hid_t i)
{
    return close_(i, "space", "H5Sclose");
}
int H5Sget_simple_extent_ndims(hid_t s)
{
    if (failing("H5Sget_simple_extent_ndims")) return -1;
    H* h = get(s, "space", "H5Sget_simple_extent_ndims");
    return h ? static_cast<int>(h->dims.size()) : -1;
}
int H5Sget_simple_extent_dims(hid_t s, hsize_t* d, hsize_t* m)
{
    if (failing("H5Sget_simple_extent_dims")) return -1;
    H* h = get(s, "space", "H5Sget_simple_extent_dims");
    if (!h) return -1;
    for (std::size_t i = 0; i < h->dims.size(); ++i) {
        if (d) d[i] = h->dims[i];
        if (m) m[i] = h->dims[i];
    }
    return static_cast<int>(h->dims.size());
}
hssize_t H5Sget_simple_extent_npoints(hid_t s)
{
    if (failing("H5Sget_simple_extent_npoints")) return -1;
    H* h = get(s, "space", "H5Sget_simple_extent_npoints");
    if (!h) return -1;
    hssize_t n = 1;
    for (auto d : h->dims) n *= static_cast<hssize_t>(d);
    return n;
}
hid_t H5Tcopy(hid_t)
{
    if (failing("H5Tcopy")) return -1;
    H t;
    t.kind = "type";
    return add(t);
}
herr_t H5Tset_size(hid_t t, std::size_t n)
{
    if (failing("H5Tset_size")) return -1;
    H* h = get(t, "type", "H5Tset_size");
    if (!h || n == 0) return -1;
    h->size = n;
    return 0;
}
herr_t H5Tset_cset(hid_t t, H5T_cset_t c)
{
    if (failing("H5Tset_cset")) return -1;
    H* h = get(t, "type", "H5Tset_cset");
    if (!h) return -1;
    h->cset = c;
    return 0;
}
herr_t H5Tset_strpad(hid_t t, H5T_str_t)
{
    if (failing("H5Tset_strpad")) return -1;
    return get(t, "type", "H5Tset_strpad") ? 0 : -1;
}
herr_t H5Tclose(hid_t i)
{
    return close_(i, "type", "H5Tclose");
}
hid_t H5Acreate2(hid_t f, char const* name, hid_t type, hid_t space, hid_t, hid_t)
{
    if (failing("H5Acreate")) return -1;
    H* h = get(f, "file", "H5Acreate");
    H* t = get(type, "type", "H5Acreate");
    if (!h || !t || !get(space, "space", "H5Acreate")) return -1;
    if (!h->rw) return -1;
    auto& file = fs->files[h->path];
    if (file.attrs.count(name)) return -1;
    file.attrs[name] = std::string(t->size, '\0');
    H a;
    a.kind = "attr";
    a.path = h->path;
    a.name = name;
    a.size = t->size;
    return add(a);
}
herr_t H5Awrite(hid_t a, hid_t type, void const* buf)
{
    if (failing("H5Awrite")) return -1;
    H* h = get(a, "attr", "H5Awrite");
    H* t = get(type, "type", "H5Awrite");
    if (!h || !t) return -1;
    fs->files[h->path].attrs[h->name] = std::string(static_cast<char const*>(buf), t->size);
    return 0;
}
herr_t H5Aclose(hid_t i)
{
    return close_(i, "attr", "H5Aclose");
}
htri_t H5Aexists(hid_t f, char const* n)
{
    if (failing("H5Aexists")) return -1;
    H* h = get(f, "file", "H5Aexists");
    return h ? fs->files[h->path].attrs.count(n) > 0 : -1;
}
htri_t H5Lexists(hid_t f, char const* n, hid_t)
{
    if (failing("H5Lexists")) return -1;
    H* h = get(f, "file", "H5Lexists");
    std::string s = n;
    while (!s.empty() && s[0] == '/') s = s.substr(1);
    return h ? fs->files[h->path].dsets.count(s) > 0 : -1;
}
}
