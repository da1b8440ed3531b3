// C29: the INI parser against an independent statement of the grammar, under ten sets of compile-time options.
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <vector>

#include "vh.hpp"

namespace {

struct Ev
{
    std::string s, n, v;
    int line;
    bool operator==(Ev const&) const = default;
};
struct Out
{
    std::vector<Ev> ev;
    int ret = 0;
    bool operator==(Out const&) const = default;
};
struct Opt
{
    char const* name;
    bool multi = true, inl = true, bom = true, stop = false, lineno = false;
    std::size_t max = 200;
    char const* prefixes = ";";
};
Opt const opts[] = {{"default"}, {"no multiline", false}, {"no inline comment", true, false}, {"stop on first error", true, true, true, true}, {"line numbers", true, true, true, false, true},
                    {"lines of 8", true, true, true, false, false, 8}, {"no bom", true, true, false}, {"heap"}, {"; and # inline", true, true, true, false, false, 200, ";#"}, {"lines of 3, single, stop", false, false, true, true, false, 3}};

bool blank(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
std::string trim_end(std::string s)
{
    while (!s.empty() && blank(s.back())) s.pop_back();
    return s;
}
std::string trim(std::string s)
{
    s = trim_end(std::move(s));
    std::size_t i = 0;
    while (i < s.size() && blank(s[i])) ++i;
    return s.substr(i);
}

// position of the inline comment at or after `from` (the blank before it not before `from`), or npos
std::size_t comment(std::string const& s, std::size_t from, Opt const& o)
{
    if (o.inl)
        for (std::size_t i = from + 1; i < s.size(); ++i)
            if (blank(s[i - 1]) && std::strchr(o.prefixes, s[i])) return i;
    return std::string::npos;
}

// fail: number of the call refused by the consumer (0: none)
void model(std::string const& text, Opt const& o, int fail, Out& out)
{
    out.ev.clear();
    out.ret = 0;
    std::string section, key;
    int line = 0;
    auto refuse = [&] {
        if (out.ret == 0) out.ret = line;
    };
    auto give = [&](std::string const& n, std::string const& v) {
        out.ev.push_back({section, n, v, o.lineno ? line : 0});
        if (static_cast<int>(out.ev.size()) == fail) refuse();
    };
    for (std::size_t at = 0; at < text.size();) {
        // physical line, or as much of it as the limit allows
        std::size_t len = 0;
        while (at + len < text.size() && len < o.max - 1) {
            ++len;
            if (text[at + len - 1] == '\n') break;
        }
        std::string l = text.substr(at, len);
        at += len;
        ++line;
        l = l.substr(0, l.find('\0'));
        if (line == 1 && o.bom && l.rfind("\xEF\xBB\xBF", 0) == 0) l.erase(0, 3);
        bool const indented = !l.empty() && blank(l[0]);
        l = trim(l);
        if (l.empty() || l[0] == ';' || l[0] == '#') {
            // nothing
        } else if (o.multi && indented && !key.empty()) {
            give(key, l);
        } else if (l[0] == '[') {
            std::size_t const c = comment(l, 1, o), e = l.find(']', 1);
            if (e == std::string::npos || e > c) refuse();
            else {
                section = l.substr(1, e - 1).substr(0, 49);
                key.clear();
            }
        } else {
            std::size_t const c = comment(l, 0, o), e = l.find_first_of("=:");
            if (e == std::string::npos || e > c) refuse();
            else {
                std::string v = l.substr(e + 1);
                v = v.substr(0, comment(v, 0, o));
                std::string const n = trim_end(l.substr(0, e));
                key = n.substr(0, 49);
                give(n, trim(v));
            }
        }
        if (o.stop && out.ret) break;
    }
}

// ---- the code under test
Out* got = nullptr;
int fail_at = 0;
int on_pair(void*, char const* s, char const* n, char const* v)
{
    got->ev.push_back({s, n, v, 0});
    return static_cast<int>(got->ev.size()) != fail_at;
}
int on_pair_l(void*, char const* s, char const* n, char const* v, int line)
{
    got->ev.push_back({s, n, v, line});
    return static_cast<int>(got->ev.size()) != fail_at;
}
using Reader = char* (*)(char*, int, void*);

} // namespace

#define DECL(k) \
    extern "C" int v##k##_ini_parse_string(char const*, void*, void*); \
    extern "C" int v##k##_ini_parse_file(FILE*, void*, void*); \
    extern "C" int v##k##_ini_parse(char const*, void*, void*); \
    extern "C" int v##k##_ini_parse_stream(Reader, void*, void*, void*);
DECL(0) DECL(1) DECL(2) DECL(3) DECL(4) DECL(5) DECL(6) DECL(7) DECL(8) DECL(9)
#define ROW(k) {v##k##_ini_parse_string, v##k##_ini_parse_file, v##k##_ini_parse, v##k##_ini_parse_stream}

namespace {

struct Fn
{
    int (*string)(char const*, void*, void*);
    int (*file)(FILE*, void*, void*);
    int (*path)(char const*, void*, void*);
    int (*stream)(Reader, void*, void*, void*);
};
Fn const fns[] = {ROW(0), ROW(1), ROW(2), ROW(3), ROW(4), ROW(5), ROW(6), ROW(7), ROW(8), ROW(9)};
int const nopts = 10;

struct Src
{
    char const* p;
    std::size_t n;
};
// a reader like fgets that fills exactly what it may
char* reader(char* buf, int num, void* vp)
{
    auto& s = *static_cast<Src*>(vp);
    if (s.n == 0) return nullptr;
    int k = 0;
    while (k < num - 1 && s.n > 0) {
        char const c = *s.p++;
        --s.n;
        buf[k++] = c;
        if (c == '\n') break;
    }
    buf[k] = 0;
    return buf;
}

std::string show(std::string const& t)
{
    std::string o;
    for (std::size_t i = 0; i < t.size();) {
        std::size_t j = i;
        while (j < t.size() && t[j] == t[i]) ++j;
        char b[40];
        unsigned char const c = static_cast<unsigned char>(t[i]);
        if (c < 32 || c > 126) std::snprintf(b, sizeof b, "\\x%02x", c);
        else std::snprintf(b, sizeof b, "%c", c);
        o += b;
        if (j - i > 3) {
            o += "{" + std::to_string(j - i) + "}";
            i = j;
        } else
            ++i;
    }
    return o;
}
std::string show(Out const& o)
{
    std::string s = "returns " + std::to_string(o.ret);
    for (auto const& e : o.ev) s += " [" + show(e.s) + "|" + show(e.n) + "|" + show(e.v) + (e.line ? "|" + std::to_string(e.line) : "") + "]";
    return s;
}

Out want, have;
void judge(int o, char const* how, std::string const& text, int ret)
{
    have.ret = ret;
    if (have == want) return;
    vh::violate(std::string(opts[o].name) + ", " + how, vh::cat("text <", show(text), ">", fail_at ? ", consumer refuses call " + std::to_string(fail_at) : "", ": ", show(have), "; the grammar says ", show(want)));
}

// which entry points: 1 string, 2 stream, 4 FILE, 8 path
void check(int o, std::string const& text, int ways, int fails)
{
    static std::vector<char*> exact;
    void* const h = opts[o].lineno ? reinterpret_cast<void*>(on_pair_l) : reinterpret_cast<void*>(on_pair);
    for (fail_at = 0; fail_at <= fails; ++fail_at) {
        model(text, opts[o], fail_at, want);
        if (fail_at > 0 && static_cast<int>(want.ev.size()) < fail_at) break;
        got = &have;
        bool const nul = text.find('\0') != std::string::npos;
        if ((ways & 1) && !nul) {
            have.ev.clear();
            if (exact.size() <= text.size()) exact.resize(text.size() + 1);
            char*& p = exact[text.size()];
            if (!p) p = static_cast<char*>(std::malloc(text.size() + 1));
            std::memcpy(p, text.c_str(), text.size() + 1);
            judge(o, "string", text, fns[o].string(p, h, nullptr));
        }
        if (ways & 2) {
            have.ev.clear();
            Src s {text.data(), text.size()};
            judge(o, "stream", text, fns[o].stream(reader, &s, h, nullptr));
        }
        if ((ways & 4) && !text.empty()) {
            have.ev.clear();
            FILE* f = fmemopen(const_cast<char*>(text.data()), text.size(), "r");
            judge(o, "file", text, fns[o].file(f, h, nullptr));
            std::fclose(f);
        }
        if (ways & 8) {
            have.ev.clear();
            FILE* f = std::fopen("t.ini", "wb");
            std::fwrite(text.data(), 1, text.size(), f);
            std::fclose(f);
            judge(o, "path", text, fns[o].path("t.ini", h, nullptr));
        }
        vh::trace_validated();
        vh::transitions(want.ev.size() + 1);
        // shape of the outcome
        vh::Hash hs;
        hs << o << want.ret;
        for (auto const& e : want.ev) hs << static_cast<long>(e.s.size()) << static_cast<long>(e.n.size()) << static_cast<long>(e.v.size());
        vh::state(hs);
    }
}

template <class F>
void texts(std::vector<std::string> const& alphabet, int len, std::string const& prefix, F const& f)
{
    if (len == 0) return f(prefix);
    for (auto const& a : alphabet) texts(alphabet, len - 1, prefix + a, f);
}

int open_fds()
{
    int n = 0;
    for (int i = 0; i < 64; ++i) n += ::lseek(i, 0, SEEK_CUR) != -1;
    return n;
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        bool const th = vh::thorough();
        std::vector<std::string> const core = {"a", " ", "\n", "=", ":", ";", "#", "[", "]", "\t"};
        // all texts over the significant characters
        for (int o = 0; o < nopts; ++o) {
            int const top = (o == 0 ? 7 : 6) + (th ? 1 : 0);
            for (int len = 0; len <= top; ++len) {
                int const pre = std::min(len, 2);
                texts(core, pre, "", [&](std::string const& p) {
                    x.run(vh::cat(opts[o].name, ": ", show(p), " and ", len - pre, " more"), [=] { texts(core, len - pre, p, [=](std::string const& t) { check(o, t, len <= 4 ? 15 : len <= 5 ? 7 : len <= 6 ? 3 : 1, 2); }); });
                });
            }
        }
        // long runs, odd bytes
        std::vector<std::string> odd = {"a", "B", " ", "\n", "=", "[", "]", ";", "\r\n", "\r", "\v", "\f", "\xEF\xBB\xBF", "\xEF\xBB", "\xA0", std::string(1, '\0'), std::string(5, 'x'), std::string(48, 'y'), std::string(49, 'y'), std::string(50, 'z'), std::string(51, ' '), std::string(147, 'x'), std::string(149, '='), std::string(198, 'u'), std::string(199, 'v'), std::string(200, ' '), std::string(401, 'w')};
        for (int o = 0; o < nopts; ++o)
            for (int len = 1; len <= (th ? 4 : o == 0 ? 4 : 3); ++len)
                for (std::size_t f = 0; f < odd.size(); ++f)
                    x.run(vh::cat(opts[o].name, ": odd ", f, " and ", len - 1, " more"), [=] { texts(odd, len - 1, odd[f], [=](std::string const& t) { check(o, t, len <= 2 ? 15 : 7, 2); }); });
        // pairs of lines: everything that can be remembered from one line to the next
        std::vector<std::string> const lines = {"", "a=1", " b = 2 ; c", "\tc", "  ; d", "[s]", "[t] ; e", " [u]", "[v", "w", " y:z=1", "=3", "k=", "k =;v", ";[n]", "#h=1", "g = 1 # i", std::string(60, 'l') + "=1", "[" + std::string(60, 'm') + "]", "q : r ;s", "[]", "[p]=1", "= = =", "o=[1] ;;", "  ", "d\t=\te\t;f", ";", "i = ;j", "long=" + std::string(240, 'j'), " " + std::string(230, ' ') + "n=1"};
        for (int o = 0; o < nopts; ++o)
            for (std::size_t f = 0; f < lines.size(); ++f)
                for (int crlf = 0; crlf < 2; ++crlf)
                    x.run(vh::cat(opts[o].name, ": lines ", f, crlf ? " crlf" : ""), [=] {
                        std::string const nl = crlf ? "\r\n" : "\n";
                        for (auto const& b : lines)
                            for (auto const& c : lines)
                                for (int end = 0; end < 2; ++end) {
                                    check(o, lines[f] + nl + b + nl + c + (end ? nl : ""), 3, 4);
                                    if (f < 4) check(o, "\xEF\xBB\xBF" + lines[f] + nl + b + nl + c, 3, 0);
                                    if (th && !end && !crlf)
                                        for (auto const& d : lines) check(o, lines[f] + nl + b + nl + c + nl + d, 1, 0);
                                }
                    });
        // files that cannot be opened; nothing stays open
        for (int o = 0; o < nopts; ++o)
            x.run(vh::cat(opts[o].name, ": no file"), [=] {
                int const before = open_fds();
                void* const h = opts[o].lineno ? reinterpret_cast<void*>(on_pair_l) : reinterpret_cast<void*>(on_pair);
                got = &have;
                have.ev.clear();
                fail_at = 0;
                for (char const* p : {"", "no such file", "no such directory/t.ini"}) {
                    int const r = fns[o].path(p, h, nullptr);
                    if (r != -1 || !have.ev.empty()) vh::violate("file that cannot be opened", vh::cat("<", p, ">: returns ", r));
                }
                for (char const* t : {"a=1\n[s\nb=2\n", "a", "[", ""}) {
                    FILE* f = std::fopen("t.ini", "wb");
                    std::fputs(t, f);
                    std::fclose(f);
                    fns[o].path("t.ini", h, nullptr);
                }
                if (open_fds() != before) vh::violate("a file stays open", opts[o].name);
                // a file given by the caller stays the caller's
                FILE* f = std::fopen("t.ini", "wb+");
                std::fputs("a=1\nb\n", f);
                std::rewind(f);
                fns[o].file(f, h, nullptr);
                if (::lseek(fileno(f), 0, SEEK_CUR) == -1) vh::violate("the parser closes the caller's file", opts[o].name);
                std::fclose(f);
            });
    }, 300);
}
