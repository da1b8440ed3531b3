// C30: typed lookups against a statement of the notations.
#include <charconv>
#include <cmath>
#include <cstdio>
#include <limits>
#include <optional>
#include <vector>

#include <inih/INIReader.hpp>

#include "vh.hpp"

namespace {

template <class T>
std::string say(T const& v)
{
    return vh::cat(v);
}

struct Outcome
{
    bool threw = false;
    std::string what;
};

template <class F>
auto attempt(F const& f) -> std::pair<std::optional<decltype(f())>, std::string>
{
    try {
        return {f(), ""};
    } catch (std::exception const& e) {
        return {std::nullopt, e.what()};
    }
}

// ---- integers: sign, then decimal digits or 0x and hexadecimal digits; what follows is not part of the number
struct Int
{
    bool valid = false, neg = false, huge = false;
    unsigned __int128 mag = 0;
};
Int denote(std::string const& s)
{
    Int r;
    std::size_t i = 0;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) r.neg = s[i++] == '-';
    auto hexdigit = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; };
    int base = 10;
    if (i + 2 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && hexdigit(s[i + 2]) < 16) {
        base = 16;
        i += 2;
    }
    for (; i < s.size() && hexdigit(s[i]) < base; ++i) {
        r.valid = true;
        if (r.mag >> 100) r.huge = true;
        else r.mag = r.mag * static_cast<unsigned>(base) + static_cast<unsigned>(hexdigit(s[i]));
    }
    return r;
}

template <class T>
void integer(INIReader const& ini, std::string const& key, std::string const& text, char const* type)
{
    T const def = static_cast<T>(77);
    auto const [v, what] = attempt([&] { return ini.GetInteger("s", key, def); });
    Int const d = denote(text);
    std::string const how = vh::cat("<", text, "> as ", type, ": ", v ? say(*v) : "error " + what);
    if (text.empty()) {
        if (!v || *v != def) vh::violate(vh::cat("default of ", type), how);
    } else if (!d.valid) {
        if (v) vh::violate(vh::cat("no ", type), how + ", not a number");
    } else {
        if (d.neg && d.mag != 0 && !std::numeric_limits<T>::is_signed) { // not specified beyond: no other number
            vh::counter("negative for an unsigned type, not judged");
            return;
        }
        auto const lim = static_cast<unsigned __int128>(std::numeric_limits<T>::max()) + (d.neg ? 1 : 0);
        bool const fits = !d.huge && d.mag <= lim;
        if (!fits && v) vh::violate(vh::cat(type, " out of range"), how);
        if (fits && !v) vh::violate(vh::cat(type, " refused"), how);
        if (fits && v && (d.neg ? *v > 0 || static_cast<unsigned __int128>(-static_cast<__int128>(*v)) != d.mag : static_cast<unsigned __int128>(*v) != d.mag)) vh::violate(vh::cat(type, " value"), how);
    }
    vh::state(vh::Hash() << type << std::string(v ? say(*v) : "error"));
}

// ---- reals
template <class T>
std::optional<T> real_of(std::string const& s, bool& extreme)
{
    std::size_t i = 0;
    bool neg = false;
    extreme = false;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
    if (i < s.size() && s[i] == '-') return std::nullopt;
    char const *b = s.data() + i, *e = s.data() + s.size();
    T v = 0;
    std::from_chars_result r {};
    bool hex = e - b >= 2 && b[0] == '0' && (b[1] == 'x' || b[1] == 'X');
    if (hex) {
        r = std::from_chars(b + 2, e, v, std::chars_format::hex);
        if (b + 2 == e || b[2] == '-' || r.ec == std::errc::invalid_argument) hex = false;
    }
    if (!hex) r = std::from_chars(b, e, v);
    if (r.ec == std::errc::invalid_argument) return std::nullopt;
    extreme = r.ec == std::errc::result_out_of_range || (v != 0 && std::fabs(v) < std::numeric_limits<T>::min() * 2);
    return neg ? -v : v;
}

template <class T>
void real(INIReader const& ini, std::string const& key, std::string const& text, char const* type)
{
    T const def = static_cast<T>(7.25);
    auto const [v, what] = attempt([&] { return ini.GetReal("s", key, def); });
    std::string const how = vh::cat("<", text, "> as ", type, ": ", v ? say(*v) : "error " + what);
    bool extreme = false;
    auto const d = real_of<T>(text, extreme);
    if (text.empty()) {
        if (!v || *v != def) vh::violate(vh::cat("default of ", type), how);
    } else if (!d) {
        if (v) vh::violate(vh::cat("no ", type), how);
    } else if (extreme) {
        vh::counter("reals at the edge of the range, value not judged");
    } else if (!v) {
        vh::violate(vh::cat(type, " refused"), how);
    } else if (std::isnan(*d) ? !std::isnan(*v) : (*v != *d || std::signbit(*v) != std::signbit(*d))) {
        vh::violate(vh::cat(type, " value"), how + ", not " + say(*d));
    }
    vh::state(vh::Hash() << type << std::string(v ? say(*v) : "error"));
}

void boolean(INIReader const& ini, std::string const& key, std::string const& text)
{
    std::string low;
    for (char c : text) low += c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c;
    int const want = text.empty() ? 2 : low == "true" || low == "yes" || low == "on" || low == "1" ? 1 : low == "false" || low == "no" || low == "off" || low == "0" ? 0 : 3;
    for (bool def : {false, true}) {
        auto const [v, what] = attempt([&] { return ini.GetBoolean("s", key, def); });
        bool const ok = want == 3 ? !v : v && *v == (want == 2 ? def : want == 1);
        if (!ok) vh::violate(want == 3 ? "no boolean" : "boolean", vh::cat("<", text, "> with default ", def, ": ", v ? (*v ? "true" : "false") : "error " + what));
        vh::state(vh::Hash() << want << static_cast<int>(v.value_or(false)));
    }
}

INIReader parse(std::string const& text)
{
    FILE* f = std::fopen("g.ini", "wb");
    std::fwrite(text.data(), 1, text.size(), f);
    std::fclose(f);
    return INIReader("g.ini");
}

// each text under a key of its own
template <class F>
void batch(std::vector<std::string> const& texts, F const& f)
{
    std::string t = "[s]\n";
    for (std::size_t i = 0; i < texts.size(); ++i) t += "k" + std::to_string(i) + "=" + texts[i] + "\n";
    INIReader const ini = parse(t);
    for (std::size_t i = 0; i < texts.size(); ++i) {
        std::string const key = "k" + std::to_string(i);
        if (ini.Get("s", key, "\x01") != texts[i]) vh::violate("text", vh::cat("<", texts[i], ">: Get returns <", ini.Get("s", key, "\x01"), ">"));
        if (i % 50 == 0 && ini.Get("s", key + "x", "dflt") != "dflt") vh::violate("absent key", key);
        f(ini, key, texts[i]);
        vh::trace_validated();
        vh::transitions(1);
    }
}

std::vector<std::string> words(std::string const& alphabet, int maxlen, char first)
{
    std::vector<std::string> out, level = {std::string(1, first)};
    for (int l = 1; l <= maxlen; ++l) {
        out.insert(out.end(), level.begin(), level.end());
        std::vector<std::string> next;
        if (l < maxlen)
            for (auto const& w : level)
                for (char c : alphabet) next.push_back(w + c);
        level.swap(next);
    }
    std::erase_if(out, [](std::string const& s) { return s.back() == ' '; }); // trimmed by the parser
    return out;
}

void ints(INIReader const& ini, std::string const& k, std::string const& t)
{
    integer<int>(ini, k, t, "int");
    integer<long>(ini, k, t, "long");
    integer<long long>(ini, k, t, "long long");
    integer<unsigned>(ini, k, t, "unsigned");
    integer<unsigned long>(ini, k, t, "unsigned long");
    integer<unsigned long long>(ini, k, t, "unsigned long long");
}
void reals(INIReader const& ini, std::string const& k, std::string const& t)
{
    real<float>(ini, k, t, "float");
    real<double>(ini, k, t, "double");
    real<long double>(ini, k, t, "long double");
}

std::string dec(unsigned __int128 v)
{
    std::string s;
    do s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
    while ((v /= 10) != 0);
    return s;
}
std::string hex(unsigned __int128 v, char const* digits)
{
    std::string s;
    do s.insert(s.begin(), digits[static_cast<int>(v % 16)]);
    while ((v /= 16) != 0);
    return s;
}

} // namespace

int main(int argc, char** argv)
{
    return vh::main(argc, argv, [](vh::Explorer& x) {
        bool const th = vh::thorough();
        // all texts over the characters of the integer notations
        std::string const ia = "0179-+xXaF. ";
        for (char f : std::string("0179-+xXaF."))
            for (char g : ia)
                x.run(vh::cat("integers ", f, g), [=] {
                    auto w = words(ia, th ? 6 : 4, g);
                    for (auto& t : w) t = f + t;
                    if (g == ia[0]) w.emplace_back(1, f);
                    if (f == '0' && g == ia[0]) w.emplace_back("");
                    batch(w, ints);
                });
        // around every limit
        x.run("integer limits", [] {
            std::vector<std::string> w;
            for (int b = 0; b <= 70; ++b)
                for (int d = -3; d <= 3; ++d) {
                    auto const v = static_cast<unsigned __int128>((static_cast<__int128>(1) << b) + d);
                    if (static_cast<__int128>(v) < 0) continue;
                    for (char const* sg : {"", "-", "+"})
                        for (char const* z : {"", "0", "00"}) {
                            w.push_back(sg + std::string(z) + dec(v));
                            w.push_back(sg + std::string("0x") + z + hex(v, "0123456789abcdef"));
                            w.push_back(sg + std::string("0X") + z + hex(v, "0123456789ABCDEF"));
                        }
                }
            for (char const* s : {"100 # comment", "100,200", "1e3", "12.7", "0x", "0xg", "0b11", "1_000", "99999999999999999999999999999999999999999999", "-99999999999999999999999999999999999999999999", "twelve", "1 2", "- 5", "0 x10", "1\t2"}) w.push_back(s);
            batch(w, ints);
        });
        // reals
        std::string const ra = "015.eE-+xp";
        for (char f : std::string("015.-+"))
            for (char g : ra)
                x.run(vh::cat("reals ", f, g), [=] {
                    auto w = words(ra, th ? 6 : 4, g);
                    for (auto& t : w) t = f + t;
                    if (g == ra[0]) w.emplace_back(1, f);
                    batch(w, reals);
                });
        x.run("real notations", [] {
            std::vector<std::string> w = {"", "inf", "-inf", "INF", "+Infinity", "nan", "NaN", "-nan", "infinit", "in", "na", "e5", "1e", "1e+", "1.5e-3 cm", "20,5", "0x1.8p3", "1e400", "-1e400", "1e-400", "1e39", "1e-46", "3.4028234e38", "1.7976931348623157e308", "2.2250738585072014e-308", "4.9e-324", "0.1", "0.30000000000000004", "1d5", "1.5f", "#1", "5/3"};
            for (int e = -330; e <= 330; ++e)
                for (char const* m : {"1", "9.999999999999999", "-1.2345678901234567", "123456789012345678901234567890", "4.35", "2.5"}) w.push_back(m + std::string("e") + std::to_string(e));
            // halfway cases between neighbours
            double v = 1;
            for (int i = 0; i < 200; ++i) {
                char b[80];
                std::snprintf(b, sizeof b, "%.60g", v);
                w.push_back(b);
                std::snprintf(b, sizeof b, "%.60Lg", (static_cast<long double>(v) + std::nextafter(v, 1e300)) / 2);
                w.push_back(b);
                v = std::nextafter(v * 1.37, 1e300);
            }
            batch(w, reals);
        });
        // booleans: all words over the letters that make them, in both cases
        std::string const ba = "tTrReEuUyYsSoOnNfF";
        for (char f : ba)
            x.run(vh::cat("booleans ", f), [=] {
                batch(words(ba, th ? 6 : 4, f), boolean);
            });
        x.run("boolean notations", [=] {
            std::vector<std::string> w = {"", "0", "1", "2", "-1", "00", "01", "10", "true", "yes", "on", "false", "no", "off", "tru", "truee", "true true", "on off", "off # comment", "y", "n", "t", "f", ".true.", "enabled", "1.0", "\xC3\xA9"};
            for (std::string const base : {"true", "false", "yes", "no", "on", "off"})
                for (int m = 0; m < (1 << base.size()); ++m) {
                    std::string s = base;
                    for (std::size_t i = 0; i < s.size(); ++i)
                        if (m >> i & 1) s[i] = static_cast<char>(s[i] - 32);
                    w.push_back(s);
                    for (std::size_t i = 0; i < s.size(); ++i) w.push_back(s.substr(0, i) + s.substr(i + 1)), w.push_back(s.substr(0, i) + "l" + s.substr(i));
                }
            std::erase_if(w, [](std::string const& s) { return !s.empty() && s.back() == ' '; });
            batch(w, boolean);
        });
        // case of sections and names
        x.run("case folding", [] {
            std::vector<std::string> const secs = {"Passive Scalar", "PASSIVE SCALAR", "passive scalar", "pASSIVE sCALAR", "Passive  Scalar", "PassiveScalar", "Z[\\]^_`z{", "z[\\^_`z{"}, names = {"Nx0_glob", "NX0_GLOB", "nx0_glob", "nX0_glob", "Nx0-glob", "Nx1_glob", "Nx0_glo", "\xC3\x89t\xC3\xA9", "\xC3\xA9t\xC3\xA9"};
            auto low = [](std::string s) {
                for (auto& c : s)
                    if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
                return s;
            };
            for (auto const& s : secs)
                for (auto const& n : names) {
                    if (s.find(']') != std::string::npos) continue;
                    INIReader const ini = parse("[" + s + "]\n" + n + " = v1\n[other]\n" + n + "= v2\n");
                    for (auto const& s2 : secs)
                        for (auto const& n2 : names) {
                            std::string const got = ini.Get(s2, n2, "none"), want = low(s) == low(s2) && low(n) == low(n2) ? "v1" : "none";
                            if (got != want) vh::violate("case of names", vh::cat("[", s, "] ", n, " looked up as [", s2, "] ", n2, ": ", got));
                            vh::trace_validated();
                        }
                    if (ini.Get("", n, "none") != "none" || ini.Get("OTHER", n, "none") != "v2") vh::violate("sections are confused", s);
                }
        });
        // repeated keys: all sequences of 4 assignments to 2 keys of 2 sections
        x.run("repetitions", [] {
            std::vector<std::string> const vals = {"", "1", "two"};
            long const top = 12L * 12 * 12 * 12;
            for (long code = 0; code < top; ++code) {
                std::string text;
                std::map<std::string, std::string> want;
                long c = code;
                for (int l = 0; l < 4; ++l) {
                    int const d = static_cast<int>(c % 12);
                    c /= 12;
                    std::string const sec = d % 2 ? "A" : "a b", key = d / 2 % 2 ? "K" : "k2", val = vals[static_cast<std::size_t>(d / 4)];
                    text += "[" + (l % 2 ? sec : sec) + "]\n" + key + " = " + val + "\n";
                    std::string& w = want[sec + "|" + key];
                    if (!w.empty()) w += "\n";
                    w += val;
                }
                INIReader const ini = parse(text);
                for (std::string const sec : {"A", "a b"})
                    for (std::string const key : {"K", "k2"}) {
                        auto const it = want.find(sec + "|" + key);
                        std::string const w = it == want.end() ? "none" : it->second, got = ini.Get(sec, key, "none");
                        if (got != w) vh::violate("repeated keys", vh::cat("<", text, "> [", sec, "] ", key, ": <", got, "> instead of <", w, ">"));
                    }
                vh::trace_validated();
            }
        });
        // continuation lines accumulate as well
        x.run("continuation", [] {
            INIReader const ini = parse("[s]\na = 1\n  2\n\t3 4\nb=\n  x\nc = y\n");
            if (ini.Get("s", "a", "") != "1\n2\n3 4" || ini.Get("s", "b", "") != "x" || ini.Get("s", "c", "") != "y") vh::violate("continuation", ini.Get("s", "a", ""));
        });
        // outcome of the parsing: every line of a file as the wrong one, and pairs
        x.run("first wrong line", [] {
            for (int n = 1; n <= 12; ++n)
                for (int a = 0; a <= n; ++a)
                    for (int b = 0; b <= n; ++b)
                        for (char const* bad : {"[open", "nothing"}) {
                            std::string text;
                            int want = 0;
                            for (int l = 1; l <= n; ++l) {
                                bool const wrong = l == a || l == b;
                                if (wrong && !want) want = l;
                                text += wrong ? std::string(bad) + "\n" : l % 3 == 0 ? "[s" + std::to_string(l) + "]\n" : l % 3 == 1 ? "; c\n" : "k=" + std::to_string(l) + "\n";
                            }
                            std::string msg;
                            bool threw = false;
                            try {
                                parse(text);
                            } catch (std::exception const& e) {
                                threw = true;
                                msg = e.what();
                            }
                            std::string digits;
                            for (char ch : msg)
                                if (ch >= '0' && ch <= '9') digits += ch;
                            if (threw != (want != 0) || (want && digits != std::to_string(want))) vh::violate("first wrong line", vh::cat("<", text, "> first wrong line ", want, ", reported: ", threw ? msg : "success"));
                            vh::trace_validated();
                        }
            for (char const* p : {"", "no such file.ini", "no/such/dir.ini"}) {
                bool threw = false;
                try {
                    INIReader const r {std::string(p)};
                } catch (std::exception const&) {
                    threw = true;
                }
                if (!threw) vh::violate("missing file accepted", p);
            }
            INIReader const none;
            if (none.Get("s", "k", "d") != "d" || none.GetInteger("s", "k", 4) != 4 || none.GetReal("s", "k", 0.5) != 0.5 || !none.GetBoolean("s", "k", true)) vh::violate("empty reader", "");
        });
    }, 300);
}
