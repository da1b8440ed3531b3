#include "vh.hpp"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <unordered_set>

namespace vh {

namespace {

constexpr int max_workers = 64;
struct Shared
{
    std::atomic<std::uint64_t> next {0};
    std::atomic<int> nviol {0};
    std::atomic<int> stop {0};
    struct W
    {
        char id[4096];
        std::uint64_t cases;
        volatile long started; // seconds, 0: idle
    } w[max_workers];
};
Shared* S = nullptr;
int g_worker = 0;
std::string g_only;
bool g_has_only = false;
std::uint64_t g_claim = 0;
std::string g_case;
std::ofstream g_log;
std::unordered_set<std::uint64_t> g_states;
std::uint64_t g_trans = 0, g_traces = 0, g_cases = 0, g_state_visits = 0;
std::map<std::string, std::uint64_t> g_counters;
std::vector<std::string> g_samples;
std::set<std::string> g_keys;
int g_max_viol = 60;

std::string esc(std::string const& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += static_cast<char>(c);
    }
    return o + "\"";
}

std::string viol_json(std::string const& key, std::string const& id, std::string const& detail)
{
    return "{\"key\":" + esc(key) + ",\"case\":" + esc(id) + ",\"detail\":" + esc(detail.substr(0, 6000)) + "}";
}

void flush_stats(std::string const& base)
{
    std::ofstream o(base + ".stats", std::ios::binary);
    o << g_cases << ' ' << g_trans << ' ' << g_traces << ' ' << g_state_visits << '\n';
    for (auto const& [k, v] : g_counters) o << k << '\t' << v << '\n';
    o.close();
    std::ofstream st(base + ".states", std::ios::binary);
    for (auto h : g_states) st.write(reinterpret_cast<char const*>(&h), 8);
    std::ofstream sa(base + ".samples");
    for (auto const& s : g_samples) sa << esc(s) << '\n';
}

unsigned g_timeout = 120; // seconds of processor time for a case

// the time after which no further case is begun; 0: none
long deadline()
{
    static long const t = [] {
        char const* e = std::getenv("VH_DEADLINE");
        return e ? std::atol(e) : 0L;
    }();
    return t;
}

void case_timer(unsigned s)
{
    itimerval v {};
    v.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &v, nullptr);
    alarm(4 * s); // a case that waits
}

[[noreturn]] void worker_main(int k, std::string const& base, Enumerate const& en)
{
    g_worker = k;
    g_log.open(base + ".viol", std::ios::app);
    std::string const dir = base + ".d";
    mkdir(dir.c_str(), 0777);
    if (chdir(dir.c_str()) != 0) _exit(99);
    Explorer x;
    g_claim = S->next++;
    try {
        en(x);
    } catch (std::exception const& e) {
        g_log << viol_json("harness-exception", g_case, e.what()) << '\n';
    }
    S->w[k].started = 0;
    g_log.flush();
    flush_stats(base);
    _exit(0);
}

} // namespace

bool thorough()
{
    static bool const t = [] {
        char const* e = std::getenv("VH_TIER");
        return e && std::string(e) == "thorough";
    }();
    return t;
}

int worker() { return g_worker; }

void violate(std::string const& key, std::string const& detail)
{
    if (!g_keys.insert(key).second) return;
    g_log << viol_json(key, g_case, detail) << '\n';
    g_log.flush();
    if (++S->nviol >= g_max_viol) S->stop = 1;
}
void state(std::uint64_t h)
{
    ++g_state_visits;
    g_states.insert(h);
}
void transitions(std::uint64_t n) { g_trans += n; }
void trace_validated(std::uint64_t n) { g_traces += n; }
void sample(std::string const& t)
{
    if (g_samples.size() < 3) g_samples.push_back(t);
}
void counter(std::string const& name, std::uint64_t n) { g_counters[name] += n; }

void Explorer::run(std::string const& id, std::function<void()> const& body)
{
    std::uint64_t const i = index++;
    if (g_has_only) {
        if (id != g_only) return;
    } else {
        if (i != g_claim) return;
        if (S->stop) return;
        g_claim = S->next++;
        if (deadline() && time(nullptr) > deadline()) {
            counter("cases left out for lack of time");
            return;
        }
    }
    g_case = id;
    auto& w = S->w[g_worker];
    std::snprintf(w.id, sizeof w.id, "%s", id.c_str());
    w.started = time(nullptr);
    case_timer(g_timeout);
    try {
        body();
    } catch (std::exception const& e) {
        violate("exception: " + id, std::string("unexpected exception: ") + e.what());
    }
    case_timer(0);
    w.started = 0;
    ++w.cases;
    ++g_cases;
    if (g_samples.size() < 2) g_samples.push_back(id);
}

int Dfs::choose(int n)
{
    if (pos_ < path_.size()) {
        if (path_[pos_].second != n) {
            std::fprintf(stderr, "Dfs: divergence while replaying a prefix (%d != %d)\n", path_[pos_].second, n);
            std::abort();
        }
        return path_[pos_++].first;
    }
    path_.emplace_back(0, n);
    ++pos_;
    return 0;
}
bool Dfs::next()
{
    path_.resize(pos_);
    while (!path_.empty()) {
        if (++path_.back().first < path_.back().second) return true;
        path_.pop_back();
    }
    return false;
}
std::string Dfs::str() const
{
    std::string s;
    for (auto const& p : path_) s += (s.empty() ? "" : ",") + std::to_string(p.first);
    return s;
}

std::string num(double v)
{
    char b[40];
    std::snprintf(b, sizeof b, "%.17g", v);
    return b;
}

bool close(double a, double b, double rtol, double atol)
{
    if (a == b) return true;
    if (std::isnan(a) && std::isnan(b)) return true;
    if (!std::isfinite(a) || !std::isfinite(b)) return false;
    return std::fabs(a - b) <= atol + rtol * std::fmax(std::fabs(a), std::fabs(b));
}

int main(int argc, char** argv, Enumerate const& en, unsigned case_timeout_s)
{
    int nworkers = 8;
    std::string base = "vh_out";
    for (int i = 1; i < argc; ++i) {
        std::string const a = argv[i];
        if (a == "--out" && i + 1 < argc) base = argv[++i];
        else if (a == "--workers" && i + 1 < argc) nworkers = std::atoi(argv[++i]);
        else if (a == "--max-violations" && i + 1 < argc) g_max_viol = std::atoi(argv[++i]);
        else if (a == "--only" && i + 1 < argc) {
            g_only = argv[++i];
            g_has_only = true;
            nworkers = 1;
        } else if (a == "--list") {
            // the cases, without running them
            g_has_only = true;
            g_only = std::string("\x01");
        }
    }
    g_timeout = case_timeout_s;
    base = std::filesystem::absolute(base).string();
    S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    new (S) Shared;
    std::cout.flush();
    std::cerr.flush();
    std::map<pid_t, std::pair<int, std::string>> live;
    int serial = 0;
    std::vector<std::string> bases;
    auto spawn = [&](int k) {
        std::string const b = base + "." + std::to_string(serial++);
        bases.push_back(b);
        S->w[k].started = 0;
        pid_t const p = fork();
        if (p == 0) {
            int const fd = open((b + ".err").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0666);
            if (fd >= 0) {
                dup2(fd, 1);
                dup2(fd, 2);
            }
            worker_main(k, b, en);
        }
        live[p] = {k, b};
    };
    for (int k = 0; k < nworkers; ++k) spawn(k);
    std::vector<std::string> viols;
    int crashes = 0, endless = 0;
    bool lost = false;
    while (!live.empty()) {
        int st = 0;
        pid_t const p = waitpid(-1, &st, 0);
        if (p < 0) break;
        auto const it = live.find(p);
        if (it == live.end()) continue;
        auto const [k, b] = it->second;
        live.erase(it);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        std::string why;
        if (WIFSIGNALED(st)) {
            why = WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF ? std::string("does not terminate") : std::string("killed by signal ") + strsignal(WTERMSIG(st));
        } else
            why = "exited with status " + std::to_string(WEXITSTATUS(st));
        std::ifstream ef(b + ".err");
        std::stringstream es;
        es << ef.rdbuf();
        std::string tail = es.str();
        if (tail.size() > 2000) tail = tail.substr(tail.size() - 2000);
        bool const in_case = S->w[k].started != 0;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
            lost = true; // not a verdict on the code: somebody else killed it (memory)
        }
        if (in_case && !lost) {
            std::string const id = S->w[k].id;
            viols.push_back(viol_json("crash: " + id, id, why + "\n" + tail));
            S->nviol++;
        } else
            lost = true;
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF) && ++endless >= 2) S->stop = 1;
        if (++crashes < 24 && !g_has_only && !S->stop) spawn(k);
        else if (crashes >= 24) S->stop = 1;
    }
    // merge
    std::unordered_set<std::uint64_t> states;
    std::uint64_t cases = 0, trans = 0, traces = 0, visits = 0;
    std::map<std::string, std::uint64_t> counters;
    std::vector<std::string> samples;
    for (auto const& b : bases) {
        std::ifstream v(b + ".viol");
        for (std::string l; std::getline(v, l);)
            if (!l.empty()) viols.push_back(l);
        std::ifstream s(b + ".stats");
        std::uint64_t c = 0, t = 0, r = 0, n = 0;
        if (s >> c >> t >> r >> n) {
            cases += c;
            trans += t;
            traces += r;
            visits += n;
            std::string l;
            std::getline(s, l);
            while (std::getline(s, l)) {
                auto const tab = l.find('\t');
                if (tab != std::string::npos) counters[l.substr(0, tab)] += std::strtoull(l.c_str() + tab + 1, nullptr, 10);
            }
        }
        std::ifstream st(b + ".states", std::ios::binary);
        std::uint64_t h;
        while (st.read(reinterpret_cast<char*>(&h), 8)) states.insert(h);
        std::ifstream sa(b + ".samples");
        for (std::string l; std::getline(sa, l) && samples.size() < 6;) samples.push_back(l);
        std::error_code ec;
        std::filesystem::remove_all(b + ".d", ec);
        for (char const* e : {".viol", ".stats", ".states", ".samples", ".err"}) std::filesystem::remove(b + e, ec);
    }
    std::ofstream o(base);
    o << "{\"cases\":" << cases << ",\"states\":" << states.size() << ",\"state_visits\":" << visits << ",\"transitions\":" << trans << ",\"traces\":" << traces
      << ",\"stopped\":" << (S->stop ? "true" : "false") << ",\"lost\":" << (lost ? "true" : "false") << ",\"counters\":{";
    bool first = true;
    for (auto const& [k, v] : counters) {
        o << (first ? "" : ",") << esc(k) << ':' << v;
        first = false;
    }
    o << "},\"samples\":[";
    for (std::size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << samples[i];
    o << "],\"violations\":[";
    for (std::size_t i = 0; i < viols.size(); ++i) o << (i ? "," : "") << viols[i];
    o << "]}\n";
    return 0;
}

} // namespace vh
