#include "prog.hpp"

#include <chrono>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include <streambuf>

int hmain(int argc, char** argv);

namespace {
std::function<long long(int, long)> g_clock;
long g_clock_calls[64];
long long g_default = 0;

// one buffer per simulated process
struct RankBuf : std::streambuf
{
    std::vector<std::string> txt;
    std::string& cur()
    {
        std::size_t const r = kmpi::inside() ? static_cast<std::size_t>(kmpi::world_rank()) : 0;
        if (txt.size() <= r) txt.resize(r + 1);
        return txt[r];
    }
    int overflow(int c) override
    {
        if (c != EOF) cur() += static_cast<char>(c);
        return c;
    }
    std::streamsize xsputn(char const* s, std::streamsize n) override
    {
        cur().append(s, static_cast<std::size_t>(n));
        return n;
    }
};
} // namespace

namespace std::chrono::inline _V2 {
steady_clock::time_point steady_clock::now() noexcept
{
    int const r = kmpi::inside() ? kmpi::world_rank() : 0;
    long const c = g_clock_calls[r & 63]++;
    long long ns = g_clock ? g_clock(r, c) : (g_default += 1000000);
    return time_point(duration(ns));
}
} // namespace std::chrono::inline _V2

// who opens which file for writing
static std::vector<std::pair<int, std::string>>* g_written = nullptr;
static FILE* open_real(char const* which, char const* path, char const* mode)
{
    using Fn = FILE* (*)(char const*, char const*);
    if (g_written && kmpi::inside() && std::strpbrk(mode, "wa+")) g_written->emplace_back(kmpi::world_rank(), std::filesystem::path(path).lexically_normal().string());
    return reinterpret_cast<Fn>(dlsym(RTLD_NEXT, which))(path, mode);
}
extern "C" FILE* fopen(char const* path, char const* mode) { return open_real("fopen", path, mode); }
extern "C" FILE* fopen64(char const* path, char const* mode) { return open_real("fopen64", path, mode); }

namespace prog {

std::string Out::summary() const
{
    std::string s = mpi.summary();
    for (std::size_t i = 0; i < rc.size(); ++i)
        if (rc[i] != 0) {
            std::string e = err.size() > i ? err[i] : "";
            if (e.size() > 400) e.resize(400);
            s += " [rank " + std::to_string(i) + " rc " + std::to_string(rc[i]) + ": " + e + "]";
        }
    return s;
}

static bool scratch_ok()
{
    // only ever clean the private directory of the worker
    return std::filesystem::current_path().string().ends_with(".d");
}

std::size_t descriptors()
{
    std::size_t n = 0;
    if (DIR* const d = opendir("/proc/self/fd")) {
        while (readdir(d) != nullptr) ++n;
        closedir(d);
    }
    return n;
}

std::map<std::string, std::string> read_files()
{
    std::map<std::string, std::string> m;
    for (auto const& e : std::filesystem::recursive_directory_iterator(".")) {
        if (!e.is_regular_file()) continue;
        std::ifstream f(e.path());
        std::stringstream s;
        s << f.rdbuf();
        m[e.path().lexically_normal().string()] = s.str();
    }
    return m;
}

Out run(Opt const& o)
{
    if (!o.keep_files && scratch_ok()) {
        for (auto const& e : std::filesystem::directory_iterator("."))
            if (e.is_regular_file()) std::filesystem::remove(e.path());
    }
    {
        std::ofstream f("run.ini");
        f << o.ini;
    }
    Out out;
    for (int q = 0; q < o.mpi.nranks; ++q) out.life.push_back(std::make_shared<kshim::Life>());
    std::size_t const before = descriptors();
    out.rc.assign(static_cast<std::size_t>(o.mpi.nranks), -1);
    kio::pdi_reset();
    g_clock = o.clock;
    for (auto& c : g_clock_calls) c = 0;
    g_default = 0;
    RankBuf ob, eb;
    auto* const oc = std::cout.rdbuf(&ob);
    auto* const oe = std::cerr.rdbuf(&eb);
    auto const fl = std::cout.flags();
    auto const fill = std::cout.fill();
    auto const prec = std::cout.precision();
    g_written = &out.written;
    kshim::ExecCfg const saved = kshim::cfg();
    kshim::cfg() = o.exec;
    struct Restore
    {
        std::streambuf *c, *e;
        kshim::ExecCfg x;
        ~Restore()
        {
            std::cout.rdbuf(c);
            std::cerr.rdbuf(e);
            kshim::cfg() = x;
            g_clock = nullptr;
            g_written = nullptr;
        }
    } restore {oc, oe, saved};
    out.mpi = kmpi::run(o.mpi, [&](int rank) {
        kshim::ctx->life = out.life[static_cast<std::size_t>(rank)];
        std::vector<std::string> a {"heracles++"};
        if (!o.no_ini) a.emplace_back("run.ini");
        a.insert(a.end(), o.args.begin(), o.args.end());
        std::vector<char*> argv;
        for (auto& s : a) argv.push_back(s.data());
        argv.push_back(nullptr);
        int const rc = hmain(static_cast<int>(a.size()), argv.data());
        kshim::fence();
        out.rc[static_cast<std::size_t>(rank)] = rc;
    });
    std::size_t const after = descriptors();
    out.descriptors = after > before ? after - before : 0;
    std::cout.flags(fl);
    std::cout.fill(fill);
    std::cout.precision(prec);
    std::cout.clear();
    std::cerr.clear();
    ob.txt.resize(static_cast<std::size_t>(o.mpi.nranks));
    eb.txt.resize(static_cast<std::size_t>(o.mpi.nranks));
    out.out = ob.txt;
    out.err = eb.txt;
    out.files = read_files();
    out.files.erase("run.ini");
    kio::pdi_reset();
    return out;
}

} // namespace prog
