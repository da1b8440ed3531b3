#include "kshim_runtime.hpp"

#include <cstring>
#include <algorithm>
#include <map>
#include <stdexcept>
#include <unordered_map>

namespace kshim {

namespace {
Context g_main_ctx;
}
Context* ctx = &g_main_ctx;

ExecCfg& cfg()
{
    static ExecCfg c;
    return c;
}

std::function<void(std::string const&)> on_soft_fail;
bool check_spaces = true;
bool tracing = false;
std::uint64_t n_kernels = 0, n_iterations = 0, n_accesses = 0, n_copies = 0;

void fail(std::string const& what)
{
    throw std::logic_error("kshim: " + what);
}

void soft_fail(std::string const& what)
{
    if (on_soft_fail) {
        on_soft_fail(what);
    } else {
        fail(what);
    }
}

namespace {
std::map<char const*, AllocInfo const*>& registry()
{
    static auto* const m = new std::map<char const*, AllocInfo const*>;
    return *m;
}
} // namespace
std::function<void(AllocInfo const&, std::string const&)> on_library_access;

void life_event(char const* what)
{
    if (ctx->life) ctx->life->events.push_back(what);
}
void life_error(std::string const& what)
{
    if (ctx->life) ctx->life->errors.push_back(what);
}
void life_begin()
{
    life_event("Kokkos::initialize");
    if (!ctx->life) return;
    if (ctx->life->kokkos) life_error("Kokkos is initialised twice");
    ++ctx->life->kokkos;
}
void life_end()
{
    life_event("Kokkos::finalize");
    if (!ctx->life) return;
    Life& l = *ctx->life;
    if (!l.kokkos || l.kokkos_ended) life_error("Kokkos is finalised while it is not initialised");
    ++l.kokkos_ended;
    for (auto const& [p, a] : registry())
        if (a->life == ctx->life) l.left.push_back(a->label);
}
bool life_on(bool ended)
{
    if (!ctx->life) return !ended;
    return ended ? ctx->life->kokkos_ended > 0 : ctx->life->kokkos > ctx->life->kokkos_ended;
}
std::size_t life_allocations()
{
    std::size_t n = 0;
    for (auto const& [p, a] : registry()) n += ctx->life && a->life == ctx->life;
    return n;
}

void registered(AllocInfo* a)
{
    a->life = ctx->life;
    if (ctx->life && !life_on(false)) life_error("allocation of '" + a->label + "' outside of the life of Kokkos");
    registry()[a->base] = a;
}
void unregistered(AllocInfo const* a)
{
    if (a->life && a->life->kokkos_ended) a->life->errors.push_back("'" + a->label + "' is freed after the end of Kokkos");
    registry().erase(a->base);
}
AllocInfo const* find(void const* p)
{
    auto const* const c = static_cast<char const*>(p);
    auto i = registry().upper_bound(c);
    if (i == registry().begin()) {
        return nullptr;
    }
    --i;
    return c < i->first + std::max<std::size_t>(i->second->bytes, 1) ? i->second : nullptr;
}
std::size_t bytes_at(void const* p)
{
    AllocInfo const* const a = find(p);
    return a ? a->bytes - static_cast<std::size_t>(static_cast<char const*>(p) - a->base) : 0;
}
void library_access(void const* p, std::size_t bytes, char const* library)
{
    AllocInfo const* const a = p ? find(p) : nullptr;
    if (a == nullptr) {
        return;
    }
    if (bytes > bytes_at(p)) {
        fail(std::string(library) + " is given " + std::to_string(bytes) + " bytes of the array '" + a->label + "', which has " + std::to_string(bytes_at(p)));
    }
    if (on_library_access) {
        on_library_access(*a, library);
    }
}

bool in_kernel()
{
    return ctx->kernel_depth > 0;
}

KernelScope::KernelScope()
{
    ++ctx->kernel_depth;
}
KernelScope::~KernelScope()
{
    --ctx->kernel_depth;
}

std::function<bool(std::string const&)> choose_late;
std::uint64_t n_launches = 0;

void launch(std::string label, std::function<void()> body)
{
    if (in_kernel()) {
        fail("kernel '" + label + "' launched from inside a kernel");
    }
    if (ctx->life && !life_on(false)) life_error("kernel '" + label + "' launched outside of the life of Kokkos");
    bool const late = choose_late ? choose_late(label) || !ctx->queue.empty() : cfg().lazy;
    ++n_launches;
    if (late) {
        ctx->queue.emplace_back(std::move(label), std::move(body));
    } else {
        body();
    }
}

void fence()
{
    if (ctx->draining) {
        return;
    }
    ctx->draining = true;
    try {
        for (std::size_t i = 0; i < ctx->queue.size(); ++i) {
            ctx->queue[i].second();
        }
    } catch (...) {
        ctx->queue.clear();
        ctx->draining = false;
        throw;
    }
    ctx->queue.clear();
    ctx->draining = false;
}

std::size_t pending()
{
    return ctx->queue.size();
}

// ------------------------------------------------------------------ tracing
namespace {
struct Cell
{
    long first_toucher = -1; // -1: nobody
    bool several = false;
    long writer = -1;
};
std::unordered_map<void*, Cell> g_cells;
struct Touch
{
    void* p;
    std::size_t bytes;
    unsigned char before[16];
    AllocInfo const* a;
};
std::unordered_map<void*, std::size_t> g_touch_index;
std::vector<Touch> g_touches;
long g_iter = -1;
bool g_active = false;
std::string g_label;
} // namespace

void trace_begin_kernel(std::string const& label)
{
    g_cells.clear();
    g_touches.clear();
    g_touch_index.clear();
    g_label = label;
    g_active = true;
    ++n_kernels;
}

void trace_begin_iteration(long id)
{
    g_iter = id;
    g_touches.clear();
    g_touch_index.clear();
    ++n_iterations;
}

void trace_access(void* p, std::size_t bytes, AllocInfo const* a)
{
    if (!g_active || bytes > 16) {
        return;
    }
    ++n_accesses;
    if (g_touch_index.emplace(p, g_touches.size()).second) {
        Touch t {p, bytes, {}, a};
        std::memcpy(t.before, p, bytes);
        g_touches.push_back(t);
    }
}

void trace_end_iteration()
{
    for (auto const& t : g_touches) {
        bool const changed = std::memcmp(t.before, t.p, t.bytes) != 0;
        Cell& c = g_cells[t.p];
        bool const other_toucher = c.several || (c.first_toucher != -1 && c.first_toucher != g_iter);
        bool const other_writer = c.writer != -1 && c.writer != g_iter;
        if ((changed && other_toucher) || other_writer) {
            std::string const lab = t.a ? t.a->label : std::string("?");
            g_active = false;
            soft_fail(
                    "iterations of kernel '" + g_label + "' are not independent: iteration " + std::to_string(g_iter) + (changed ? " changes" : " reads")
                    + " an element of '" + lab + "' (byte " + std::to_string(t.a ? static_cast<char*>(t.p) - t.a->base : 0) + ") that iteration "
                    + std::to_string(other_writer ? c.writer : c.first_toucher) + (other_writer ? " changes" : " uses"));
            return;
        }
        if (c.first_toucher == -1) {
            c.first_toucher = g_iter;
        } else if (c.first_toucher != g_iter) {
            c.several = true;
        }
        if (changed) {
            c.writer = g_iter;
        }
    }
}

void trace_end_kernel()
{
    g_active = false;
}

} // namespace kshim
