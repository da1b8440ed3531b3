// Run-time controls of the model-checking stand-in for Kokkos.
//
// The stand-in keeps every source of nondeterminism of Kokkos under the control of the explorer:
//  * the order in which the iterations of a kernel run (ExecCfg::order),
//  * how a reduction is cut in partial results (ExecCfg::chunks),
//  * when an asynchronously launched kernel really runs (ExecCfg::lazy),
//  * which data every iteration touches and changes (trace), from which the independence of the
//    iterations - hence the equivalence of all interleavings - is decided.
#pragma once

#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace kshim {

enum class Order : int { left = 0, right = 1, left_reversed = 2, right_reversed = 3, interleaved = 4 };

struct ExecCfg
{
    Order order = Order::left;
    int chunks = 1; // number of partial results of a reduction
    bool lazy = false; // launch asynchronously: run as late as the fences allow
};

// the libraries as one process starts, uses and stops them (recorded in whole runs only)
struct Life
{
    std::vector<std::string> events; // "MPI_Init", "Kokkos::initialize", ...
    int kokkos = 0, kokkos_ended = 0;
    std::vector<std::string> errors; // use before the start or after the end
    std::vector<std::string> left; // allocations alive at the end of Kokkos
    std::size_t communicators_left = 0, handles_left = 0; // at the end of MPI
    std::size_t trees = 0; // parsed configurations not destroyed
    bool pdi = false; // started and not finalised
};
void life_event(char const* what);
void life_error(std::string const& what);
void life_begin(); // Kokkos starts
void life_end(); // Kokkos stops
bool life_on(bool ended); // Kokkos is started (ended: was stopped) as far as is known
std::size_t life_allocations(); // alive, of this process

struct AllocInfo
{
    std::shared_ptr<Life> life;
    char* base = nullptr;
    std::size_t bytes = 0;
    std::string label;
    int space = 0; // 0 host, 1 device, 2 shared
    bool managed = true;
};

ExecCfg& cfg();

// A property of the execution itself is broken (out of bounds access, access from the wrong
// space, dependent iterations...). The default handler throws std::logic_error.
[[noreturn]] void fail(std::string const& what);
void soft_fail(std::string const& what); // recorded, execution goes on
extern std::function<void(std::string const&)> on_soft_fail;

// ---- memory spaces
extern bool check_spaces; // report accesses from the wrong side
bool in_kernel();

// allocations of the views
void registered(AllocInfo* a);
void unregistered(AllocInfo const* a);
AllocInfo const* find(void const* p); // the allocation an address belongs to, nullptr if none
std::size_t bytes_at(void const* p); // bytes from an address to the end of its allocation, 0 if unknown
// another library (MPI, PDI) is given a pointer; bytes 0: unknown
void library_access(void const* p, std::size_t bytes, char const* library);
extern std::function<void(AllocInfo const&, std::string const& library)> on_library_access;

// ---- launching
// decides whether a kernel is launched late (default: cfg().lazy)
extern std::function<bool(std::string const& label)> choose_late;
extern std::uint64_t n_launches; // asynchronous launches
void launch(std::string label, std::function<void()> body); // asynchronous
void fence(); // run everything that was launched
std::size_t pending();

struct KernelScope
{
    KernelScope();
    ~KernelScope();
};

// ---- tracing
extern bool tracing;
extern std::uint64_t n_kernels, n_iterations, n_accesses, n_copies;
void trace_access(void* p, std::size_t bytes, AllocInfo const* a);
void trace_begin_kernel(std::string const& label);
void trace_begin_iteration(long id);
void trace_end_iteration();
void trace_end_kernel();

// ---- per context state (one per simulated process)
struct Context
{
    std::vector<std::pair<std::string, std::function<void()>>> queue;
    int kernel_depth = 0;
    bool draining = false;
    std::shared_ptr<Life> life;
};
extern Context* ctx;

} // namespace kshim
