// Explorer's side of the MPI stand-in.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

#include "mpi.h"

namespace kmpi {

struct Options
{
    int nranks = 1;
    bool rendezvous = true; // a send completes only when it is received
    bool explore = false; // every MPI call is a scheduling point decided by `choose`
    int preemptions = 1 << 30; // bound on switches away from a runnable process (explore only)
    std::vector<int> priority; // scheduling order without exploration (default 0,1,2...)
    int reduce_order = 0; // 0 ascending, 1 descending, 2 pairwise tree, 3 from the middle
    std::vector<int> cart_perm; // rank permutation of a reordering MPI_Cart_create
    std::function<int(int)> choose; // picks in [0,n)
    std::uint64_t max_ops = 50'000'000;
};

struct Result
{
    bool deadlock = false;
    std::string error; // misuse of MPI, deadlock description (empty: none)
    std::vector<std::string> exceptions; // per rank: what() of the escaped exception, "" if none
    std::vector<bool> finished; // per rank: returned normally
    std::vector<std::string> leaks; // communicators not freed, messages not received
    std::uint64_t ops = 0, switches = 0, messages = 0, choice_points = 0;
    bool clean() const
    {
        if (deadlock || !error.empty()) return false;
        for (auto const& e : exceptions)
            if (!e.empty()) return false;
        for (bool f : finished)
            if (!f) return false;
        return true;
    }
    std::string summary() const
    {
        std::string s = error;
        for (std::size_t i = 0; i < exceptions.size(); ++i)
            if (!exceptions[i].empty()) s += " [rank " + std::to_string(i) + " threw: " + exceptions[i] + "]";
        return s;
    }
};

Result run(Options const& o, std::function<void(int)> const& body);

int world_rank(); // of the running process, 0 outside of run()
int world_size();
bool inside(); // running inside run()
// a scheduling point for anything that is visible to the other processes (shared files)
void visible_op(char const* what);
// collective operation of another library on communicator c: all the processes enter, `body`
// runs once, all leave
void collective(MPI_Comm c, char const* what, std::function<void()> const& body);
// per process storage for other stand-ins
void*& user_slot(int i);
std::size_t communicators(); // created by this process and not freed

extern bool g_trace_on;
extern std::vector<std::string> g_trace;

} // namespace kmpi
