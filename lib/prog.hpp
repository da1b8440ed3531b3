// Runs the real program (its main renamed hmain) on simulated processes, in memory files.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>

#include "kio.hpp"
#include "kmpi.hpp"
#include "kshim_runtime.hpp"
#include "vh.hpp"

namespace prog {

struct Opt
{
    std::string ini;
    kmpi::Options mpi;
    kshim::ExecCfg exec;
    std::vector<std::string> args; // after the ini path
    std::function<long long(int rank, long call)> clock; // nanoseconds
    bool keep_files = false; // do not clean the scratch directory first
    bool no_ini = false; // run without any argument
};

struct Out
{
    kmpi::Result mpi;
    std::vector<int> rc; // per rank; -1: did not return
    std::vector<std::string> out, err; // per rank
    std::map<std::string, std::string> files; // real files of the scratch directory (the .xmf)
    std::vector<std::pair<int, std::string>> written; // process and real file opened for writing, in order
    std::vector<std::shared_ptr<kshim::Life>> life; // per rank
    std::size_t descriptors = 0; // of real files, left open
    bool ok() const // every process ended successfully, nothing wrong with the MPI calls
    {
        if (!mpi.clean()) return false;
        for (int r : rc)
            if (r != 0) return false;
        return true;
    }
    std::string summary() const;
};

// kio::fs is used (and left) as it is
Out run(Opt const& o);

// an in-memory file system for the time of a scope
struct ScopedFs
{
    kio::Fs fs;
    kio::Fs* old;
    ScopedFs() : old(kio::fs) { kio::fs = &fs; }
    ~ScopedFs() { kio::fs = old; }
    ScopedFs(ScopedFs const&) = delete;
};

std::size_t descriptors(); // open files of this program
std::map<std::string, std::string> read_files(); // of the scratch directory

} // namespace prog
