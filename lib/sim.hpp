// A simulation: input file + initial state, run with the real program; snapshots read back.
#pragma once
#include <array>
#include <functional>
#include <map>
#include <string>
#include <vector>

#include "prog.hpp"

#include <kokkos_shortcut.hpp>
namespace hclpp {
class Grid;
class Range;
} // namespace hclpp

namespace sim {
using hclpp_KV3 = hclpp::KV_double_3d;
using hclpp_KV4 = hclpp::KV_double_4d;
using hclpp_KVc3 = hclpp::KV_cdouble_3d;
using hclpp_KVc4 = hclpp::KV_cdouble_4d;


int ndim(); // of the configuration under test
bool spherical();
bool radgas();
std::string gravity(); // Uniform, Point_mass, Internal_mass

struct Ini
{
    std::vector<std::pair<std::string, std::vector<std::pair<std::string, std::string>>>> sec;
    Ini& set(std::string const& section, std::string const& key, std::string const& value);
    Ini& set(std::string const& section, std::string const& key, double value);
    Ini& set(std::string const& section, std::string const& key, int value);
    Ini& unset(std::string const& section, std::string const& key);
    std::string text() const;
};

struct Cell
{
    double rho = 1;
    std::array<double, 3> u {0, 0, 0};
    double P = 1;
    std::vector<double> fx;
};
using Init = std::function<Cell(int i, int j, int k)>; // global interior indices

struct Spec
{
    std::array<int, 3> n {4, 1, 1};
    int ng = 2;
    int nfx = 0;
    Ini ini; // anything else
    Init init;
    bool poison = true; // ghost cells start as NaN
    std::array<std::vector<double>, 3> faces; // user grid, ghost faces included (empty: regular)
    // user boundary: called on border processes only
    std::function<void(int idim, int iface)> on_boundary;
    // state a user boundary gives to all the ghost cells of the face (empty: leaves them as they are)
    std::function<Cell(int idim, int iface)> user_value;
    std::function<void(double t, double dt)> on_user_step; // rank 0 .. n-1, each call
    bool user_step = false;
    // energy added by the user step to a cell (global interior index), when user_step is on
    std::function<double(int i, int j, int k, double rho, double t, double dt)> user_heat;
    // raw arrays of the running process, at the user step and when the shift criterion is asked
    std::function<void(hclpp::Range const&, hclpp_KV3 const&, hclpp_KV3 const&, hclpp_KV4 const&)> on_fields;
    std::function<void(hclpp::Range const&, hclpp::Grid const&, hclpp_KVc3 const&, hclpp_KVc4 const&, hclpp_KVc3 const&, hclpp_KVc4 const&)> on_stage;
    std::function<bool(long iter_index)> shift; // number of the call on this process -> shift?
    bool own_shift_grid = false; // the parameter file, not the harness, says whether the grid is shifted
    kmpi::Options mpi;
    kshim::ExecCfg exec;
    std::function<long long(int, long)> clock;
    std::vector<std::string> args;
    bool keep_files = false;
    bool no_ini = false; // the first of args stands for the input file
    std::string text() const; // complete input file
};

struct Snap
{
    std::string path;
    std::array<int, 3> n {0, 0, 0};
    int iter = -1, output_id = -1, iter_output_id = -9, time_output_id = -9;
    double t = 0, gamma = 0;
    std::vector<double> rho, P, E, T;
    std::array<std::vector<double>, 3> u, x, x_ng;
    std::vector<std::vector<double>> fx;
    std::size_t at(int i, int j, int k) const { return (static_cast<std::size_t>(k) * n[1] + j) * n[0] + i; }
    std::uint64_t hash() const;
};

// throws std::runtime_error when the snapshot lacks something
Snap read(kio::File const& f, std::string const& path, int nfx);
std::vector<Snap> read_all(kio::Fs const& fs, int nfx); // in order of the path

struct Res
{
    prog::Out out;
    std::vector<Snap> snaps;
    std::string problem; // "" if everything went well
    bool ok() const { return problem.empty(); }
    Snap const& last() const { return snaps.back(); }
};
// runs on kio::fs
Res run(Spec const& s);
// runs on a file system of its own
Res run_alone(Spec const& s);

// "" if the same up to rtol (relative to the largest value of each field), else a description
std::string diff(Snap const& a, Snap const& b, double rtol, bool counters = true);
std::string diff(std::vector<Snap> const& a, std::vector<Snap> const& b, double rtol, bool counters = true);

} // namespace sim
