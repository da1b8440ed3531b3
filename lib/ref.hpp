// Reference: the documented scheme on the whole domain, by one process, written independently of /repo.
#pragma once
#include <array>
#include <functional>
#include <string>
#include <vector>

#include "sim.hpp"

namespace ref {

// ---- equations of state
struct Eos
{
    bool rad = false;
    double gamma = 5. / 3, mu = 1;
    double gas_constant() const; // kb / (mu mp)
    double temp_from_pres(double rho, double P) const;
    double temp_from_evol(double rho, double e) const;
    double evol_from_temp(double rho, double T) const;
    double pres_from_temp(double rho, double T) const;
    double evol(double rho, double P) const;
    double pres(double rho, double e) const;
    double sound(double rho, double P) const;
};
double arad();
constexpr double kb = 1.380649e-23, mp = 1.672649e-27, G = 6.6743015e-11;

using V3 = std::array<double, 3>;
struct Prim
{
    double rho = 0;
    V3 u {0, 0, 0};
    double P = 0;
};
struct Cons
{
    double rho = 0;
    V3 m {0, 0, 0};
    double E = 0;
};
Cons cons(Prim const& p, Eos const& e);
Prim prim(Cons const& c, Eos const& e);
Cons flux(Prim const& p, int dir, Eos const& e);
Cons riemann(std::string const& solver, Cons const& L, Cons const& R, int dir, Eos const& e);
double limited_slope(std::string const& limiter, double dr, double dl);

// ---- metric: areas of the lower face in direction d, volume
double area(int ndim, bool spherical, int d, V3 const& lo, V3 const& hi); // at the lower face
double volume(int ndim, bool spherical, V3 const& lo, V3 const& hi);

// everything the run depends on, with the documented defaults
struct Params
{
    int ndim = 1;
    bool spherical = false;
    Eos eos;
    std::string gravity = "Uniform";
    V3 g {0, 0, 0};
    double M = 0;
    std::array<int, 3> n {1, 1, 1}, ng {0, 0, 0};
    int nfx = 0;
    V3 xmin {0, 0, 0}, xmax {1, 1, 1};
    std::array<std::vector<double>, 3> faces;
    std::string limiter = "VanLeer", solver = "HLL", user_step = "Off", pressure_fix = "Off";
    double eps_pf = 1e-6;
    std::array<std::string, 6> bc;
    std::vector<int> bc_order; // application order
    double t_ini = 0, t_end = 0.2, cfl = 0.4;
    int max_iter = 10000, iter_frequency = 0;
    double time_frequency = 0, time_first = 0;
    double rmax_shift = 1e20;
    std::string directory = ".", prefix = "result";
};
// dimension of the reference instead of that of the configuration, when not zero
extern int force_ndim;
Params params(sim::Spec const& s);

struct Sim
{
    Params p;
    sim::Spec const* spec;
    std::array<int, 3> N {}; // with ghosts
    std::array<std::vector<double>, 3> x; // faces
    std::vector<Cons> c;
    std::vector<Prim> w;
    std::vector<std::vector<double>> fx;
    std::vector<double> grav; // along dir 0, per i
    double t = 0;
    int iter = 0, output_id = -1, iter_output_id = -1, time_output_id = -1;
    std::vector<sim::Snap> snaps;
    double initial_mass = 0, final_mass = 0;
    long shift_calls = 0;
    // what the boundaries and the criterion of a shipped problem do (instead of those of the specification)
    std::function<Prim(int d, int f, V3 centre)> boundary_state;
    std::function<bool(Sim const&)> criterion;
    bool shifting = true;
    std::string error; // invalid energy...

    explicit Sim(sim::Spec const& s);
    void run();
    // pieces
    std::size_t at(int i, int j, int k) const { return (static_cast<std::size_t>(k) * N[1] + j) * N[0] + i; }
    std::size_t at(std::array<int, 3> a) const { return at(a[0], a[1], a[2]); }
    void boundaries();
    void gravity();
    void primitives();
    double inverse_dt() const;
    double min_internal_energy() const;
    double mass() const;
    void step(double dt);
    void shift();
    void output();
    double A(int d, std::array<int, 3> a) const;
    double V(std::array<int, 3> a) const;
    double acc(int d, std::array<int, 3> a) const;
    template <class F>
    void interior(F const& f) const
    {
        for (int k = p.ng[2]; k < p.ng[2] + p.n[2]; ++k)
            for (int j = p.ng[1]; j < p.ng[1] + p.n[1]; ++j)
                for (int i = p.ng[0]; i < p.ng[0] + p.n[0]; ++i) f(std::array<int, 3> {i, j, k});
    }
};

// runs the reference and the program on the same specification; "" when they agree
struct Conform
{
    sim::Res res;
    Sim model;
    std::string diff;
};
Conform conform(sim::Spec const& s, double rtol = 1e-10);

} // namespace ref
