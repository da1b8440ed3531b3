"""What each check builds and explores."""
from build import Config as C

COMMON_ASSUMPTIONS = []
ENV = [
    "Kokkos, MPI, PDI/paraconf and HDF5 are replaced by the stand-ins of /verif/shim, written from their documented behaviour; the program itself is compiled unmodified from /repo",
    "processes are simulated by fibers of one thread; communication is reliable and ordered per pair, as MPI guarantees",
    "g++ -O1, IEEE double precision without contraction",
]

SPECS = {}


def spec(pid, what, units, **kw):
    SPECS[pid] = dict(what=what, units=units, **kw)


spec("C33", "int_cast for all 100 ordered pairs of 8..64-bit integer types: every value of the 8 and 16-bit types, all corner patterns and windows around all limits of the wider ones (thorough: every representable 32-bit value), compared with 128-bit arithmetic",
     [dict(files=["checks/c33_int_cast.cpp"], configs=[C(1)], program=False)])

PROG = ["lib/sim.cpp", "lib/ref.cpp"]


def prog(cpp, configs, thorough=(), **kw):
    return dict(files=["checks/" + cpp] + PROG, configs=list(configs), thorough_configs=list(thorough), program=True, **kw)


ALL3 = [C(1), C(2), C(3)]
spec("C21", "the real time loop (main) against an independent whole-domain reference of the MUSCL-Hancock scheme: all initial states of a 4-cell (1D, 4 states), 6-cell (2D, 2 states), 8-cell (3D, 2 states) domain for all solvers x limiters x boundary kinds, every snapshot of 3 steps compared; longer runs on larger and stretched grids",
     [prog("c21_scheme.cpp", [C(1), C(2, "Spherical", grav="Point_mass"), C(1, "Spherical", "Gas+Radiation", "Internal_mass"), C(3), C(3, "Spherical", grav="Internal_mass"), C(2, "Spherical", "Gas+Radiation", "Uniform")],
           [C(1, eos="Gas+Radiation"), C(2)])],
     assumptions=ENV)

spec("C01", "real runs of every decomposition (all factorisations of 1..8 processes, and those chosen by MPI, three placements of the ranks) of small 1D/2D/3D domains, for all boundary kinds, ghost widths, moving grids, scalars, repair: snapshots compared with those of one process",
     [prog("c01_decomposition.cpp", [C(1), C(2), C(3, "Spherical", grav="Internal_mass")], [C(1, "Spherical", "Gas+Radiation", "Point_mass"), C(2, "Spherical", grav="Internal_mass"), C(3)])],
     assumptions=ENV)

spec("C20", "energy repair, radioactive heating and user-defined step in real runs: all initial states over 5 states straddling the thresholds (1D) or 2-3 (2D, 3D) for 3 thresholds and 2 solvers, compared with a run without repair (bit for bit outside of the repaired cells) and with the reference; heating from 4 epochs, all compositions; user step observed on 1..4 processes",
     [prog("c20_sources.cpp", [C(1), C(2), C(3, "Spherical", grav="Point_mass"), C(1, eos="Gas+Radiation")], [C(2, "Spherical"), C(3)])],
     assumptions=ENV)

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
spec("C29", "the INI parser under 10 sets of compile-time options: all texts over 10 significant characters up to 7 (default options; others 6; thorough one more), all sequences of up to 4 odd tokens (byte-order marks, NUL, CR, runs around the limits of names, sections and lines), all triples of 30 typical lines, every call of the consumer refused in turn, through string, stream, FILE and path, with address and undefined-behaviour sanitizers; compared with an independent statement of the grammar",
     [dict(files=["checks/c29_ini.cpp"] + ["checks/ini/v%d.c" % i for i in range(10)], configs=[C(1)], program=False, san=SAN)])

spec("C30", "typed lookups of real files: all texts up to 5 (thorough 7) over 12 characters of the integer notations for six integer types, over 10 characters of the real notations for three real types, all words up to 4 (5) over the letters of the boolean notations, all limits, spellings, sequences of repeated keys and positions of wrong lines; oracles: 128-bit evaluation of the digits, from_chars, the documented table",
     [dict(files=["checks/c30_getters.cpp"], configs=[C(1)], program=False, san=SAN)])

spec("C31", "the 45 parameters read from real files: each alone with three values and spellings, in every other section, all pairs of two parameters and values, all but one, all (thorough: all triples), compared with a table of sections, names, types and defaults; printed configuration of real runs for all combinations of seven printed parameters on 1 and 2 processes",
     [prog("c31_params.cpp", [C(1), C(1, "Spherical", "Gas+Radiation", "Point_mass")])], assumptions=ENV)

spec("C32", "real runs on 1 and 2 processes: every documented name of seven options against the reference of that scheme; every one-edit neighbour (thorough: two-edit), case variant, truncation and name of another option refused on all processes before the first step",
     [prog("c32_names.cpp", [C(1), C(2, "Spherical", grav="Point_mass")])], assumptions=ENV)

V1 = [C(1, setup="v1d"), C(2, "Spherical", grav="Point_mass", setup="v1d"), C(3, "Spherical", setup="v1d")]
spec("C26", "extent check for all pairs of dataset and array extents (rank 0..4 x 1..4, sides 1..3) with every HDF5 call failing in turn; life of the owning handle in all ways its type allows; runs of the v1d problem with every other rank and length of each profile; every HDF5 call of a start and of a restart failing in turn on 1 and 2 processes: no handle left open, closed twice or used after closing",
     [prog("c26_handles.cpp", V1[:2])], assumptions=ENV, level="fault_enumeration")
spec("C27", "the broadcast functions on all blocks up to 9x4x4 with 1..3 ghosts and 0..3 components; runs of the v1d problem on all decompositions up to 8 processes, two placements, uneven splits: every cell of the initial snapshot against the profile",
     [prog("c27_profile.cpp", V1)], assumptions=ENV)

spec("C22", "real runs with a constant CFL step for all combinations of start, duration, iteration and time intervals, first output, iteration limit, wall-clock exit and start time (-1e3 to 3e7 time units), on 1, 2 and 4 processes: every snapshot (number, name, iteration, time), every step and the end against the documented schedule",
     [prog("c22_schedule.cpp", [C(1), C(2)])], assumptions=ENV)

spec("C23", "every stop and restart of real runs: from every snapshot, on every other number of processes, and every second stop, for plain, periodic, scalar, timed, user-grid, shifting, repaired, user-boundary and heated runs: later snapshots compared with the uninterrupted run; restarts with a later end time; snapshots aged to late times and large counters; every damaged or unsuitable file refused",
     [prog("c23_restart.cpp", [C(1), C(2, "Spherical", grav="Point_mass"), C(3, "Spherical", grav="Internal_mass"), C(1, "Spherical", "Gas+Radiation", "Internal_mass")], [C(2), C(3)])], assumptions=ENV)

spec("C24", "snapshots of real runs on all decompositions of up to 8 processes (explicit and chosen by MPI), three placements, 0 to 10 scalars, 2 to 4 ghosts, all directories and prefixes of a list, numbers up to 2e9, files of another run in the way: list of datasets, extents, writes per element, every element of the initial state, mutual consistency of the later ones",
     [prog("c24_content.cpp", [C(1), C(2, "Spherical", grav="Point_mass"), C(3), C(1, "Spherical", "Gas+Radiation", "Internal_mass")], [C(2), C(3, "Spherical", grav="Internal_mass")])], assumptions=ENV)
spec("C25", "the index read back and parsed after every step of real runs for all combinations of sizes, scalars, ghosts, iteration and time intervals, start times, restarts, directories, prefixes, left-over index files, on 1 and 2 processes; one list of 530 snapshots: compared with the snapshots written so far",
     [prog("c25_xdmf.cpp", [C(1), C(2), C(3, "Spherical", grav="Point_mass")])], assumptions=ENV)

spec("C36", "real runs on 1 to 4 processes: every list of up to 3 (4) arguments out of 14 (two configurations, an empty one, one that is missing, near misses of the option); seven first arguments; generated configurations for all subsets of the fields, with other names, layouts of the velocity and whole local arrays per process, against the snapshots of the built-in configuration, byte for byte; a copy of the built-in one; the shipped one of the convergence test; restarts from every snapshot under a configuration of the user",
     [prog("c36_io_config.cpp", [C(1), C(2, "Spherical", grav="Point_mass"), C(3)], [C(2), C(3, "Spherical", grav="Internal_mass")])], assumptions=ENV)

spec("C37", "the standard output of real runs on 1 to 4 processes, two placements, for all combinations of output interval, iteration limit, start time, shifts of the grid, duration of the steps and restart (also of restarted runs), and all sequences of shifts: every reported output, restart, shift and total against the snapshots and the steps made",
     [prog("c37_report.cpp", [C(1), C(2, "Spherical", grav="Point_mass")], [C(3), C(2, "Spherical", grav="Internal_mass")])], assumptions=ENV)

spec("C28", "an invalid state of seven to nine kinds in every cell (and in two cells) of the initial state, and of two kinds in every cell after every one of three steps, on 1 to 4 processes and two placements, with and without regular outputs: message, exit of all processes, last snapshot, no further step; extreme valid states over 30 orders of magnitude never stopped",
     [prog("c28_invalid.cpp", [C(1), C(2, "Spherical", grav="Point_mass"), C(3), C(1, "Spherical", "Gas+Radiation", "Point_mass")], [C(2)])], assumptions=ENV)

spec("C04", "real runs (15 normal and 25 failing scenarios, invalid states in every layer after every step, all combinations of the calls from which each process sees its time spent) on 1..4 processes: all priority orders of the processes with buffered and unbuffered sends, and every scheduling that deviates up to 1..3 times from the default one at an MPI call: same status everywhere, same files, no deadlock, no lost message, same collective operations",
     [prog("c04_schedules.cpp", [C(1), C(2, "Spherical", grav="Point_mass"), C(3, "Spherical", grav="Internal_mass")], [C(2), C(3)])], assumptions=ENV)


spec("C02", "ghost cells of every process after the boundary stage of a real step (seen through the user shift criterion, interior marked with distinct values, ghosts with NaN): all decompositions of up to 6..8 (thorough 18) processes that leave blocks as large as the ghost layers, sizes, 2..4 layers, all combinations of periodic directions, 3 placements, 0..3 scalars: each ghost that stands for a cell of the domain against that cell, bit for bit",
     [prog("c02_exchange.cpp", [C(1), C(2, "Spherical", grav="Point_mass"), C(3)], [C(2), C(3, "Spherical", grav="Internal_mass")])], assumptions=ENV)
spec("C09", "ghost cells after the boundary stage of a real step for all combinations of the four kinds on all faces (16 in 1D, 256 in 2D, 4096 in 3D) and several shapes, numbers of layers and processes, edges and corners included: every ghost of every field against the stated rule, bit for bit; calls of user boundaries",
     [prog("c09_fill.cpp", [C(1), C(2), C(3)], [C(1, "Spherical", "Gas+Radiation", "Internal_mass"), C(2, "Spherical", grav="Point_mass")])], assumptions=ENV)


spec("C10", "real steps observed through the user shift criterion: every combination of absent, empty, documented and unknown names at the three levels of the hierarchy for each direction; every priority list (2, 24, 720) with all (3D: dealt out) assignments of kinds to faces, in both spellings, edges and corners against the stated rule; every list of up to one token more than there are faces: accepted if and only if each face is named once",
     [prog("c10_priority.cpp", [C(1), C(2), C(3)], [C(2, "Spherical", grav="Point_mass")])], assumptions=ENV)
spec("C03", "the grid object on 1..16 (24) simulated processes: all cell counts 1..60 (1D), 13x13 (2D), 7x7x7 (3D) x all process grids, explicit, partly and fully left to MPI, 3 placements, 1..3 ghost layers: cover, balance, order, borders, every index range; loops over ranges; blocks of real runs",
     [prog("c03_partition.cpp", [C(1), C(2), C(3)])], assumptions=ENV)


spec("C05", "dual arrays with two memories (kernels run as late as allowed), pinned memory and one memory: every sequence of 4 (5) operations out of 42 (read, read-write, write-only access entirely, partly or not used, through either side of two arrays, read-only views, synchronisation, clearing, every way of copying, moving and converting) against a model of the two sides; contents, staleness, number of copies; extents of all small shapes",
     [dict(files=["checks/c05_dual.cpp"], configs=[C(1), C(1, unified=True)], program=False)])


spec("C12", "limiters on all pairs of a lattice of differences over 60 orders of magnitude (symmetry, oddness, homogeneity, sign, bounds, exactness, named formula); the reconstruction on real grids for all values of an alphabet on the cells of a line (1D) and on the cross of neighbours (2D, 3D) with all patterns of cell widths: symmetry, bounds, flatness at extrema, exactness, extent of the writes",
     [prog("c12_reconstruction.cpp", [C(1), C(2), C(3, "Spherical")])], assumptions=ENV)

spec("C11", "the three solvers and the flux function, in all directions, with both equations of state and two adiabatic indices, on all pairs of states of a lattice of densities, velocities (subsonic, sonic, supersonic, at rest) and pressures: consistency, upwinding, mirror, exchange of directions, tangential frame, units, contacts, and an independent statement of each solver",
     [prog("c11_riemann.cpp", [C(1), C(2), C(3)])], assumptions=ENV)

spec("C13", "both equations of state for all pairs of a lattice of densities (28 decades) and temperatures (1 to 1e10 K; perfect gas 120 decades), six adiabatic indices, four molecular weights: every relation and its inverse, monotony, speed of sound against the derivative along the isentrope; validity and parameters over all pairs of special values; conversion kernels on arrays; initial states of real runs",
     [prog("c13_eos.cpp", [C(1), C(2), C(3, eos="Gas+Radiation")], [C(1, "Spherical", "Gas+Radiation")])], assumptions=ENV)

spec("C07", "the grid of the program on 1..8 (16) processes for all patterns of three cell widths, all process grids, 1..4 ghost layers and several bounds (origin, full angles, large and small scales), and the grids of real runs, regular, user-defined and shifted: every width, centre, area, volume and coordinate, sums and closure relations",
     [prog("c07_metric.cpp", [C(1), C(2), C(3), C(1, "Spherical"), C(2, "Spherical", grav="Point_mass"), C(3, "Spherical", grav="Internal_mass")])], assumptions=ENV)

spec("C14", "every step of real runs with an extreme state of 4..8 kinds in every cell, on all process grids (dealt out), two CFL numbers, stretched grids, three boundary kinds, against the fields of all processes (ghosts included) it starts from and against the reference; the function alone with the extreme state in every cell and ghost cell, every width of the range, both equations of state",
     [prog("c14_cfl.cpp", [C(1), C(2, "Spherical", grav="Point_mass"), C(3, "Spherical", grav="Internal_mass"), C(1, "Spherical", "Gas+Radiation", "Point_mass")], [C(2), C(3)])], assumptions=ENV)
spec("C34", "the sum and the minimum with a marked cell in every place and poisoned ghost cells, on all process grids of up to 8 (12) processes, three placements, four orders of the reductions; masses printed by real runs (also shifted and restarted, with other units of mass) with a heavy cell in every place",
     [prog("c34_integrals.cpp", [C(1), C(2, "Spherical", grav="Point_mass"), C(3)], [C(2), C(3, "Spherical", grav="Internal_mass")])], assumptions=ENV)

spec("C19", "the gravity fields on grids of 1..8 (12) processes: all vectors of five values, point masses for all patterns of widths at every cell and ghost cell, enclosed mass for all density patterns over 2..4 levels of small blocks, placements and reduction orders; real runs: a uniform gas falling for all solvers, limiters, gravity vectors and states, every density pattern against the reference, self-gravitating gas on several processes",
     [prog("c19_gravity.cpp", [C(1), C(2), C(2, "Spherical", grav="Internal_mass"), C(3, "Spherical", grav="Point_mass"), C(3, "Spherical", grav="Internal_mass"), C(1, "Spherical", "Gas+Radiation", "Internal_mass")],
           [C(3), C(1, eos="Gas+Radiation")])], assumptions=ENV)

spec("C08", "real runs of 5..6 (8) steps for all sequences of shift requests and all positions of the limit, regular and stretched grids, kinds of inner and outer boundaries, 2..3 ghost layers, process grids of up to 6 processes in three placements: coordinates and contents of every snapshot bit for bit against the fields the criterion saw, calls of the criterion, and everything against the reference",
     [prog("c08_shift.cpp", [C(1), C(2), C(2, "Spherical", grav="Internal_mass"), C(3, "Spherical", grav="Point_mass")], [C(1, "Spherical", "Gas+Radiation", "Internal_mass"), C(3)])], assumptions=ENV)

S = "Spherical"
SHIPPED = [C(3, setup="rayleigh_taylor3d"), C(3, S, setup="sedov3d"), C(3, S, setup="shock_tube"), C(3, S, "Gas+Radiation", "Point_mass", "v1d"),
           C(2, setup="gresho_vortex"), C(2, setup="implosion_test"), C(2, setup="kelvin_helmholtz"), C(2, setup="rayleigh_taylor"), C(2, setup="sedov2d"),
           C(1, setup="advection_gap"), C(1, setup="advection_sinus"), C(1, S, grav="Point_mass", setup="eq_hydro_sphe"), C(1, setup="heat_nickel"), C(1, setup="sedov1d"), C(1, S, setup="sedov1d"),
           C(1, setup="shock_tube"), C(1, S, setup="shock_tube"), C(1, setup="shock_wall"), C(1, eos="Gas+Radiation", setup="shock_wall"), C(1, setup="stratified_atm"), C(1, S, "Gas+Radiation", "Point_mass", "v1d")]
spec("C35", "every shipped problem with its shipped input file (20 pairs, and one of them in spherical coordinates), at its own size when affordable and at 2..5 smaller ones, 2..4 ghost layers, all process grids of up to 6..8 processes in three placements: initial state of every cell against the description of the problem, first 2..4 steps valid and the same as on one process",
     [prog("c35_shipped.cpp", SHIPPED, [C(2, S, setup="sedov2d")])],
     assumptions=ENV + ["the profile of the v1d problem is a stand-in (its HDF5 file cannot be read here)", "std::random_device returns a fixed sequence"])

spec("C15", "real runs on periodic and walled domains: all combinations of kinds of borders, solvers, limiters, uniform and user-defined grids, all initial states of small blocks (1D 3^5, 2D 2^8, 3D dealt out), decompositions of up to 8 processes dealt out, 4 (8) steps; 20 (60) steps on larger blocks; spherical domains from the origin, from axis to axis, full circle: mass, energy, momentum and scalar mass of every snapshot",
     [prog("c15_conservation.cpp", [C(1), C(2), C(3), C(1, "Spherical"), C(2, "Spherical"), C(3, "Spherical"), C(1, eos="Gas+Radiation")], [C(1, "Spherical", "Gas+Radiation")])], assumptions=ENV)

spec("C16", "real runs of 6 (12) steps: uniform states for all vectors of five velocities, solvers, limiters, kinds of borders, grids and domains (spherical ones from the origin, from axis to axis, around); every density pattern of small blocks at equal pressure at rest or carried along; decompositions of up to 8 processes dealt out",
     [prog("c16_equilibria.cpp", [C(1), C(2), C(3), C(1, "Spherical"), C(2, "Spherical"), C(3, "Spherical"), C(1, eos="Gas+Radiation")], [C(2, "Spherical", "Gas+Radiation"), C(3, eos="Gas+Radiation")])], assumptions=ENV)

spec("C17", "pairs of real runs for every initial state of small blocks (1D 3^5, 2D and 3D dealt out), solvers and limiters, over 60 combinations of borders, priorities, user-defined grids, gravity and repair, on 1..4 processes: mirror images, exchanges and rotations of directions, shifts of periodic states, four other systems of units; states that vary along fewer directions against the reference in as many dimensions",
     [prog("c17_symmetry.cpp", [C(1), C(2), C(3), C(2, "Spherical", grav="Point_mass"), C(3, "Spherical", grav="Point_mass")], [C(1, eos="Gas+Radiation"), C(3, eos="Gas+Radiation")])], assumptions=ENV)

spec("C18", "real runs of 5 steps with 8 scalars (0 or 1, uniform, absent, patterns, combinations, copies), without scalars and with 1..3 of them, for all solvers, limiters, 12 combinations of borders, gravity and repair, 8..32 (64) gas states, decompositions of up to 8 processes dealt out: gas and single scalars bit for bit, bounds, uniform scalars, combinations",
     [prog("c18_scalars.cpp", [C(1), C(2), C(3), C(2, "Spherical", grav="Point_mass"), C(3, "Spherical", grav="Point_mass")], [C(1, "Spherical", "Gas+Radiation", "Point_mass")])], assumptions=ENV)

spec("C06", "real runs of 3 steps on 1 and 2 (4) processes, 10 variants (boundaries, repair, shifts, heating, scalars, device-aware MPI, restart) and all shipped problems: all pairs of iterations of every kernel (does one change what another uses?), 5 iteration orders x 4 splits of the reductions x launches as early and as late as allowed, every single kernel launched late in turn; bounds and memory side of every access, of every message and of every exposed array",
     [prog("c06_kernels.cpp", [C(1), C(2), C(3, S, grav="Internal_mass"), C(2, S, grav="Point_mass"), C(1, unified=True), C(2, unified=True)], [C(3), C(1, S, "Gas+Radiation", "Internal_mass"), C(2, S, grav="Internal_mass"), C(3, unified=True)]),
      prog("c06_shipped.cpp", SHIPPED)],
     assumptions=ENV + ["iterations whose writes leave the value unchanged are taken as not writing"])

TECHNIQUE = "stateless explicit-state model checking: exhaustive enumeration of bounded inputs, configurations and schedules on the compiled code of /repo, every execution judged by an independent reference model or invariant"
NOT_APPLICABLE = {}

spec("C38", "real runs on 1 to 4 processes for all combinations of launch order, outputs, boundaries and kinds (moving grid and its limit, repair, user boundary, user grid, restart), ends by every limit, invalid states after 0 to 6 steps, bad inputs of 20 kinds, every HDF5 call failing in turn: starts and stops of MPI, Kokkos and PDI, live allocations, communicators, handles, open files at the same point of every step and at the end",
     [prog("c38_life.cpp", [C(1), C(2, "Spherical", grav="Point_mass"), C(3)], [C(2), C(3, "Spherical", grav="Internal_mass")])], assumptions=ENV)

spec("C39", "pairs of real runs of the same problem told in two systems of units (28 to 40 others, powers of two: each unit alone from 2^-100 to 2^100, and those of stellar, interstellar and laboratory gas), for all solvers and limiters, 90 combinations of borders, grids, gravity, repair, user heating, moving grid and output schedules dealt out, small blocks of all states and large smooth problems, on 1..4 processes: every output of the two runs compared",
     [prog("c39_units.cpp", [C(1), C(2), C(3, "Spherical", grav="Internal_mass"), C(2, "Spherical", grav="Point_mass")], [C(3), C(1, "Spherical", "Gas+Radiation", "Point_mass"), C(2, eos="Gas+Radiation")])], assumptions=ENV)

UNDEFINED = [C(3, setup="rayleigh_taylor3d"), C(3, S, setup="sedov3d"), C(1, S, "Gas+Radiation", "Point_mass", "v1d"), C(2, setup="gresho_vortex"), C(2, setup="implosion_test"),
             C(1, setup="shock_tube"), C(1, setup="stratified_atm"), C(1, S, grav="Point_mass", setup="eq_hydro_sphe")]
spec("C40", "every optional part (user-defined boundary of each face, grid, step, criterion of the moving grid) that a shipped problem does not define, asked for in its shipped input file, on all process grids of up to 4 (8) processes in three placements, with and without outputs: the run without the request goes on, the run with it ends with an error on every process",
     [prog("c40_undefined.cpp", UNDEFINED, [c for c in SHIPPED if c not in UNDEFINED])], assumptions=ENV)
