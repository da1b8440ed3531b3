#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


RUN = "The repository has no test of a complete run: the unit tests call single functions on one process with one data set."

p("C01", "A run does not depend on how many processes compute it or where they sit",
  "The same input file produces the same fields, coordinates, times and counters in every snapshot (up to rounding of global sums) whatever the number of processes, the shape of the process grid, the placement of the processes in that grid and the order in which the MPI library combines reductions. This holds for runs with gravity, passive scalars, periodic, reflecting and open boundaries, moving grids and energy repair, in one, two and three dimensions.",
  ["configurations", "schedules"], "for every process grid and rank placement of the bounded set, and every reduction order",
  RUN + " Nothing compares two decompositions.",
  ["src/main.cpp", "src/mesh/grid.cpp", "src/boundary_distribute.cpp", "src/hydro/time_step.hpp", "src/moving_grid/moving_grid.cpp", "src/gravity/gravity.cpp", "src/io/config.yaml.cpp"],
  [("Cartesian decomposition", "Grid::init_grid in src/mesh/grid.cpp"), ("halo exchange", "DistributedBoundaryCondition in src/boundary_distribute.cpp"), ("global minimum of the time step", "time_step in src/hydro/time_step.hpp"), ("offsets of the collective output", "src/io/config.yaml.cpp")],
  ["datasets of the HDF5 snapshots"])
p("C02", "Ghost layers hold the neighbours' current values after every exchange",
  "After the boundary stage, every ghost cell that lies inside the global domain, or wraps around a periodic direction, holds the current value of the interior cell it stands for, for every field, in every direction including edges and corners, at any ghost width and for any decomposition that leaves each process at least as many cells as ghost layers. Interior cells are left untouched.",
  ["configurations", "inputs", "schedules"], "for all decompositions, ghost widths, uneven splits and rank placements within the bounds",
  "No test exchanges ghosts between several processes.",
  ["src/boundary_distribute.cpp", "src/boundary_distribute.hpp", "src/mesh/grid.cpp"],
  [("dimension by dimension exchange over full extents", "DistributedBoundaryCondition::ghost_sync in src/boundary_distribute.cpp"), ("neighbour ranks", "Grid::init_grid in src/mesh/grid.cpp")],
  ["conserved fields and scalars after the boundary stage"])
p("C03", "The processes partition the domain exactly, in balanced blocks",
  "For every cell count and process grid, the blocks of the processes cover every cell exactly once, differ by at most one cell per direction, lie where their position in the process grid says, and only the processes at the edge of the domain consider themselves at its border. Every index range derived from a block designates exactly the interior enlarged by the stated number of ghost layers in the active directions.",
  ["configurations", "inputs"], "for all cell counts and process grids within the bounds, all rank placements, all ghost widths",
  "The existing decomposition test covers a handful of shapes in the process it runs in.",
  ["src/mesh/grid.cpp", "src/mesh/grid.hpp", "src/mesh/range.cpp", "src/mesh/range.hpp"],
  [("block sizes and offsets", "Grid::init_grid in src/mesh/grid.cpp"), ("index ranges", "src/mesh/range.cpp"), ("iteration policies", "cell_mdrange in src/mesh/range.hpp")],
  ["public members of the grid"])
p("C04", "Processes never deadlock and all end the same way",
  "Under every scheduling of the processes, with sends that may or may not be buffered, a run ends on all processes with the same status, sends no message that is not received, and enters collective operations in the same order everywhere. This includes the exits by end time, iteration limit and elapsed wall-clock time seen differently by each process, and the failures by a bad input file or an invalid state, after which the communication library has been set up and torn down exactly once.",
  ["schedules", "configurations", "fault_sequences"], "for all schedules up to a preemption bound on small runs, and all priority orders on larger ones, over every kind of ending",
  "Tests run on a single process with whatever schedule the machine gives.",
  ["src/main.cpp", "src/boundary_distribute.cpp", "src/mpi_scope_guard.cpp", "src/hydro/time_step.hpp", "src/analysis/internal_energy.cpp", "src/mesh/grid.cpp"],
  [("broadcast of the wall-time decision", "time loop of src/main.cpp"), ("scope guard", "src/mpi_scope_guard.cpp"), ("combined send-receive", "src/boundary_distribute.cpp")],
  ["exit status and standard streams of each process"])
p("C05", "A dual-memory array always shows the last write, wherever it was made",
  "Whatever sequence of accesses is made through the host and device sides of a dual array and of its copies and read-only views, a read on one side returns the data of the latest write made on either side, a write-only access keeps no promise about old content but nothing else does, and copies are made only when a side is stale. Contents, extents and read-only views agree between the sides.",
  ["histories"], "for all access sequences up to the depth bound, over the original and its aliases",
  "The unit tests play a few fixed sequences, on a build where both sides share memory.",
  ["src/dual_view/dual_view.hpp"],
  [("modified flags shared between aliases", "DualView in src/dual_view/dual_view.hpp"), ("sync on access", "DualView::operator() in src/dual_view/dual_view.hpp")],
  ["values read through either side"],
  state=[("modified flags", "which side holds the latest data", "src/dual_view/dual_view.hpp")])
p("C06", "Parallel kernels give the same answer in any execution order",
  "The iterations of every parallel kernel can run in any order or at the same time, and kernels launched asynchronously can run as late as the synchronisation in the code allows, without changing any snapshot beyond the rounding of sums. No kernel touches memory outside its arrays, host memory from the device or device memory from the host.",
  ["schedules"], "for all pairs of iterations of every kernel of the explored runs (conflict analysis), all iteration orders of the menu, and the latest legal launch times",
  "Tests run serially, in one order, on the host.",
  ["src/hydro", "src/boundary.cpp", "src/boundary_distribute.cpp", "src/mesh/geometry.cpp", "src/gravity/gravity.cpp", "src/moving_grid/moving_grid.cpp", "src/user_step/user_step.cpp", "src/utils/kokkos_shortcut.hpp"],
  [("disjoint writes", "every Kokkos::parallel_for under src/"), ("fences and deep copies", "src/main.cpp, src/boundary_distribute.cpp"), ("host/device sides", "src/dual_view/dual_view.hpp")],
  ["snapshots, memory accesses of the kernels"])
p("C07", "The mesh metric is that of the chosen geometry",
  "For every grid, uniform or user supplied, cell widths, centres, face areas and volumes are those of the geometry: volumes are positive and add up to the volume of the domain, faces shared by two cells have one area, spherical volumes, radial and polar areas are exact, and coordinates seen by a process are the global ones at its offset. A uniform grid spans exactly the requested bounds with equal steps and extends them uniformly in the ghost layers.",
  ["inputs", "configurations"], "for all grids of the bounded set in 1, 2 and 3 dimensions, both geometries, all decompositions",
  "Only the type names of the grid are tested.",
  ["src/mesh/grid.cpp", "src/mesh/grid_type.cpp", "src/mesh/geometry.cpp", "src/mesh/geometry_factory.cpp", "src/mesh/grid_factory.cpp"],
  [("areas and volumes", "Cartesian and Spherical in src/mesh/geometry.cpp"), ("coordinates", "Grid::set_grid in src/mesh/grid.cpp"), ("uniform grid", "Regular in src/mesh/grid_type.cpp")],
  ["coordinates in the snapshots, public arrays of the grid"])
p("C08", "Shifting the grid moves it by one cell and loses nothing inside",
  "When the user's criterion asks for a shift, the first-direction coordinates drop the innermost radius and gain one at the outer end in the documented geometric progression, and every cell that stays keeps its content attached to the same physical position, across process boundaries. A shift happens exactly when asked and while the outermost radius of the grid, ghost layers included, is below the limit; once the limit is reached no further shift happens and the outer boundary becomes an open one.",
  ["histories", "configurations"], "for all sequences of shift requests up to the depth bound, all decompositions and ghost widths in the bounds",
  "No test moves the grid.",
  ["src/moving_grid/moving_grid.cpp", "src/main.cpp", "src/mesh/grid.cpp", "src/shift_criterion_interface.cpp"],
  [("shift of fields and coordinates", "shift_grid in src/moving_grid/moving_grid.cpp"), ("limit and boundary replacement", "time loop of src/main.cpp")],
  ["coordinates and fields of the snapshots"])
p("C09", "Physical boundaries fill ghost cells as their name says",
  "Next to a physical border, a zero-gradient boundary repeats the last interior cell, a reflecting one mirrors the interior cell by cell with the normal momentum negated and everything else kept, and a periodic one repeats the opposite side. This holds for every field and passive scalar, on both ends of every direction, for every ghost width up to the number of cells, edges and corners included, and neither interior cells nor ghost cells owned by a neighbour are touched.",
  ["configurations", "inputs"], "for all combinations of boundary kinds on all faces, ghost widths and decompositions within the bounds",
  "No test applies a boundary condition.",
  ["src/boundary.cpp", "src/boundary.hpp", "src/boundary_distribute.cpp", "src/boundary_factory.hpp"],
  [("ghost kernels", "src/boundary.cpp"), ("only border processes apply them", "DistributedBoundaryCondition in src/boundary_distribute.cpp")],
  ["conserved fields and scalars after the boundary stage"])
p("C10", "Boundary choices are resolved hierarchically and applied by priority",
  "Each face uses the condition named for that face, else the one named for its direction, else the global one; a face without any, and a name that is not one of the four documented ones, stop the run before the first step. Where faces overlap in edges and corners, the conditions are applied so that the one listed first in the priority list prevails. Without a list they are applied in the order first direction left, right, then the second direction, then the third, each overwriting the previous ones. A list that does not name every face exactly once stops the run.",
  ["configurations", "inputs"], "for all assignments of names to the keys and all priority lists within the bounds",
  "No test reads boundary settings from an input file.",
  ["src/main.cpp", "src/boundary_distribute.cpp", "src/boundary_distribute.hpp", "src/boundary_factory.hpp", "src/boundary.cpp"],
  [("default chain of names", "src/main.cpp"), ("priority list", "generate_order in src/boundary_distribute.cpp"), ("factory", "src/boundary_factory.hpp")],
  ["order in which user boundary conditions run, exit status"])
p("C11", "Riemann fluxes are consistent, upwind, mirror symmetric and keep contacts",
  "For each solver, equal states give the physical flux; supersonic flow gives the upwind flux with the HLL and HLLC solvers, and with the low-Mach solver the transported quantities are those of the upwind side; and mirroring the states mirrors the flux with the sign of mass, energy and tangential momentum fluxes reversed. Exchanging tangential directions exchanges their fluxes, with the ideal gas fluxes scale with the units of density and velocity, and HLLC and the low-Mach solver leave a stationary contact with a shear stationary.",
  ["inputs"], "for all pairs of states of a grid of densities, velocities and pressures, all solvers, directions and both equations of state",
  "The tests evaluate a couple of states.",
  ["src/hydro/riemann_solver.hpp", "src/hydro/euler_equations.hpp", "src/hydro/godunov_scheme.hpp"],
  [("HLL, HLLC and low-Mach fluxes", "src/hydro/riemann_solver.hpp"), ("physical flux", "compute_flux in src/hydro/euler_equations.hpp")],
  ["fluxes returned by the solvers"])
p("C12", "Reconstruction is conservative, monotone and exact on linear data",
  "In each direction, the two face values of a cell are symmetric about the cell average weighted by width, lie, on uniform grids (with Minmod on any), between the averages of the cell and of its neighbour on that side, reproduce constants exactly and, for the second-order choices, linear profiles away from extrema on uniform grids, and are flat at extrema. The slope limiters are symmetric, odd, homogeneous and never exceed the classical second-order bounds.",
  ["inputs", "configurations"], "for all triples of values and widths of the grid, all limiters, all directions and dimensions",
  "The tests check three or four slope pairs.",
  ["src/hydro/slope_limiters.hpp", "src/hydro/limited_linear_reconstruction.hpp", "src/hydro/face_reconstruction.cpp"],
  [("limiters", "src/hydro/slope_limiters.hpp"), ("face values", "src/hydro/limited_linear_reconstruction.hpp")],
  ["face values"])
p("C13", "Equations of state and variable conversions invert each other",
  "For every valid density, velocity and pressure, conversion to conserved variables and back is the identity to rounding, temperature, internal energy and pressure are mutually consistent and increasing, and the sound speed satisfies its thermodynamic definition for both the ideal gas and the gas with radiation (whose temperature is solved for to a tolerance of 1e-6 K). Validity predicates accept exactly finite positive states, and parameters outside the physical domain are rejected.",
  ["inputs"], "for all states of a logarithmic grid spanning the admissible range, both equations of state",
  "The tests use one or two states and the ideal gas mostly.",
  ["src/thermodynamics/perfect_gas.hpp", "src/thermodynamics/rad_gas.hpp", "src/thermodynamics/perfect_gas.cpp", "src/thermodynamics/rad_gas.cpp", "src/hydro/euler_equations.hpp", "src/hydro/array_conversion.hpp", "src/analysis/temperature.hpp"],
  [("ideal gas relations", "src/thermodynamics/perfect_gas.hpp"), ("Newton iteration for the temperature", "src/thermodynamics/rad_gas.hpp"), ("array conversions", "src/hydro/array_conversion.hpp")],
  ["values returned by the equation of state and the converters"])
p("C14", "The time step obeys the CFL limit of the whole domain",
  "The step used is the stated CFL number times the minimum over all cells, boundary layers included, of all processes of the inverse sum over directions of (speed of sound plus flow speed) over width, with the angular widths measured as lengths in spherical geometry. Every process uses the same step, and a single extreme cell anywhere determines it.",
  ["inputs", "configurations"], "for every position of an extreme cell, all dimensions, geometries and decompositions within the bounds",
  "No test calls the time step function.",
  ["src/hydro/time_step.hpp", "src/main.cpp"],
  [("parallel minimum", "time_step in src/hydro/time_step.hpp"), ("global minimum", "MPI_Allreduce in src/hydro/time_step.hpp")],
  ["times recorded in the snapshots"])
p("C15", "Mass, momentum, energy and scalars are conserved",
  "On a periodic or closed domain without gravity or sources, total mass and total energy change only by rounding over any number of steps, and so does the total mass of each passive scalar as long as its concentration is not limited to the range 0 to 1; along a periodic Cartesian direction total momentum is conserved too. Closed means walls in Cartesian geometry (the grid being mirrored through them); in spherical geometry the origin, the axis, the full circle and walls in front of which the gas is uniform and at rest let nothing through: mass and energy are conserved. This holds for every solver, limiter, dimension and decomposition, and with energy repair switched off.",
  ["inputs", "configurations", "histories"], "for all initial states of the bounded alphabet, all solver and limiter choices, dimensions, geometries and decompositions",
  RUN,
  ["src/hydro/godunov_scheme.hpp", "src/hydro/extrapolation_reconstruction.hpp", "src/hydro/riemann_solver.hpp", "src/mesh/geometry.cpp", "src/boundary.cpp"],
  [("flux differences over face areas and volumes", "src/hydro/godunov_scheme.hpp")],
  ["integrals of the snapshots, mass balance printed at the end"])
p("C16", "Uniform states, gases at rest and moving contacts stay put",
  "A uniform state with uniform velocity in Cartesian geometry, a uniform state at rest in spherical geometry, and, for the ideal gas, any density and scalar pattern of uniform pressure moving uniformly (Cartesian) keep velocity and pressure uniform to rounding for any number of steps, for every solver, limiter, dimension and border that lets that motion through. With the HLLC solver a gas at rest with uniform pressure stays as it is, whatever its distribution of density and scalars, in both geometries.",
  ["inputs", "configurations"], "for all uniform states and density patterns of the bounded alphabet, all solver and limiter choices, dimensions and geometries",
  RUN,
  ["src/hydro/godunov_scheme.hpp", "src/hydro/extrapolation_reconstruction.hpp", "src/hydro/source_terms.hpp", "src/mesh/geometry.cpp", "src/hydro/riemann_solver.hpp"],
  [("geometric source terms", "src/hydro/source_terms.hpp"), ("areas and volumes", "src/mesh/geometry.cpp")],
  ["fields of the snapshots"])
p("C17", "The scheme has the symmetries of the equations",
  "Mirroring the initial state, boundaries and gravity along a direction mirrors the result, exchanging two Cartesian directions exchanges it, shifting a periodic state by whole cells shifts it, and changing the frame of units rescales it. A problem that varies along fewer directions gives the same result computed in a higher number of dimensions.",
  ["inputs", "configurations"], "for all initial states of the bounded alphabet, directions, solver and limiter choices",
  RUN,
  ["src/hydro", "src/boundary.cpp", "src/mesh", "src/gravity/gravity.cpp"],
  [("direction loops", "src/hydro/godunov_scheme.hpp, src/hydro/extrapolation_reconstruction.hpp, src/hydro/limited_linear_reconstruction.hpp")],
  ["fields of the snapshots"])
p("C18", "Passive scalars follow the gas and never leave their bounds",
  "Passive scalars never influence the gas nor each other, and a scalar that is uniform stays uniform. With first-order (Constant) reconstruction a linear combination of scalars is transported like them, and for CFL-limited steps concentrations stay within the range of their initial and boundary values. With every reconstruction concentrations stay between 0 and 1. All this holds whatever the number of scalars, the solver and the decomposition.",
  ["inputs", "configurations"], "for all initial scalar patterns of the bounded alphabet, numbers of scalars, solvers, limiters, dimensions",
  RUN,
  ["src/hydro/godunov_scheme.hpp", "src/hydro/extrapolation_reconstruction.hpp", "src/hydro/hydro_reconstruction.hpp", "src/boundary.cpp"],
  [("upwinding with the mass flux", "src/hydro/godunov_scheme.hpp")],
  ["scalar datasets of the snapshots"])
p("C19", "Gravity models deliver the stated acceleration and energy-consistent work",
  "Uniform gravity is the stated constant vector, a point mass attracts along the radius with the inverse square of the distance, and self-gravity by enclosed mass uses the central mass plus the mass of the shells inside, the same on all processes. Momentum and energy receive the matching source terms, so a uniform gas in uniform gravity on a periodic domain gains exactly the acceleration times the step in velocity at each step, and in energy exactly the work of the force on the momentum at the start of the step.",
  ["inputs", "configurations"], "for all parameter values and mass distributions of the bounded alphabet, decompositions, dimensions",
  "The gravity tests evaluate one configuration on one process.",
  ["src/gravity/gravity.cpp", "src/gravity/gravity.hpp", "src/hydro/source_terms.hpp", "src/hydro/godunov_scheme.hpp", "src/hydro/extrapolation_reconstruction.hpp"],
  [("fields of acceleration", "src/gravity/gravity.cpp"), ("source terms", "src/hydro/source_terms.hpp, src/hydro/godunov_scheme.hpp")],
  ["acceleration values, fields of the snapshots"])
p("C20", "Optional sources act only where and when they should",
  "Energy repair changes only the energy of cells whose internal energy falls below the stated fraction of kinetic energy, leaving every other cell and variable bit for bit as without it, and gives them the internal energy predicted by the internal-energy equation. Radioactive heating adds to each cell, and to nothing else, the decay energy released over the step at its time by its nickel (the first scalar), through nickel and cobalt; with both off nothing is added, and a user-supplied step sees every interior cell once per iteration with the time and step of that iteration.",
  ["inputs", "configurations"], "for all cell states of the bounded alphabet on both sides of the threshold, time steps and compositions",
  "No test exercises either source.",
  ["src/hydro/pressure_fix.hpp", "src/user_step/user_step.cpp", "src/user_step/user_step_factory.cpp", "src/main.cpp"],
  [("threshold and internal energy update", "src/hydro/pressure_fix.hpp"), ("decay chain", "src/user_step/user_step.cpp")],
  ["fields of the snapshots"])
p("C21", "Every time step is the documented second-order Godunov update",
  "Each step takes every cell from its old to its new state as the predictor-corrector scheme of the documentation prescribes: limited linear reconstruction, half-step extrapolation, upwind fluxes, geometric and gravity sources, boundary stage, in that order, with the new state used for the next step. The result matches an independent evaluation of that scheme on the whole domain for all solvers, limiters, equations of state, geometries, gravity models and dimensions.",
  ["inputs", "configurations", "histories"], "for all initial states of the bounded alphabet and all option combinations, over several steps",
  RUN,
  ["src/main.cpp", "src/hydro", "src/gravity/gravity.cpp", "src/mesh/geometry.cpp", "src/boundary.cpp"],
  [("order of the stages", "time loop of src/main.cpp"), ("predictor", "src/hydro/extrapolation_reconstruction.hpp"), ("corrector", "src/hydro/godunov_scheme.hpp")],
  ["fields of the snapshots"])
p("C22", "Outputs happen exactly when scheduled and the run ends when asked",
  "A run writes the initial state, then exactly at the requested iteration multiples and at the requested times, which are hit exactly, and at its end; it stops at the end time exactly, at the iteration limit, or when the wall-clock allowance is spent, whichever comes first. Output numbers are consecutive, without any output frequency only the final state is written, and a first output time that is not after the start stops the run.",
  ["configurations", "histories"], "for all combinations of frequencies, first output time, end time, limits and wall-clock answers of the bounded menu",
  RUN,
  ["src/main.cpp", "src/utils/param.cpp", "src/io/io.cpp"],
  [("scheduling", "time loop of src/main.cpp")],
  ["set of snapshots with their iteration, time and identifiers; standard output"],
  state=[("output counters", "next snapshot, iteration output and time output", "src/main.cpp")])
p("C23", "A restarted run continues the interrupted one",
  "Stopping a run at any of its snapshots and restarting from it, with the same or another number of processes, yields the same later snapshots (fields to rounding, times, counters and file numbers) as the uninterrupted run, for any split into any number of restarts, including moving grids, scalars, gravity and user-defined grids. A restart never recomputes the initial conditions and a missing or unreadable file stops the run.",
  ["crash_points", "histories", "configurations"], "for every snapshot of the run as restart point, all pairs of consecutive restarts, all process counts in the bounds",
  RUN,
  ["src/main.cpp", "src/io/io.cpp", "src/io/config.yaml.cpp"],
  [("reading of the state", "read_pdi in src/io/io.cpp"), ("restored counters", "src/main.cpp"), ("datasets to read", "src/io/config.yaml.cpp")],
  ["snapshots of both runs"])
p("C24", "A snapshot holds the complete state, each value written once and in place",
  "Every snapshot contains the density, pressure, energy, temperature, all velocity components and all passive scalars (up to the ten the file layout declares) of exactly the interior cells of the whole domain, the coordinates, the time, the counters and the adiabatic index, in global index order whatever the decomposition. Every element is written by exactly one process, the stored pressure, energy, velocity and temperature are mutually consistent, no ghost value leaks in, and files carry the requested directory, prefix and consecutive eight-digit number.",
  ["configurations", "schedules"], "for all decompositions, ghost widths, numbers of scalars, dimensions and write orders of the bounds",
  RUN,
  ["src/io/io.cpp", "src/io/io.hpp", "src/io/config.yaml.cpp", "src/analysis/temperature.hpp"],
  [("data exposed", "write_pdi in src/io/io.cpp"), ("layout of the files", "src/io/config.yaml.cpp")],
  ["datasets of the HDF5 snapshots"])
p("C25", "The XDMF index describes the snapshots of the run after every output",
  "After every output the index is a well-formed document that lists, in order, each snapshot written so far in this run with its exact time, and references for each field and coordinate array an existing dataset of an existing file with exactly the dimensions stated. It is written by one process only, in the requested directory with the requested prefix (free of XML markup characters).",
  ["crash_points", "configurations"], "after every output of the run (every crash point between outputs), for all dimensions, scalars, prefixes of the bounds",
  RUN,
  ["src/io/io.cpp", "src/io/io.hpp"],
  [("document writer", "XmlWriter in src/io/io.cpp")],
  ["the .xmf file next to the snapshots"])
p("C26", "Reading one-dimensional profiles validates sizes and always releases handles",
  "Asking for a profile whose rank or length differs from the receiving array, or that does not exist, raises an error and never yields partial data; a matching one is delivered unaltered. Whichever HDF5 call fails, every handle that was opened is closed exactly once, none is used after closing, and no operation is made on an invalid handle.",
  ["fault_sequences", "inputs"], "for a failure injected at every HDF5 call of every operation, all extents in the bounds, all handle move and scope histories",
  "HDF5 failures never occur in the tests.",
  ["src/io/io_hdf5.hpp", "src/io/io.cpp", "src/setups/v1d/setup.hpp"],
  [("owning handles", "src/io/io_hdf5.hpp"), ("extent check", "check_extent_dset and read_1d_array in src/io/io.cpp")],
  ["returned data, exceptions, calls made to HDF5"])
p("C27", "A radial profile reaches every process, at its place",
  "A one-dimensional radial profile read for the whole domain is distributed so that each cell of every process, ghost-free interior included in all transverse positions, receives the value of its global radial index, on any decomposition. Values are neither interpolated nor reordered.",
  ["configurations"], "for all decompositions, cell counts and dimensions in the bounds",
  "The tests cover a few decompositions that depend on the processes they are started with.",
  ["src/broadcast.cpp", "src/broadcast.hpp", "src/setups/v1d/setup.hpp"],
  [("spread along transverse directions", "src/broadcast.cpp")],
  ["field after the broadcast"])
p("C28", "Invalid states are detected at once and never continued",
  "If any cell of any process holds a negative or not-a-number internal energy at the start of a step, every process stops with an error that states the time and iteration, after writing one last snapshot of that state, and no further step is made. Valid states, however extreme, never trigger it.",
  ["inputs", "fault_sequences", "configurations"], "for every cell of the domain as the faulty one, each kind of invalid value, each iteration, all decompositions",
  RUN,
  ["src/analysis/internal_energy.cpp", "src/main.cpp"],
  [("global minimum of the internal energy", "src/analysis/internal_energy.cpp"), ("detection", "time loop of src/main.cpp")],
  ["exit status, standard error, last snapshot"])
p("C29", "Input files are parsed by the INI grammar, whatever their content",
  "Sections, names, values, comments, inline comments, quoted-free text, blank lines, continuation by indentation, byte-order mark, line length limit and either line ending are interpreted as the format documents, for any byte sequence: each pair reaches the consumer once, in order, with its section, trimmed of surrounding blanks, and the first offending line number is reported. Reading from a file, a stream or a string gives the same result, the parser never reads or writes outside its buffers, and a handler or file error is reported as such.",
  ["inputs", "configurations"], "for all texts over an alphabet of significant characters up to the length bound, all compile-time options of the parser",
  "The recorded baselines cover ten small files.",
  ["vendor/inih/src/ini.c", "vendor/inih/include/inih/ini.h"],
  [("line scanner", "ini_parse_stream in vendor/inih/src/ini.c"), ("string reader", "ini_reader_string in vendor/inih/src/ini.c")],
  ["callbacks and return value of the parser"])
p("C30", "Typed lookups return the stored value or the default, without surprises",
  "Looking up a key ignores the case of section and name, returns the text as written, the integer, real or boolean it denotes in the documented notations, or the supplied default when the key is absent or empty; a text that does not begin with such a value, or a value the type cannot hold, is reported as an error and never replaced by another value. Repeated keys accumulate on successive lines, and the outcome of parsing (success, first bad line, missing file) is reported unchanged.",
  ["inputs"], "for all value texts over the alphabet of numeric and boolean notations up to the length bound, all key spellings in the bounds",
  "No test of the typed lookups is run.",
  ["vendor/inih/src/INIReader.cpp", "vendor/inih/include/inih/INIReader.hpp"],
  [("conversions", "INIReader::GetInteger, GetReal, GetBoolean in vendor/inih/src/INIReader.cpp"), ("case folding", "INIReader::MakeKey in vendor/inih/src/INIReader.cpp")],
  ["returned values"])
p("C31", "Every input parameter reaches the run, absent ones take their default",
  "Each parameter is taken from its own section and name and from nothing else, and takes its default when absent; parameters do not influence one another except that the first output time defaults to the initial time plus the output interval. What the run prints about its configuration is what the file says.",
  ["inputs", "configurations"], "for every parameter, present or absent, alone and in every pair with another",
  "No test constructs the parameters.",
  ["src/utils/param.cpp", "src/utils/param.hpp", "src/main.cpp", "src/utils/print_info.hpp"],
  [("mapping", "Param::Param in src/utils/param.cpp")],
  ["parameter values, standard output"])
p("C32", "Only documented option names are accepted",
  "Every documented name of solver, limiter, grid kind, boundary condition and user step selects the scheme of that name, and any other spelling, the empty one included, stops the run with an error on all processes before the first time step. No name silently falls back to another scheme; the repair of the pressure and the moving grid are on under their documented names On and UserDefined only.",
  ["inputs", "configurations"], "for all documented names and all their one-edit neighbours and case variants",
  "Only the grid kind has a test, with one bad name.",
  ["src/hydro/godunov_scheme.hpp", "src/hydro/face_reconstruction.cpp", "src/mesh/grid_factory.cpp", "src/boundary_factory.hpp", "src/user_step/user_step_factory.cpp", "src/mesh/geometry_factory.cpp"],
  [("factories", "factory_* functions")],
  ["exit status, results of one step"])
p("C33", "Narrowing an integer either preserves its value or fails",
  "Converting an integer between any two built-in integer types returns a value equal to the original, sign included, whenever the target type can represent it, and otherwise raises an error. It never wraps, truncates or changes sign.",
  ["inputs"], "for all values of all 8 and 16 bit types and all boundary values of wider ones, over all ordered pairs of types",
  "Two examples are tested.",
  ["src/utils/int_cast.hpp"],
  [("range check", "int_cast in src/utils/int_cast.hpp")],
  ["returned value or exception"])
p("C34", "Global integrals and extrema cover every interior cell once",
  "The mass printed at the end of a run is the sum over all interior cells of all processes of density times volume, and the change printed is its difference from the start, independent of decomposition and ghost content. Global minima are taken over the same cells and known to every process.",
  ["inputs", "configurations"], "for all positions of a marked cell, decompositions, dimensions and geometries in the bounds, all reduction orders",
  "No test computes an integral.",
  ["src/analysis/integration.cpp", "src/analysis/internal_energy.cpp", "src/main.cpp"],
  [("reduction over the interior", "src/analysis/integration.cpp")],
  ["standard output, returned values"])
p("C35", "Shipped problems start and evolve as described on any decomposition",
  "Every shipped problem with its shipped input file (for the problem that reads a profile, a profile of the same kind) is accepted, starts from finite, positive density and pressure everywhere with velocities and scalars as the problem describes, completes its first steps without detecting an invalid state, evolves as the documented scheme says with the states its own boundaries and the decision its own shift criterion describe, and gives the same snapshots on any number of processes. The same holds when one of the parameters it reads (initial state, gas, gravity) has another value.",
  ["configurations"], "for every shipped problem and input file, reduced to small grids, all decompositions in the bounds, every single changed parameter, four steps",
  "No test runs a shipped problem.",
  ["src/setups", "inputs"],
  [("initial states", "InitializationSetup of every src/setups/*/setup.hpp")],
  ["snapshots"])

p("C36", "The command line decides which input file and I/O configuration a run uses",
  "The first argument is the input file. Of the further ones only those of the form --pdi-config=PATH matter, the last of them counts, and without any, or with an empty path, the built-in configuration of the inputs and outputs is used. Whatever fields a configuration of the user selects, under its own names and layouts, it writes exactly the values the built-in one writes for the same run, on any number of processes, and a run restarted under it continues the interrupted one. An input file or a configuration that cannot be read stops the run on every process before anything is written.",
  ["inputs", "configurations"], "for every list of arguments up to the length in the bounds, every subset of the fields exposed by the program, every decomposition in the bounds",
  "No test passes options or another I/O configuration.",
  ["src/main.cpp", "src/io", "test/convergence_advection_sinus"],
  [("arguments", "hclpp::main in src/main.cpp"), ("data and events exposed to PDI", "write_pdi_init, write_pdi and read_pdi in src/io/io.cpp")],
  ["snapshots"])

p("C37", "What a run reports on its standard output is what it did",
  "Every output of a run is reported once, with the number, iteration and time the snapshot holds; a restart is reported with the file, time and iteration it starts from; every shift of the grid, and no other, with its iteration and time. At the end the final time, the number of iterations reached and the mean performance, which is the number of cell updates of this run (steps made since its start or restart times the cells of the domain) per second, are printed once. Nothing is repeated by the other processes.",
  ["configurations", "histories"], "for every combination of output schedule, shifts, restart and decomposition in the bounds",
  "No test looks at what a run prints.",
  ["src/main.cpp", "src/io/io.cpp"],
  [("reports", "print_simulation_status in src/io/io.cpp, hclpp::main in src/main.cpp")],
  ["standard output"])

p("C38", "A run acquires and releases its resources in order, whatever its end",
  "Whether a run ends at its end time, at its number of iterations, at its wall-time allowance, on an invalid state, on a bad input or on a failure of the file system met by all its processes, every process starts MPI and Kokkos once and stops them once, in reverse order, and uses them only in between; nothing allocated with Kokkos is left when Kokkos stops, no communicator created by the program and no pending message is left when MPI stops, no HDF5 handle and no file is left open, and a run that ends normally closes PDI and its configuration. While it runs nothing accumulates: after the first steps the number of allocations, communicators, handles and open files at the same point of a step does not grow, whatever the outputs and shifts of the grid.",
  ["configurations", "histories", "faults"], "for every end, step count, output schedule and failing HDF5 call in the bounds",
  "Tests never start the program, and a leak or a misplaced release shows only on particular ends or after many outputs.",
  ["src/main.cpp", "src/mpi_scope_guard.cpp", "src/mesh/grid.cpp", "src/io/io.cpp"],
  [("life cycle", "main and hclpp::main in src/main.cpp"), ("communicators", "Grid::mpi_decomposition, Grid::~Grid in src/mesh/grid.cpp"), ("handles", "RaiiH5Hid in src/io/io.cpp")],
  ["end of a run"])

p("C39", "The same problem told in other units evolves in the same way",
  "The equations and the scheme contain no scale of their own: if the densities, velocities and lengths of a perfect-gas problem (initial state, grid, gravity, imposed boundary values, times of the schedule, energy added by a user step) are multiplied by constant factors, as when it is told in another system of units, then every output is the same up to these factors, at the same iterations and rescaled times, however small or large the numbers become short of overflow (factors of 2^-100 to 2^100). With self-gravity the density factor follows from the others, with the gas and radiation mixture those factors remain that keep the radiation constant. The mean molecular weight only rescales the temperature.",
  ["inputs", "configurations"], "for the systems of units in the bounds and all initial states, solvers, limiters and schedules of the bounded alphabet",
  "Tests use numbers near one; an absolute threshold, floor, tolerance or small additive constant shows only in the units of another user (densities of 1e-24, lengths of 1e18).",
  ["src/hydro", "src/main.cpp", "src/mesh", "src/gravity", "src/thermodynamics", "src/boundary.cpp"],
  [("thresholds", "src/hydro/riemann_solver.hpp, src/hydro/slope_limiters.hpp, src/hydro/array_conversion.hpp, src/hydro/pressure_fix.hpp, src/hydro/time_step.hpp"), ("schedule", "src/main.cpp")],
  ["fields, times and counters of the snapshots"])

p("C40", "Parts that a problem does not define are refused by every process",
  "A problem may define its own boundary conditions, grid, step and criterion of the moving grid. If the input file asks for one which the problem does not define, the run ends with an error message and a failure status on every process, whatever the number of processes and their arrangement (also when only some of them touch the border in question): none of them waits for the others, runs on, or stops in silence; nothing else takes the place of the missing part. Without the request the same problem runs.",
  ["inputs", "configurations", "schedules"], "for all shipped problems, optional parts, faces and process grids in the bounds",
  "The parts are resolved at compile time for each problem and the failure depends on which process owns which border; the tests link no problem and start no process.",
  ["src/default_boundary_setup.hpp", "src/default_grid_setup.hpp", "src/default_user_step.hpp", "src/default_shift_criterion.hpp", "src/boundary_factory.hpp", "src/main.cpp"],
  [("defaults", "src/default_boundary_setup.hpp, src/setups"), ("construction", "src/main.cpp")],
  ["exit status and messages of every process", "progress of every process"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
