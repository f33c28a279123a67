"""Single source of properties.jsonl and MANIFEST.json (python3-vt tools/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe, state=state))


ENUM = "exhaustive enumeration of a bounded space on the real code: "

prop("C01", "Decomposition and message timing do not change the answer",
     "For any division of the mesh among parallel processes, and any order in which messages are delivered and completed, a run "
     "produces at every step the same cell and face values, time and timestep as the single-process run of the same problem (to "
     "round-off), and always terminates without deadlock, message mismatch or leftover messages. This covers gas and MHD with every "
     "integrator, boundary condition, passive scalars, explicit diffusion, cylindrical coordinates, special relativity and automatic decomposition.",
     ["schedules", "configurations", "inputs"],
     "All factorisations of 2-8 ranks over 1-3 dimensions, all buffering/eagerness policies, all wait-any completion orders within a deviation bound.",
     "No test of the suite runs in parallel; message orders cannot be chosen by a test at all.",
     ["src/bvals_mhd.c", "src/init_mesh.c", "src/init_grid.c", "src/new_dt.c"],
     [("halo exchange", "src/bvals_mhd.c: bvals_mhd, pack_*/unpack_*"), ("decomposition", "src/init_mesh.c: dom_decomp*"),
      ("global timestep", "src/new_dt.c: MPI_Allreduce")],
     ENUM + "stateless model checking of the MPI program under a controlled scheduler (all decompositions, send policies, wait-any orders)",
     "Exhaustive within the listed decompositions, message policies and completion-order deviation bounds; the oracle is the serial build of the same tree. "
     "The MPI library is replaced by the model-checking runtime in csrc/mmpi.")
prop("C02", "Parallel runs with the extended physics equal serial runs",
     "With shearing-box or orbital-advection (FARGO) physics, FFT self-gravity, particles with or without feedback, static mesh refinement, "
     "cooling, user boundary functions or cylindrical orbital advection enabled, a run divided among any number of processes produces at "
     "every step the same gas, field, potential and particle data and the same timestep as the single-process run (to round-off), and never deadlocks or loses a message or a particle.",
     ["schedules", "configurations", "inputs"],
     "Every listed decomposition (including ranks that hold grids of several refinement levels) of 40 physical set-ups, under several message-timing policies and completion orders.",
     "The suite has no parallel run and none of these modules is exercised by it.",
     ["src/bvals_shear.c", "src/bvals_grav.c", "src/smr.c", "src/init_mesh.c", "src/init_grid.c", "src/particles/bvals_particle.c", "src/particles/exchange.c", "src/fftsrc/ath_fft.c"],
     [("shear remap across ranks", "src/bvals_shear.c"), ("restriction/prolongation messages", "src/smr.c"), ("particle migration", "src/particles/bvals_particle.c"),
      ("feedback exchange", "src/particles/exchange.c"), ("parallel FFT", "src/fftsrc")],
     ENUM + "stateless model checking of the MPI program under a controlled scheduler over all listed set-ups and decompositions",
     "Exhaustive within the listed set-ups, decompositions and policies; oracle is the serial build of the same tree.")
prop("C03", "Restarting continues the run exactly",
     "A run continued from any of its restart files goes through exactly the same later states (cells, face fields, potential, "
     "particles, time, timestep, step count, user data) as the uninterrupted run. This holds for every physics module, dimension, "
     "refinement, serial or parallel, for arrays of any size, and for restarts of restarted runs.",
     ["crash_points", "histories", "configurations"],
     "Every cut point of every run in the space, every pair of cut points for a subset, in 48 set-ups.",
     "The suite never restarts a run; a test would sample one cut of one configuration.",
     ["src/restart.c", "src/main.c", "src/smr.c", "src/new_dt.c"],
     [("restart writer/reader", "src/restart.c: dump_restart, restart_grids"), ("start-up sequence on restart", "src/main.c")],
     ENUM + "all interruption points (and pairs of them) of every run, comparing all later states with the uninterrupted run",
     "Exhaustive over cut points in the listed set-ups; same executable and stopping time assumed.")
prop("C04", "Outputs come on schedule, under the right names, and runs stop on time",
     "Every output block is written once at the start of a run, once for each interval that falls due, and once at the end, numbered without gaps from its "
     "starting number, under file names and directories that tell process, level and domain apart, and a restarted run continues schedule and numbering. "
     "A run ends exactly at its time limit, step limit or first step after a termination signal, also in parallel and with many outputs of any format.",
     ["histories", "configurations", "crash_points"],
     "All combinations of intervals, first times, start numbers, step and time limits, signal points and restart points of the space against a reference model of the schedule.",
     "The suite looks at one output per run and never at names, numbering, signals or restarts.",
     ["src/output.c", "src/main.c", "src/ath_signal.c", "src/ath_files.c", "src/restart.c"],
     [("output scheduler", "src/output.c: data_output, init_output"), ("main loop", "src/main.c"), ("file names", "src/ath_files.c")],
     "explicit-state model of the output schedule explored over all bounded schedules, stop conditions, signal and restart points; every model trace replayed on the real program",
     "Exhaustive over the listed schedules and stop conditions; step times are taken from the run itself.")
prop("C05", "Output files say what the state is",
     "Every number in every output file - full dumps and single variables in table, binary, VTK, image, histogram and history form, of conserved, primitive, derived or "
     "user-defined quantities, sliced or averaged along any axes, on any level, domain or process - is the value computed from the simulation state at that moment, and "
     "sizes, coordinates, labels, times and limits in the headers are right. This holds in 1, 2 and 3 dimensions for hydrodynamics, MHD, relativity, self-gravity, cylindrical coordinates and refined meshes.",
     ["inputs", "configurations"],
     "Every format x variable x slice form x dimension x physics configuration of the space, decoded and compared number by number with the raw state.",
     "The suite only reads one error file per problem.",
     ["src/output.c", "src/output_tab.c", "src/output_vtk.c", "src/output_pgm.c", "src/output_ppm.c", "src/output_pdf.c", "src/dump_tab.c", "src/dump_binary.c", "src/dump_vtk.c", "src/dump_history.c"],
     [("slices and averages", "src/output.c: OutData1/2/3"), ("derived quantities", "src/output.c: expr_*"), ("writers", "src/dump_*.c, src/output_*.c")],
     ENUM + "every format, variable, slice form, dimension and configuration; files decoded by an independent reader and compared with the raw state",
     "Exhaustive over the listed formats and configurations, two states each; single-precision formats are compared to single precision.")
prop("C07", "Conserved totals do not change",
     "In a periodic box, and for gas in a closed box with reflecting walls, total mass, energy, passive scalars and (periodic box) momentum, magnetic flux and "
     "net magnetic field stay constant to round-off at every step, whatever the flow, the dimension and axis orientation, the Riemann solver, reconstruction, "
     "integrator, equation of state, explicit diffusion terms or relativity. With a fixed gravitational potential the sum of gas and potential energy is the constant.",
     ["inputs", "configurations", "histories"],
     "Every local neighbourhood over several state alphabets along each axis, lattices of unrelated values, in 32 solver configurations and 1-3 dimensions.",
     "The suite compares a few smooth problems with loose error norms; a local conservation error in one branch of one solver stays far below them.",
     ["src/integrators", "src/rsolvers", "src/reconstruction", "src/microphysics", "src/bvals_mhd.c"],
     [("flux-difference updates", "src/integrators/integrate_*"), ("diffusive fluxes", "src/microphysics"), ("gravity energy source", "src/integrators")],
     ENUM + "all neighbourhood arrangements (de Bruijn words) and lattices in every configuration, totals judged after each step",
     "Exhaustive over the listed configurations, alphabets, axes and steps; tolerance 2e-12 of the summed magnitudes.")
prop("C08", "Magnetic field stays divergence-free and consistent",
     "From a divergence-free start the discrete divergence of the face-centred magnetic field stays zero to round-off in every cell at every step, and every "
     "cell-centred field component stays the average of its two face values, for every integrator, solver, resistive term, geometry and boundary condition, in any dimension.",
     ["inputs", "configurations", "histories"],
     "20 magnetised configurations, 8 boundary sets, dimensions 1-3, lattices and all neighbourhood words.",
     "The suite never evaluates div B; small violations are invisible in its error norms.",
     ["src/integrators", "src/bvals_mhd.c", "src/microphysics/resistivity.c"],
     [("constrained transport", "src/integrators/integrate_2d_ctu.c, integrate_3d_ctu.c, *_vl*.c"), ("resistive EMFs", "src/microphysics/resistivity.c"), ("field boundary conditions", "src/bvals_mhd.c")],
     ENUM + "all listed arrangements, boundary sets and configurations; divergence and averages judged in every cell after each step",
     "Exhaustive over the listed space; cells touching reflecting walls are not judged for divergence.")
prop("C09", "Answers do not depend on orientation, mirror image, position or units",
     "Relabelling the axes, taking a mirror image, reversing the sign of the magnetic field, shifting a periodic problem by whole cells, choosing other units of "
     "mass, length or time, or embedding a lower-dimensional problem in more dimensions yields the correspondingly transformed run (same cell values, timestep) to round-off. "
     "This holds for every solver, reconstruction, integrator, diffusion term, gravity, self-gravity, relativity and boundary condition.",
     ["inputs", "configurations"],
     "All axis permutations, mirrors, shifts, unit changes and embeddings of every listed problem in every configuration.",
     "The suite runs each problem in one orientation and one system of units.",
     ["src/integrators", "src/rsolvers", "src/reconstruction", "src/microphysics", "src/bvals_mhd.c", "src/new_dt.c", "src/gravity"],
     [("per-direction code copies", "src/integrators/integrate_*d_*.c"), ("boundary functions per face", "src/bvals_mhd.c"), ("timestep", "src/new_dt.c")],
     ENUM + "every symmetry operation applied to every problem and configuration of the space, runs compared cell by cell",
     "Exhaustive over the listed operations, problems and configurations; Hall term and H-correction dimension switches are excluded where not symmetric by design.")
prop("C14", "Refined meshes conserve and stay consistent across levels",
     "On a statically refined mesh the composite totals of mass, energy, momentum and scalars stay constant in a periodic (or, for gas, walled) box, coarse zones always hold "
     "the averages of the fine zones over them, and the magnetic field is divergence-free on every level, including ghost zones filled from a coarser level. "
     "Ghost zones at level boundaries average to the coarse value, are exact for linear data and make no new extrema, uniform flow stays uniform, and the answer does not depend on axis order or mirror image.",
     ["inputs", "configurations", "histories"],
     "12 refinement layouts in 1-3 dimensions, up to 4 levels and 3 domains per level, domains touching boundaries, 11 gas/integrator/order configurations, 3 boundary sets.",
     "The suite never builds with mesh refinement.",
     ["src/smr.c", "src/init_mesh.c", "src/init_grid.c", "src/integrators", "src/bvals_mhd.c"],
     [("restriction, flux and EMF correction", "src/smr.c: RestrictCorrect"), ("prolongation", "src/smr.c: Prolongate"), ("overlap lists", "src/init_grid.c")],
     ENUM + "every layout, configuration, boundary set and start of the space, all levels and ghost zones judged after each step",
     "Exhaustive over the listed layouts and configurations; prolongation judged in ghost zones that adjoin faces of a fine domain.")
prop("C06", "Parameters mean what the input file and command line say",
     "For every input file (blocks in any order and repeated, repeated names, comments, blank lines, odd spacing, empty values, <par_end>) and every block/name=value argument, each parameter read as "
     "text, integer or number has the value last given for it, a missing one gets the caller's default (which is recorded), and malformed or unknown entries stop the program with an error. "
     "Setting, overriding and dumping agree: reading a dump back gives the same database with its comments, and every process of a parallel run has the same parameters.",
     ["inputs", "histories"],
     "All files of up to 3 lines over 24 line forms in three contexts, all command lines of up to 2 arguments, all sequences of up to 3 calls over 20 forms, and parallel distribution.",
     "The suite reads a fixed set of well-formed files.",
     ["src/par.c", "src/main.c"],
     [("parsing", "src/par.c: par_open, add_par_line"), ("command line", "src/par.c: par_cmdline"), ("distribution", "src/par.c: par_dist_mpi")],
     "explicit-state reference model of the parameter database; every bounded file, command line and call sequence is executed on the model and on the real code and all results are compared",
     "Exhaustive over the listed line, argument and call forms and depths.")
prop("C13", "The timestep respects every stability limit",
     "At every step dt is the Courant number times the smallest zone-crossing time over all cells, meshed directions, refinement levels and particles (fluid speed plus sound or fast magnetosonic speed, "
     "c in relativity, R times angle in cylindrical coordinates), reduced where needed to the explicit diffusion limits, to twice the previous dt, and to land exactly on the end time. "
     "All grids share one dt, the run ends exactly at tlim or at the step limit, and super-time-stepping never exceeds its stable multiple of the diffusive step.",
     ["inputs", "configurations", "histories"],
     "The limiting cell at every position of the mesh in nine ways, every level of a refined mesh, limiting particles, all coefficients, end times, step limits and changes of the Courant number.",
     "The suite's problems have one limiting direction and end at a generic time; a missed limit shows only as an instability elsewhere.",
     ["src/new_dt.c", "src/microphysics/new_dt_diff.c", "src/microphysics/get_eta.c", "src/main.c"],
     [("CFL", "src/new_dt.c: new_dt"), ("diffusive limits", "src/microphysics/new_dt_diff.c"), ("super-time-stepping", "src/new_dt.c: get_N_STS"), ("main loop", "src/main.c")],
     ENUM + "every position and kind of limiting cell, level, particle, coefficient, end time and Courant change; each (state, dt) pair compared with an independent evaluation",
     "Exhaustive over the listed positions, kinds and configurations; the evaluation follows the documented formulas.")
prop("C10", "Smooth flows converge to the solution of the equations",
     "In a periodic box a smooth flow evolves to the solution of the continuum equations being solved (hydrodynamics, MHD, special relativity, adiabatic or isothermal, passive scalars), with gravity, self-gravity, cooling, viscosity, conduction, "
     "Ohmic, Hall and ambipolar terms included when enabled. The error of every variable falls with resolution at the order of the method and stays at the accuracy of the chosen "
     "reconstruction, Riemann solver and integrator, in 1, 2 and 3 dimensions and for flow in any direction.",
     ["inputs", "configurations"],
     "43 solver and physics configurations x dimensions x five background flows, every variable against an independent spectral solution at two resolutions.",
     "The suite compares error norms of single waves in a few configurations and never enables diffusion, self-gravity, relativity or cooling.",
     ["src/integrators", "src/rsolvers", "src/reconstruction", "src/microphysics", "src/gravity", "src/convert_var.c"],
     [("integrators", "src/integrators"), ("source terms", "src/integrators, src/microphysics, src/gravity"), ("transverse corrections and CT", "src/integrators/integrate_2d_ctu.c, integrate_3d_ctu.c")],
     ENUM + "every configuration, dimension and background flow of the space run to the same time as a spectral reference solution, every variable compared",
     "Exhaustive over the listed configurations and flows; short evolutions of smooth states; accuracy bounds recorded from the method, 3% margin.")

prop("C11", "Riemann solvers give the right flux and shocks are captured",
     "For every pair of admissible left and right states each Riemann solver returns a finite flux that is the physical flux when the states are equal, the upwind flux when the flow is supersonic, exact for contacts in the solvers that resolve them, and "
     "otherwise the flux of the published solver, with passive scalars following the mass flux; conversion between conserved and primitive variables is an exact inverse and the fast speed is that of the equations. "
     "Riemann problems run with any solver, order of reconstruction and integrator along any axis give the exact solution at the accuracy of the method.",
     ["inputs", "configurations"],
     "31 solver configurations x an exhaustive lattice of state pairs (3.4 million) called directly, against independently written solvers; 36 run configurations x Riemann problems x axes against exact or high-resolution solutions.",
     "The suite runs three shock tubes along x1; most solvers, wave patterns and all of isothermal, relativistic and scalar transport are unused.",
     ["src/rsolvers", "src/convert_var.c", "src/reconstruction", "src/integrators"],
     [("Riemann solvers", "src/rsolvers"), ("variable conversions", "src/convert_var.c"), ("reconstruction", "src/reconstruction")],
     ENUM + "every pair of states of the lattice passed to every solver built from the tree and judged against reference fluxes; every Riemann problem of the space run along every axis",
     "Exhaustive over the listed lattice of states; between lattice points nothing is claimed. Accuracy bounds of tubes recorded from the method, 3% margin.")
prop("C12", "Ghost zones hold what the boundary conditions say",
     "After every step the ghost zones of every variable are: for a periodic boundary the zones at the opposite side; for outflow a copy of the last active zone; for a reflecting wall the mirror image with the normal momentum and normal field "
     "reversed (and no normal field on the wall); for a conducting wall the mirror image with the normal momentum and the tangential field reversed; for a user boundary what the user's function set. "
     "Edges and corners are filled in the order x1, x2, x3, and all this holds in 1-3 dimensions, for refined domains that touch the edge of the mesh, for every parallel decomposition, and for the gravitational potential.",
     ["inputs", "configurations"],
     "Every combination of boundary flags per axis in 1-3 dimensions, hydro and MHD, scalars, self-gravity, refinement and decompositions; every ghost zone and face of the dumped state compared.",
     "The suite uses periodic and outflow boundaries and looks at active zones only.",
     ["src/bvals_mhd.c", "src/bvals_grav.c", "src/smr.c"],
     [("gas and field boundaries", "src/bvals_mhd.c"), ("potential boundaries", "src/bvals_grav.c")],
     ENUM + "every combination of boundary conditions, dimension, physics and decomposition of the space; all ghost zones of the real state compared with the definition",
     "Exhaustive over the listed combinations; corner zones that the code never uses are excluded only on refined domains.")
prop("C16", "The gravitational potential solves Poisson's equation",
     "With self-gravity the potential of any density distribution satisfies Poisson's equation discretised on the mesh (second-order seven-, five- or three-point Laplacian) with source 4 pi G times the density, less its mean in periodic directions, "
     "for the periodic FFT and direct 1D solver, the disk (periodic in plane, open vertically) and open-boundary FFT solvers, and multigrid, in every dimension each supports and every box shape. "
     "The potential used is that of the current density, is independent of the decomposition over processes, and gas responds to it with the force and energy source that converge to the exact ones.",
     ["inputs", "configurations"],
     "Every solver x dimension x box shape x density pattern (point masses at every position class, modes, noise), residual or exact comparison; time-dependent self-gravitating flows against spectral solutions.",
     "The suite never builds with self-gravity.",
     ["src/gravity", "src/bvals_grav.c", "src/fftsrc"],
     [("solvers", "src/gravity/selfg_fft.c, selfg_fft_disk.c, selfg_fft_obc.c, selfg_multigrid.c, selfg.c"), ("force and energy source", "src/integrators, src/gravity/selfg.c")],
     ENUM + "every solver, dimension, box and density of the space; potentials of the real solver compared with independent solutions of the discrete equation",
     "Exhaustive over the listed boxes and densities; multigrid and open boundaries judged to the accuracy of their approximate boundary potential.")
prop("C17", "Shearing box and orbital advection obey the local disk equations",
     "Departures from the background shear obey the shearing-box equations (Coriolis and tidal forces, shear amplification of the field, work of the stresses in the energy), with and without orbital advection, with viscosity, resistivity, conduction and "
     "self-gravity, in 2D x-y, 2D x-z and 3D, converging at the order of the method for any rotation rate and shear. "
     "Radial ghost zones are copies of the opposite side displaced by the shear and boosted by its velocity, and mass, vertical momentum, and the magnetic flux through every plane are conserved, with divergence-free fields, in 3D.",
     ["inputs", "configurations", "histories"],
     "23 configurations x geometries x rotation laws against spectral solutions in shearing coordinates; ghost zones over phases of the shear; conservation on random states.",
     "The suite never builds with the shearing box or orbital advection.",
     ["src/bvals_shear.c", "src/integrators", "src/microphysics"],
     [("boundaries and flux/EMF remap", "src/bvals_shear.c: ShearingSheet_ix1, RemapEy, RemapFlux"), ("orbital advection", "src/bvals_shear.c: Fargo"), ("source terms", "src/integrators/integrate_*d_*.c SHEARING_BOX")],
     ENUM + "every configuration, geometry, rotation law and phase of the space run and compared with an independent spectral solution, displaced copies and exact totals",
     "Exhaustive over the listed configurations; short evolutions; accuracy bounds recorded from the method, 3% margin.")
prop("C18", "Cylindrical coordinates give the same physics as Cartesian ones",
     "A flow run in cylindrical coordinates (1-3 dimensions, full circle or wedge), in a fixed or rotating frame, with or without orbital advection, is the same flow as in Cartesian coordinates: every variable converges to the mapped Cartesian solution at the order of the method. "
     "Uniform components change only by the geometric, gravitational, Coriolis and orbital source terms of the equations at every radius, and mass, angular momentum, vertical momentum, energy, tracers and div B=0 "
     "are conserved exactly away from boundaries.",
     ["inputs", "configurations"],
     "26 configurations x dimensions x flows against spectral Cartesian solutions; source terms at every radius; totals of localised disturbances.",
     "The suite never builds with cylindrical coordinates.",
     ["src/integrators", "src/reconstruction", "src/bvals_shear.c", "src/microphysics", "src/utils.c"],
     [("geometric sources and area factors", "src/integrators/integrate_*d_*.c CYLINDRICAL"), ("reconstruction", "src/reconstruction/lr_states_*.c"), ("orbital advection", "src/bvals_shear.c: Fargo")],
     ENUM + "every configuration, dimension, flow and state of the space run and compared with the mapped Cartesian solution, the analytic source terms and exact totals",
     "Exhaustive over the listed configurations; short evolutions off the axis; accuracy bounds recorded from the method, 3% margin.")

prop("C15", "Particles move, push the gas and are counted exactly",
     "Particles move under gas drag (fixed stopping time, Epstein and general laws), user forces and the inertial forces of the shearing box (with and without orbital advection) along paths that converge to the exact ones for every particle "
     "integrator and interpolation scheme, in 1-3 dimensions. With feedback the gas receives exactly the opposite momentum and the dissipated energy; "
     "particles crossing a boundary are wrapped, reflected or removed as its condition says, and binned particle fields, particle lists and particle history hold exactly the selected particles at every output.",
     ["inputs", "configurations", "histories"],
     "14 configurations x geometries x integrators x interpolations x drag laws, every boundary combination with particles at every face, edge and corner heading every way, every selection of two outputs.",
     "The suite never builds with particles.",
     ["src/particles", "src/integrators", "src/output.c", "src/dump_history.c"],
     [("integrators", "src/particles/integrators_particle.c"), ("interpolation, drag and feedback", "src/particles/utils_particle.c"), ("boundaries", "src/particles/bvals_particle.c"), ("feedback exchange", "src/particles/exchange.c"),
      ("lists, binning, history", "src/particles/output_particle.c, dump_particle_history.c")],
     ENUM + "every configuration, integrator, interpolation, drag law and boundary event of the space; paths, momenta, positions and files compared with exact ones",
     "Exhaustive over the listed configurations and events; accuracy bounds recorded from the method, 3% margin.")
prop("C19", "Joining the files of a parallel run gives the file of the whole run",
     "Joining the per-process VTK, binary and particle-list files of a decomposed run with the tools in vis (join_vtk, join_bin, join_lis) yields exactly the file of the undivided run, for every decomposition in 1-3 dimensions, every order of the files, every set of fields "
     "and every data value. Files that do not belong together (missing, duplicate, of other sizes, times or variables) are refused with an error, and sort_lis orders particles by process and number without changing them.",
     ["inputs", "configurations"],
     "Every cut of small boxes into up to 3-4 pieces per axis x file orders x data patterns (bytes that look like text, white space, special values) and the dumps of real decomposed runs.",
     "The suite never runs the tools.",
     ["vis/vtk/join_vtk.c", "vis/matlab/join_bin/join_bin.c", "vis/particle/join_lis.c", "vis/particle/sort_lis.c"],
     [("VTK", "vis/vtk/join_vtk.c"), ("binary", "vis/matlab/join_bin/join_bin.c"), ("particle lists", "vis/particle/join_lis.c, sort_lis.c")],
     ENUM + "every cut, file order and data pattern of the space joined by the real tools and compared byte by byte with the whole",
     "Exhaustive over the listed cuts, orders and patterns; the tools are also run under the address sanitizer.")
prop("C20", "Shipped problems run the same in parallel and after a restart",
     "Every shipped problem generator in src/prob, run with its shipped input file, gives the same gas, field, particle and history data when its mesh is divided among processes (apart from per-process random perturbations), and when it is stopped "
     "at any step and restarted in the same number of processes: gravity, cooling, diffusion coefficients, boundary functions, history columns and particle properties set up by the problem are set up again.",
     ["histories", "configurations", "crash_points"],
     "82 set-ups of the shipped problems with their own physics, in 1 and 2-8 processes, stopped and restarted.",
     "The suite runs ten of these problems, serially and without interruption.",
     ["src/prob"],
     [("problem set-up", "src/prob/*.c: problem"), ("restart set-up", "src/prob/*.c: problem_read_restart")],
     ENUM + "every listed problem, decomposition and interruption point, compared with the undivided, uninterrupted run",
     "Exhaustive over the listed problems and cut points, small grids, 4 steps; problems that cannot be restarted at all are listed as known findings.")
prop("C21", "A failing file or allocation is reported and never corrupts a run",
     "A restart file that is incomplete (written only up to any byte, of any process) or was written by a program with other physics is refused with an error, never run from, hung on or crashed on, and a restart file that cannot be written completely stops the run with an error. "
     "When any output file cannot be created, any single memory allocation fails, or the parameter file ends early, the program ends with an error message or reports the failure and goes on with the other outputs intact; it never crashes, hangs or stays silent.",
     ["crash_points", "fault_sequences", "inputs"],
     "Every prefix of restart and parameter files, every disk-full point of the restart writer, every output file uncreatable in turn, every allocation failing in turn, every ordered pair of 9 configurations.",
     "The suite injects no faults and never restarts.",
     ["src/restart.c", "src/output.c", "src/par.c", "src/ath_array.c", "src/ath_files.c", "src/dump_history.c", "src/output_pdf.c"],
     [("restart reader and writer", "src/restart.c: restart_grids, dump_restart"), ("allocation", "src/ath_array.c"), ("outputs", "src/output*.c, src/dump_*.c")],
     ENUM + "every crash point, torn file, disk-full point, uncreatable file and failing allocation of the space injected into the real program",
     "Exhaustive over the fault points of the listed small runs, one fault per run.")
prop("C22", "Runs stay inside their memory and never depend on unset memory",
     "For every combination of physics, integrator and mesh, every grid shape (also one much longer in one direction than in the others), every refinement layout, decomposition, output format and restart, a run reads and writes only inside the arrays it allocated. "
     "No index, shift or conversion is undefined, nothing is used after it is freed, and the evolution and all files it writes do not depend on what unset memory happens to contain.",
     ["configurations", "inputs"],
     "51 physics and mesh configurations x grid shapes long in each direction in turn x serial and decomposed runs with all output formats and a restart.",
     "Tests look at results; an access just outside an array, or of an unset value, usually changes nothing visible.",
     ["src"],
     [("scratch arrays", "src/integrators, src/reconstruction, src/microphysics: *_init"), ("ghost zones and messages", "src/bvals_mhd.c, src/bvals_shear.c, src/smr.c, src/particles"), ("outputs", "src/output*.c, src/dump_*.c, src/restart.c")],
     ENUM + "every configuration and grid shape of the space executed under memory and undefined-behaviour monitors, and again with other fill patterns",
     "Exhaustive over the listed configurations and shapes, 2 steps and a restart each; reads of unset memory are seen only through their effect on the state or files.")
prop("C23", "A mesh layout is refused at start or becomes a consistent mesh",
     "For every layout of domains, refinement levels and decompositions an input file can describe, on every number of processes, all processes agree either to stop with an error or to build the mesh, and set-up never crashes; a layout that is malformed (empty or backwards box, gaps in the levels, refined domains that overlap each other, cut coarse cells, stick out of the box or of the coarser domain, or come too close to its edge, decompositions that do not fit the processes or divide cells of the parent) is refused, and a well-formed one is accepted. "
     "In an accepted mesh the grids tile each domain exactly once, with the requested sizes, positions, cell widths and decomposition, and each grid's neighbours are the grids that touch it. "
     "Where levels overlap, parent and child grid agree on the overlapping region, the faces to be corrected and the sizes of the messages they exchange, and no overlap is missing.",
     ["configurations", "inputs"],
     "About 40,000 layouts: root sizes, every position and size of one, two and nested refined domains in 1D and lattices of them in 2D and 3D, every decomposition up to 4 grids per direction on 1 to 18 processes, automatic decomposition on up to 36.",
     "The tests use one undecomposed root domain; a wrong overlap, neighbour or message size shows only for particular placements of domains and grids, and often only as a deadlock or as slightly wrong fluxes.",
     ["src/init_mesh.c", "src/init_grid.c", "src/smr.c"],
     [("layout checks and decomposition", "src/init_mesh.c: init_mesh, get_myGridIndex, dom_decomp"), ("grids and overlaps", "src/init_grid.c: init_grid, checkOverlap, checkOverlapTouch"), ("message buffers", "src/init_grid.c")],
     ENUM + "every layout of the space set up by the real init_mesh and init_grid as every rank in turn, and the data structures of all ranks compared with the layout's geometry and with each other",
     "Exhaustive over the listed lattices of layouts; layouts with grids narrower than their ghost zones are only required not to crash and to be consistent when accepted.")
