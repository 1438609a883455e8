#!/usr/bin/env python3
"""Writes properties.jsonl. The table below is the source; the .jsonl is what others read."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

M = "src/teufel_hybrid.cpp"
p("C01", "Tracking results do not depend on how many nodes track the beam",
  "For one input and one initial particle distribution, every watch file, parameter log and trajectory log is the same number for number whether the beam is tracked by one node or distributed over any number of nodes (including more nodes than particles), and whatever the relative speed of the nodes. Particles appear in these files once each and in the order of the input.",
  ["configurations", "schedules", "inputs"],
  "all node counts, particle counts and bunch structures, all arrival orders and delays of the nodes at the exchanges between them",
  "The repository's tests run the main program on a single node only; the distribution/gather code with more than one node, uneven shares and empty nodes is never run, and no test controls the order in which nodes arrive.",
  [M, "src/beam.cpp", "src/bunch.cpp", "src/particle.cpp", "src/logger.cpp"],
  [("contiguous distribution of the particles in chunks of ceil(NOP/nodes)", M + ": re-distribute all particles into one bunch per node"),
   ("MPI_Allgather of the step buffers and update of the master beam on every node", M + ": tracking loop"),
   ("bufferStep/setStepFromBuffer", "src/bunch.cpp")],
  ["watch files (HDF5 'electrons', SDDS)", "parameter log (SDDS)", "trajectory log (HDF5 'Trajectories')"])

p("C02", "Recorded beam radiation does not depend on the number of nodes",
  "For one input and one initial particle distribution, the field values written by every screen, snapshot, mesh and point observer of the beam are the sum over all particles, each particle counted exactly once, independent of the number of nodes up to the rounding of the summation.",
  ["configurations", "schedules", "inputs"],
  "all node counts, particle/node ratios, observer kinds and sizes, all orders in which nodes reach the reduction and all orders of the summation",
  "No test writes an observer file from a multi-node run; a lost or doubled contribution shows only when particles are split over nodes.",
  [M, "src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/point_observer.cpp", "src/particle.cpp"],
  [("integration of each node's own particles followed by MPI_Reduce(SUM)", M + ": compute all observations"),
   ("getBuffer/fromBuffer of every observer", "src/screen.cpp, src/snapshot.cpp, src/mesh.cpp, src/point_observer.cpp")],
  ["observer output files (ElMagField / Ex..Bz)"])

p("C03", "Recorded lattice fields do not depend on the number of nodes",
  "An observer that records the external (lattice) fields writes the value of the lattice field itself, independent of the number of nodes taking part in the run and of their relative speed.",
  ["configurations", "schedules", "inputs"],
  "all node counts, observer kinds (screen, snapshot, mesh, point) and lattice contents",
  "No test records lattice fields from a multi-node run; with one node a missing or repeated contribution cannot be seen.",
  [M, "src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/point_observer.cpp", "src/fields.cpp"],
  [("Observer<Lattice> integration and reduction", M + ": compute all observations"),
   ("removal of interaction fields from the lattice before observation", M + ": we remove all interaction fields from the lattice")],
  ["observer output files with source=\"lattice\""])

p("C04", "All nodes track through the same self-consistent interaction field",
  "With FEL interactions present every node computes the identical interaction field history from the whole beam at every step, so the logged field and current density and all particle coordinates are the same for any number of nodes and any relative speed of the nodes. The interaction is advanced exactly once per tracking step.",
  ["configurations", "schedules", "inputs"],
  "all node counts and arrival orders, seeded and unseeded fields, one or several interactions",
  "The FEL tests run on one node, where the replicas of the field cannot diverge.",
  [M, "src/fel1d.cpp", "src/beam.cpp"],
  [("every node steps its replica from the gathered master beam", M + ": compute the interactions on all nodes independently"),
   ("FEL_1D::init / FEL_1D::step time consistency checks", "src/fel1d.cpp")],
  ["FEL log file (InteractionField, CurrentDensity)", "watch files", "process outcome (time mismatch exception)"])

p("C05", "All nodes adopt one common random initial distribution without loss",
  "Although every node draws its own random numbers while reading the input, all nodes track the one distribution drawn by the root node: the initial watch file, the later ones and the radiation all belong to the same set of particles. The number of particles, their order and the total charge are those of the input, for any number of nodes.",
  ["schedules", "configurations", "inputs"],
  "all sequences of per-node random draws, node counts, bunch structures",
  "The distributions are seeded from the hardware; tests neither control the entropy nor run several nodes drawing different numbers.",
  [M, "src/bunch.cpp", "src/parser.cpp", "src/beam.cpp"],
  [("MPI_Bcast of the root's step-0 buffer to all nodes", M + ": broadcast the masterBeam to all nodes"),
   ("Distribution::generateGaussian", "src/bunch.cpp")],
  ["watch files at step 0 and later", "trajectory log", "console summary of particle number and charge"])

p("C06", "Field recordings do not depend on the threads of a node",
  "Fields recorded by screen, snapshot and mesh observers are identical bit for bit for every number of threads per node and for every interleaving of these threads.",
  ["schedules", "configurations", "inputs"],
  "all thread counts and all interleavings, down to single memory accesses, of the parallel field integration",
  "Tests run whatever interleaving the machine produces with one fixed small problem; a lost update between threads is hit rarely and not reproducibly.",
  ["src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/particle.cpp", "src/fieldtrace.cpp"],
  [("OpenMP work sharing over disjoint cells, atomic progress counter", "src/screen.cpp, src/snapshot.cpp, src/mesh.cpp: integrate()")],
  ["observer output files"])

p("C07", "The propagate tool computes the same fields for every thread schedule",
  "For given source and target screens the file written by the propagate tool is identical bit for bit for every number of threads and every interleaving of the threads, and every target cell is computed.",
  ["schedules", "configurations", "inputs"],
  "all thread counts and all interleavings of both parallel sections; all mesh sizes relative to the thread count",
  "There is no test of the propagate executable at all.",
  ["src/propagate.cpp", "src/mesh.cpp", "src/fieldtrace.cpp"],
  [("parallel loops over source cells (normal derivatives) and target cells (propagation)", "src/propagate.cpp")],
  ["output file of the tool", "console report"])

p("C08", "The reflection tool computes the same fields for every thread schedule",
  "For given source, mirror and target screens the files written by the reflection tool are identical bit for bit for every number of threads and every interleaving of the threads, and every cell is computed.",
  ["schedules", "configurations", "inputs"],
  "all thread counts and all interleavings of the parallel sections; all mesh sizes relative to the thread count",
  "There is no test of the reflection executable at all.",
  ["src/reflection.cpp", "src/mesh.cpp", "src/fieldtrace.cpp"],
  [("parallel loops over cells", "src/reflection.cpp")],
  ["output files of the tool", "console report"])

p("C09", "Watches and logs record exactly the requested steps of the whole beam",
  "A watch point written for step k holds the coordinates all particles have after exactly k tracking steps, and a log with step interval m holds one record for the initial state and one for every m-th step in order, each with the values the beam had at that step; step numbers mean the same thing in all of these files. This holds for any number of nodes, any relative speed of the nodes and any combination of watches and logs.",
  ["configurations", "schedules", "inputs"],
  "all combinations of watch steps, log intervals, file formats, node counts and arrival orders",
  "Tests look at single files of single-node runs for one choice of steps; they do not compare the different outputs of one run with each other or with an independent step-by-step history.",
  [M, "src/logger.cpp", "src/logger.h", "src/beam.cpp", "src/bunch.cpp", "src/parser.cpp"],
  [("watch handling before and inside the tracking loop", M), ("log_requested / update / WriteData", "src/logger.h, src/logger.cpp")],
  ["watch files", "parameter log", "trajectory log", "probe log"])

p("C10", "Every run of a valid input finishes on all nodes",
  "For valid input every node reaches the end of the run, for any number of nodes and threads and any relative speed of the nodes: all nodes take part in the same sequence of collective exchanges with matching sizes, none waits for ever, the finish message is printed exactly once and the process status is success.",
  ["schedules", "configurations", "inputs"],
  "all valid inputs (including empty shares, no particles, zero steps, no observers), node counts, orders and delays",
  "A mismatch between nodes or a wait that never ends depends on node count and arrival order; tests use one node.",
  [M, "src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/point_observer.cpp"],
  [("barriers and collectives called by all nodes unconditionally", M)],
  ["process outcome of every node", "console output", "sequence of collective operations"])

p("C11", "Clocks and the state of the host never influence results",
  "No value written to any output file depends on the clocks of the nodes or on what the operating system reports about the host: clocks that differ between nodes, jump forwards or backwards, or run slowly only affect progress messages, and unusual or missing memory statistics neither change nor stop a run.",
  ["fault_sequences", "schedules", "configurations"],
  "all sequences of clock jumps and skews at any clock query; all sizes of memory and presence or absence of the statistics",
  "Tests cannot set the clock or the memory size of the machine and never run long enough for the time-triggered progress reports.",
  [M, "src/global.cpp", "src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/propagate.cpp", "src/reflection.cpp"],
  [("time only used for progress prints every 30/60 s", "src/teufel_hybrid.cpp, src/screen.cpp, src/snapshot.cpp, src/mesh.cpp"),
   ("memory report from /proc", M)],
  ["all output files", "process outcome"])

p("C12", "A failed output is never reported as written",
  "If creating, writing or closing an output file fails at any point (full disk, I/O error, refused access), the run either reports an error for that file or ends with a failure status, and it never announces that file as successfully written while its content is missing or incomplete.",
  ["fault_sequences", "crash_points", "inputs"],
  "all output files, all positions of the failing operation, all error kinds and persistent as well as transient failures",
  "Tests only write to a healthy disk.",
  [M, "src/beam.cpp", "src/logger.cpp", "src/fel1d.cpp", "src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/point_observer.cpp", "src/propagate.cpp", "src/reflection.cpp"],
  [("status checks after every HDF5/SDDS call", "all writers"), ("try/catch around generateOutput", M), ("return codes of the watch point writers", "src/beam.cpp")],
  ["console messages", "process outcome", "content of the output files"])

p("C13", "One failing output does not spoil the others",
  "If writing one watch point, log or observer file fails, the tracking and all other output files of the run are complete and identical to those of an undisturbed run.",
  ["fault_sequences", "inputs", "configurations"],
  "all choices of the failing file and failing operation, all combinations of outputs, all node counts",
  "Tests only write to a healthy disk.",
  [M, "src/beam.cpp", "src/logger.cpp", "src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/point_observer.cpp"],
  [("exceptions of generateOutput are caught and the loop over observers continues", M),
   ("watch point and log writers return a status instead of stopping the run", "src/beam.cpp, src/logger.cpp")],
  ["all output files of the run", "process outcome"])

p("C14", "Announced output survives a kill of the run",
  "Once the run has announced an output file as written, that file is complete and readable on disk, even if the job is killed at any later instant.",
  ["crash_points", "schedules", "inputs"],
  "all kill points after the announcement, all output kinds, all node counts",
  "Tests read the files after a normal end of the process, when every buffer has been flushed by the exit handlers.",
  [M, "src/beam.cpp", "src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/point_observer.cpp", "src/logger.cpp", "src/fel1d.cpp"],
  [("all handles closed and the file closed before the message", "writers in src/*.cpp")],
  ["files left on disk after the kill", "console output up to the kill"])

p("C15", "A failing node never leads to a result that looks complete",
  "If any node fails at any time - killed, out of memory, or stopped by an error - the run ends as a failure: it terminates, does not print the finish message, and no file written after the failure contains results in which the contribution of that node is missing.",
  ["crash_points", "fault_sequences", "schedules"],
  "all nodes, all times of the failure, all failing allocations, all orders of the remaining nodes",
  "Tests do not kill nodes or fail allocations.",
  [M, "src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/point_observer.cpp", "src/fel1d.cpp"],
  [("uncaught exceptions end the node; MPI ends the job", M), ("collectives need all nodes", M)],
  ["process outcome", "console output", "output files"])

p("C16", "Unreadable input stops the run instead of dropping data silently",
  "If an input file (description, SDDS bunch, source screen, mesh) cannot be read completely by any one of the nodes, or is truncated, the run ends as a failure or reports the error and still writes results that agree with the data it reported to have read; nodes never continue with different beams or lattices. A run that is not given the files it needs says so, fails on all nodes and writes nothing, and so does a run whose description lacks something essential.",
  ["fault_sequences", "inputs", "configurations"],
  "all input files, failing nodes, failing operations and truncation points",
  "Tests only read healthy files and from one node.",
  [M, "src/parser.cpp", "src/bunch.cpp", "src/source_screen.cpp", "src/mesh.cpp"],
  [("status checks after every read", "src/source_screen.cpp, src/mesh.cpp, src/bunch.cpp"), ("every node reads the input itself", M)],
  ["process outcome", "console output", "output files"])

p("C17", "Runs never touch memory they do not own or depend on stale memory",
  "In every run, whatever the node count, thread schedule and injected failure, no node reads or writes outside the objects it has allocated or after it has released them, no exchange overruns the buffer given to it, and no result depends on what freshly allocated memory happened to contain.",
  ["schedules", "configurations", "fault_sequences", "inputs"],
  "all node and thread counts, particle counts, observer sizes, contents of fresh memory and error paths",
  "An overrun or stale read usually goes unnoticed on the one configuration a test runs.",
  [M, "src/beam.cpp", "src/bunch.cpp", "src/fieldtrace.cpp", "src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/point_observer.cpp", "src/logger.cpp", "src/source_screen.cpp", "src/fel1d.cpp"],
  [("buffer size computations for exchanges and file output", "all of the above")],
  ["memory accesses", "heap blocks", "output files under different fills of fresh memory"])

p("C18", "Snapshots list every particle of the whole beam exactly once",
  "The particle coordinates stored with a snapshot of the beam contain every particle of the whole beam exactly once at the snapshot time, in the order of the input and independent of the number of nodes and of their relative speed.",
  ["configurations", "schedules", "inputs"],
  "all node counts, bunch structures, snapshot times inside the tracked interval",
  "No test writes a snapshot from a multi-node run; on one node the tracked share and the whole beam are the same.",
  [M, "src/snapshot.cpp", "src/beam.cpp", "src/particle.cpp"],
  [("storeParticlePositions from the master beam after the reduction", M + ", src/snapshot.cpp")],
  ["snapshot files (ParticleCoordinates)"])

p("C19", "Nodes starting together share files without disturbing each other",
  "Nodes of one run may read the same input files and run through their start-up in any order and at any relative speed; no node disturbs another by the files it opens, writes or locks, and every run of a valid input with source screens starts on any number of nodes.",
  ["schedules", "configurations"],
  "all interleavings of the file operations of all nodes, node counts",
  "Tests use one node, where no other node can hold a file.",
  ["src/source_screen.cpp", "src/parser.cpp", "src/mesh.cpp", M],
  [("per-node reading of the screen and mesh files", "src/source_screen.cpp, src/mesh.cpp"), ("diagnostic files written while setting up a source screen", "src/source_screen.cpp")],
  ["process outcome of every node", "diagnostic files"])

p("C20", "A killed or failed run can be repeated in its directory",
  "Whatever a run leaves behind when it is killed, loses a node, or cannot write its files, its input files are still intact, and running the same input again in the same directory gives exactly the results of a run in a fresh directory. This includes observers on a mesh, which are written back to the file the mesh was read from.",
  ["crash_points", "fault_sequences", "schedules"],
  "all kill points of the job or of one node, all failing output operations and disk capacities in the first run, all schedules of both runs",
  "Tests never interrupt a run and always start from clean inputs.",
  ["src/mesh.cpp", M, "src/logger.cpp", "src/beam.cpp", "src/screen.cpp", "src/snapshot.cpp", "src/point_observer.cpp", "src/fel1d.cpp", "src/source_screen.cpp"],
  [("output files are created anew", "H5Fcreate(TRUNC), SDDS_InitializeOutput in all writers"), ("a mesh file is replaced only when it is complete", "src/mesh.cpp: writeFile()"), ("fields of an earlier run are cleared before integration", "src/mesh.cpp: integrate()")],
  ["input files after the interrupted run", "output files of the repeated run", "process outcome"])

p("C21", "Requested outputs do not influence each other or the tracking",
  "Every watch, log and observer of a run writes exactly what it would write if it were the only output requested from this run, and the order in which watches and observers are requested does not matter - for any number of nodes, threads and any relative speed of the nodes.",
  ["configurations", "schedules", "inputs"],
  "all combinations and orders of outputs, node and thread counts, arrival orders",
  "Tests look at one fixed set of outputs at a time and never compare runs with different sets.",
  [M, "src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/point_observer.cpp", "src/logger.cpp", "src/beam.cpp", "src/parser.cpp"],
  [("loop over the observers with separate buffers", M + ": compute all observations"), ("watch handling and log updates inside the tracking loop", M)],
  ["all output files"])

p("C22", "The printed report describes the whole run for any number of nodes",
  "The report on the console states input summary, particle number and charge, every watch, log and observer once per run with the same values for any number of nodes; every node reports its own share once, the shares add up to the whole beam, no node tracks more than its share of the particles (rounded up), and the number of particles reported as written to a watch is that of the whole beam.",
  ["configurations", "schedules"],
  "all node counts, particle numbers and relative speeds of the nodes",
  "Tests do not look at the report of a run with several nodes.",
  [M, "src/parser.cpp", "src/beam.cpp", "src/logger.cpp", "src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp"],
  [("output guarded by the rank of the node", M), ("share of the beam reported by every node", M + ": re-distribute all particles")],
  ["console output of every node"])

p("C23", "Fields written by one run are read back unchanged by the next",
  "A screen recorded by one run and used as a source screen in another one, and a mesh written by teufel, propagate or reflection and used as source of propagate or reflection, act exactly like the recorded fields on the requested geometry and time grid - for any number of nodes that wrote or read the file, and also when the screen went through scripts/screen.py in between, which sees that geometry, time grid and field.",
  ["histories", "configurations", "schedules", "inputs"],
  "all sequences of a writing and a reading run, geometries, time grids, node and thread counts of both",
  "Tests read hand-made input files or look at single written files; no test passes a written file on to another run.",
  ["src/screen.cpp", "src/source_screen.cpp", "src/mesh.cpp", "src/propagate.cpp", "src/reflection.cpp", "scripts/screen.py"],
  [("geometry and timing stored with the fields of a screen", "src/screen.cpp: WriteTimeDomainFieldHDF5()"), ("source screen read from a file", "src/source_screen.cpp: SourceScreen()"), ("mesh read and written", "src/mesh.cpp: MeshedScreen(), writeFile()")],
  ["output files of the second run", "process outcome"])

p("C24", "Files are open only while they are used",
  "A run needs only a handful of simultaneously open files per node, no matter how many input files, source screens, watches, logs and observers it has; when the number of open files a node may have is limited, a run with many files writes exactly what it writes without that limit.",
  ["fault_sequences", "configurations", "schedules"],
  "all numbers and kinds of files, node counts and schedules under a limit of the open files per node",
  "Tests use a few files each and never run under a limit.",
  ["src/bunch.cpp", "src/source_screen.cpp", "src/mesh.cpp", "src/screen.cpp", "src/snapshot.cpp", "src/point_observer.cpp", "src/logger.cpp", "src/beam.cpp", "src/fel1d.cpp", M],
  [("H5Fclose and the handles that keep a file open", "all HDF5 readers and writers"), ("SDDS_Terminate", "src/bunch.cpp, src/logger.cpp, src/point_observer.cpp")],
  ["output files", "process outcome"])

p("C25", "Random bunches are fresh samples of the requested distribution",
  "Whatever the random source delivers, the particles of a bunch are independent samples of the distribution requested in the input (mean position and momentum, Gaussian or flat-top spreads, linear correlations applied in their order, no spread where none is requested), and the samples of different coordinates, particles, bunches and runs are statistically independent of each other - for any number of nodes and any state of the clocks.",
  ["histories", "configurations", "schedules"],
  "all outcomes of the random source, bunch descriptions, node counts and clocks",
  "A test sees one draw and cannot tell a sample from a repeated, correlated or clipped one; relations between coordinates, bunches and runs show only over many draws.",
  ["src/bunch.cpp", "src/bunch.h", "src/parser.cpp", M],
  [("Distribution", "src/bunch.cpp: Distribution(), generateGaussian(), scale(), addCorrelation()"), ("distribution described in the input", "src/parser.cpp: parseBeam()"), ("broadcast of the beam", M)],
  ["watch file of the initial step"])

p("C30", "Particles follow the relativistic equation of motion",
  "Whatever particles and nodes take part, each particle starts at the time, place and momentum given in the input and follows the relativistic trajectory of its own charge-to-mass ratio in the fields of the lattice, with an error that vanishes as the square of the time step; in a pure magnetic field its energy is conserved, without fields it flies straight.",
  ["inputs", "configurations", "schedules"], "all particles, homogeneous fields, time steps, node counts and schedules",
  "Tests check a few fields at fixed step sizes with one particle on one node.",
  ["src/particle.cpp", "src/fields.cpp", "src/beam.cpp", "src/bunch.cpp", M], [("Vay pusher", "src/particle.cpp: InitVay/StepVay"), ("tracking loop", M)], ["watch files"])

p("C35", "SDDS bunches are placed into the beam as the file and the direction say",
  "Particles read from SDDS files enter the run in the order of the file at t=0 with the share of the charge, the momentum, the angles and the offsets of the file, in an orthonormal system with the third axis along the requested direction (x in the x-z plane if the direction is, x to x and y to -y for the default direction z), moved along their own directions by the difference of their arrival time to the mean; linear correlations are applied in their order; on every number of nodes.",
  ["inputs", "configurations", "schedules"], "all files, directions, correlations, combinations of bunches, node counts and schedules",
  "One test reads one file on one node.",
  ["src/bunch.cpp", "src/parser.cpp", M], [("Bunch(const char*, Vector)", "src/bunch.cpp"), ("addCorrelation", "src/bunch.cpp"), ("parseBeam <SDDS>", "src/parser.cpp")], ["watch files"])

p("C33", "Numbers in the input mean what their expressions say, on every node",
  "Every number in the input - real or integer - may be written as an expression of numbers, the documented constants and the variables defined before by <calc>: the run is then, on every node, exactly the run with the values themselves, and the values of printed variables are right and printed by the root node only. A number that cannot be evaluated (malformed, or using an unknown or not yet defined variable) is reported as an error or stops the run; it is never replaced silently.",
  ["inputs", "programs", "configurations", "schedules"],
  "all input files, positions in them, expressions, definitions, node counts and schedules",
  "Tests use a handful of expressions for a few real numbers, on one node.",
  ["src/parser.cpp", "src/fel1d.cpp", "src/undulator.cpp", M],
  [("InputParser::parseDouble/parseInt/parseCalc", "src/parser.cpp"), ("every node evaluates the input itself", M)],
  ["process outcome", "console output", "output files"])

# ---- properties for which this technique has no purchase -------------------------
p("C31", "Radiated fields are the retarded fields of the stored trajectories",
  "The field a particle contributes at an observation point and time is the Lienard-Wiechert field of its stored trajectory at the retarded time, zero outside the stored interval, and integrated traces conserve the time integral of the field.",
  ["inputs"], "all trajectories, observation points and time grids",
  "Tests check single electrons at a few points.",
  ["src/particle.cpp", "src/fieldtrace.cpp"], [("RetardedTime/RetardedField/integrateFieldTrace", "src/particle.cpp")], ["observer fields"])
p("C32", "Lattice elements produce the fields of their specification",
  "Every lattice element (undulators, dipoles, waves, background) produces the documented field at every point and time and nothing outside its extent; fields of several elements add linearly.",
  ["inputs"], "all element parameters, positions and times",
  "Tests sample one parameter set per element.",
  ["src/undulator.cpp", "src/dipole.cpp", "src/wave.cpp", "src/fields.cpp"], [("Field(t, X)", "each element")], ["Field values"])
p("C34", "Field traces resample, retard and transform without distortion",
  "Arithmetic, interpolation, retardation, rotation and differentiation of field traces are linear and consistent with each other on the common time interval, and report an error rather than a value outside of it.",
  ["inputs"], "all traces, time grids and shifts",
  "Tests check one trace.",
  ["src/fieldtrace.cpp"], [("FieldTrace operations", "src/fieldtrace.cpp")], ["trace values"])
p("C36", "Mesh geometry is consistent with the triangles in the file",
  "Cell centres, areas, normals and neighbourhoods of a meshed screen are those of the triangles in the file for every mesh.",
  ["inputs"], "all meshes",
  "Tests use one mesh.",
  ["src/mesh.cpp"], [("MeshedScreen::init", "src/mesh.cpp")], ["geometry accessors", "output files"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties")
