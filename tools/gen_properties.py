"""Writes /verif/properties.jsonl (kept as code so anchors are easy to maintain)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Every result reflects the current settings, never the session's history",
  "After any sequence of setting changes, computations, crops and file outputs, each result a calculation session returns or writes (projections, power spectra, peak fits, renormalized force constants, bands, thermal and displacement data) equals what a fresh session over the same trajectory returns when it is given the same settings and asked only for that result. Asking for a result changes no setting (the documented automatic frequency range of quasiparticle computations excepted), and asking twice gives the same answer.",
  ["histories", "configurations"],
  "for every interleaving of setting operations and result requests on one session, over every setting value and starting configuration",
  "Tests run one fixed linear sequence (set, compute once, compare); none changes a setting after a result was computed, so stale caches, results cached under the wrong key, in-place mutation of shared arrays and settings left changed are never exercised.",
  ["dynaphopy/__init__.py", "dynaphopy/dynamics.py", "dynaphopy/projection.py", "dynaphopy/power_spectrum/__init__.py"],
  [("cached results and the clear operations called by setters", "dynaphopy/__init__.py:64"),
   ("temporary wave-vector changes inside computations", "dynaphopy/__init__.py:773"),
   ("trajectory-level caches and crop", "dynaphopy/dynamics.py:63")],
  ["return values and output files of the session's public operations", "settings reported by the session"],
  [("cached spectra/projections", "results memoised per session", "dynaphopy/__init__.py:31"),
   ("trajectory caches", "velocity, displacement, mean displacement matrix", "dynaphopy/dynamics.py:25")])

p("C02", "An interrupted or failing computation leaves no trace",
  "If a computation is interrupted or fails part-way (user interrupt, memory exhaustion, failure of a library call, failed output write), the error reaches the caller, and the wave vector, algorithm, fitting, projection, resolution and display settings are what they were before the call (a frequency range may already be the automatic one). Once the fault is gone, repeating the request, or making any other, gives the same result as in a session where nothing ever failed.",
  ["fault_sequences", "histories", "crash_points"],
  "for every point inside every computation at which a fault can strike, every kind of fault, and every later sequence of requests",
  "No test makes anything fail; the code temporarily rewrites user settings and fills caches piecemeal while computing, so only faults inside those windows show lost settings or half-built caches.",
  ["dynaphopy/__init__.py", "dynaphopy/dynamics.py"],
  [("wave vector set and restored around symmetry loops", "dynaphopy/__init__.py:773"),
   ("wave vector and frequency range set in the commensurate loop", "dynaphopy/__init__.py:1092"),
   ("display mode switched off and on around the temperature fit", "dynaphopy/__init__.py:1078")],
  ["settings reported after the failed call", "results of later calls"])

p("C03", "Calculations side by side in one process do not disturb each other",
  "When several trajectories and calculations, over the same or different crystals, are open in one process, with or without memory mapping, and their operations are interleaved in any order, each returns the same results as it would alone under the same settings. Creating, cropping, computing on or releasing one never changes the data, structure or results of another.",
  ["schedules", "histories"],
  "for every interleaving of operations of several concurrently open calculations and every order of creation and release",
  "Each test uses one calculation at a time; shared temporary files, shared or module-level caches and structures mutated in place only show with two alive at once.",
  ["dynaphopy/dynamics.py", "dynaphopy/__init__.py", "dynaphopy/interface/iofile/__init__.py", "dynaphopy/interface/iofile/trajectory_parsers.py", "dynaphopy/atoms.py"],
  [("per-trajectory arrays and temporary files", "dynaphopy/dynamics.py:139"), ("structure caches", "dynaphopy/atoms.py:1")],
  ["results of every live calculation"])

p("C04", "Memory-mapped operation gives the same data and results as in-memory",
  "For every trajectory source, reading window, number of last steps and sequence of requests, working with memory mapping switched on gives the same coordinates, velocities, displacements, time axis, projections, spectra and displacement parameters as working in memory.",
  ["histories", "configurations", "inputs"],
  "for every source format, window, crop and order of requests",
  "Memory mapping is only switched on in tests with a fixed hdf5 file, one window and no crop; file-format readers in this mode, crops and short files are never run.",
  ["dynaphopy/dynamics.py", "dynaphopy/interface/iofile/trajectory_parsers.py", "dynaphopy/interface/iofile/__init__.py"],
  [("mapped array creation in readers", "dynaphopy/interface/iofile/trajectory_parsers.py:257"), ("mapped derived arrays", "dynaphopy/dynamics.py:139"), ("crop", "dynaphopy/dynamics.py:63")],
  ["arrays and results returned in both modes"])

p("C05", "Temporary files are private, confined and cleaned up",
  "Temporary mapping files are created only in the configured temporary directory (the working directory when none is usable), never overwrite, truncate or delete a file the trajectory did not create, and are never shared by two live trajectories. Every temporary file is gone once the trajectory that created it has been released, in whatever order trajectories are used, cropped and released, and failing to delete one does not keep the others from being deleted.",
  ["schedules", "histories", "fault_sequences"],
  "for every interleaving of creation, use, crop and release of mapped trajectories, including leftovers of earlier processes and failing deletions",
  "Tests never look at the files, keep one mapped trajectory at a time, and inject no failing deletion and no leftover file.",
  ["dynaphopy/dynamics.py", "dynaphopy/interface/iofile/trajectory_parsers.py"],
  [("temporary file naming", "dynaphopy/dynamics.py:141"), ("clean-up on release", "dynaphopy/dynamics.py:51")],
  ["directory contents before, during and after each history"])

p("C06", "A truncated or growing trajectory file never yields wrong frames",
  "Reading a trajectory file that is cut at any byte (crashed or still running simulation, copy in progress), or that grows while it is read, either ends in an error or gives exactly the leading complete frames, with times for just these frames; an incomplete last frame is never padded, merged or replaced by other data. If at least one complete frame is present and the cut falls inside a later frame, the complete frames before it are delivered.",
  ["crash_points", "fault_sequences", "schedules", "inputs"],
  "for every byte at which the writer stopped, every growth schedule between the reader's file accesses, for every supported trajectory format, in both memory modes",
  "Tests read two complete, unchanging files.",
  ["dynaphopy/interface/iofile/trajectory_parsers.py", "dynaphopy/interface/iofile/__init__.py"],
  [("frame loop and its error exit", "dynaphopy/interface/iofile/trajectory_parsers.py:290"), ("format detection", "dynaphopy/interface/iofile/__init__.py:150")],
  ["coordinates, times and frame count of the returned trajectory"])

p("C07", "Reading windows select exactly the requested steps in every format",
  "Reading steps from a first to a last step, with or without keeping only the last steps, gives exactly those steps of the file in file order (all that exist when the file is shorter), with a time axis of the same length and the file's time spacing, whatever the trajectory format, velocity or position content, and memory mode. Every per-step quantity returned (coordinates, velocities, energies, times) covers the same steps.",
  ["inputs", "configurations", "histories"],
  "for every trajectory length, window, crop and history of later crops, for every supported format including saved hdf5 data, while the file is complete or still growing",
  "Tests read whole files only; no window option is exercised for the text formats and the time axis is never compared.",
  ["dynaphopy/interface/iofile/trajectory_parsers.py", "dynaphopy/interface/iofile/__init__.py", "dynaphopy/dynamics.py", "dynaphopy/__init__.py"],
  [("window counters in the readers", "dynaphopy/interface/iofile/trajectory_parsers.py:312"), ("hdf5 slicing", "dynaphopy/interface/iofile/__init__.py:640"), ("crop", "dynaphopy/dynamics.py:63")],
  ["frames and time axis delivered to the calculation"])

p("C08", "Saved data reloads unchanged and a restarted analysis gives the same results",
  "Trajectory, velocity or wave-vector-projected data saved to hdf5, reloaded in a new process (any number of times, whole or by window, or after concatenating several saved files), is the data that was saved, in order and with matching times, and every analysis run on it gives the same output as the analysis run on the original trajectory. If the process dies or the disk fails during a save, a later load either fails or gives exactly the data being saved.",
  ["crash_points", "histories", "fault_sequences"],
  "for every chain of save, crash, reload, window, concatenate and analysis steps over command-line and programmatic use",
  "Tests load one pre-made hdf5 file; saving, concatenating, projected-velocity restart and crashes during a save are never run.",
  ["dynaphopy/interface/iofile/__init__.py", "dynaphopy/__init__.py", "scripts/concath5", "scripts/dynaphopy"],
  [("hdf5 save and load", "dynaphopy/interface/iofile/__init__.py:610"), ("concatenation", "scripts/concath5:72"), ("restart from projected velocity", "scripts/dynaphopy:330")],
  ["contents of reloaded data", "output files of both routes"])

p("C09", "A failing disk never yields silently incomplete or wrong output",
  "When a write, flush or close of any output (spectra, projections, displacements, quasiparticle, mesh and band data, force constants, structure and hdf5 files) fails (disk full, I/O error) the operation raises an error rather than reporting success; when the system merely completes writes partially or has to retry them, the file is byte for byte what a healthy disk would hold. A failed save leaves the in-memory results and settings usable, and saving again once the disk works gives the correct file.",
  ["fault_sequences", "crash_points"],
  "for every output operation, every write at which the disk fails or writes short, and every failing error code",
  "No test writes with a failing disk and most output writers are never run by a test.",
  ["dynaphopy/interface/iofile/__init__.py", "dynaphopy/__init__.py", "dynaphopy/interface/phonopy_link.py"],
  [("curve writer", "dynaphopy/interface/iofile/__init__.py:523"), ("hdf5 writer", "dynaphopy/interface/iofile/__init__.py:610"), ("yaml writers", "dynaphopy/interface/iofile/__init__.py:690"), ("session output operations", "dynaphopy/__init__.py:1016")],
  ["outcome of the save call", "file bytes"])

p("C10", "Parallel spectrum kernels do not depend on thread count or interleaving",
  "The direct Fourier and maximum entropy power spectra of given data are the same for any number of threads, any assignment of work to threads and any interleaving of their memory accesses, and equal the single-threaded result.",
  ["schedules"],
  "for every number of threads (also more threads than frequencies), every interleaving of the threads' memory accesses, and every input shape",
  "The tests run whatever schedule the machine gives, with loose tolerances, and mostly use another algorithm; a shared scratch variable or an unprotected accumulation can pass thousands of runs.",
  ["c/correlation.c", "c/mem.c", "dynaphopy/power_spectrum/__init__.py"],
  [("parallel loop with private scratch", "c/correlation.c:146"), ("parallel loop with private scratch", "c/mem.c:151")],
  ["spectra returned by the native kernels"])

p("C11", "Results never depend on stale memory contents, and native code stays in bounds",
  "Every result is a function of its inputs alone: it does not change with the previous contents of the memory it allocates, with earlier calls, or with what else is on the heap. The native kernels read and write only memory they own, leave their inputs unmodified, and release everything they allocate on every path including rejected input, so that any number of calls runs in bounded memory.",
  ["schedules", "histories", "inputs"],
  "for every sequence of native kernel calls and Python-level computations, every heap content, input layout and type, and every early-exit path",
  "Tests call each kernel a few times in a fresh process where the heap happens to be benign, and never look at memory.",
  ["c/mem.c", "c/correlation.c", "c/displacements.c", "dynaphopy/dynamics.py", "dynaphopy/projection.py"],
  [("work arrays of the linear-prediction recursion", "c/mem.c:199"), ("work arrays of the minimum image conversion", "c/displacements.c:126"), ("uninitialised array creation", "dynaphopy/dynamics.py:144")],
  ["kernel results under different heap contents", "allocator accounting"])

p("C12", "Running out of memory in a native kernel is an error, never a crash",
  "If memory for the data-sized work or result arrays of a native kernel cannot be obtained, the call raises an error to the caller, releases everything it had obtained, leaves its inputs unchanged, and a later call with memory available gives the correct result.",
  ["fault_sequences"],
  "for every allocation of data-dependent size inside a kernel call failing, alone or together with later ones, in any sequence of calls",
  "Allocation failure never happens in the tests.",
  ["c/mem.c", "c/correlation.c", "c/displacements.c"],
  [("allocation of work arrays", "c/mem.c:137"), ("result array allocation", "c/correlation.c:136"), ("result and pointer array allocation", "c/displacements.c:114")],
  ["exception or result of the call", "allocator accounting"])

p("C13", "Engine-coupled trajectories follow each atom whatever the engine's storage order",
  "A trajectory produced by driving the molecular dynamics engine gives, for every recorded step and every atom of the crystal supercell, the position and velocity of that same physical atom at that step, however the engine orders or re-orders its atoms between steps and whatever its initial atom numbering. Requested duration, sampling interval, relaxation, temperature and velocity-only options are honoured, with one time, energy and frame per recorded step.",
  ["schedules", "histories", "configurations"],
  "for every sequence of atom re-orderings by the engine, every initial numbering, engine interface variant, supercell and option combination",
  "The engine module is not installed in the tests and the coupling is never run.",
  ["dynaphopy/interface/lammps_link.py", "dynaphopy/interface/iofile/__init__.py"],
  [("per-step reordering by atom identity", "dynaphopy/interface/lammps_link.py:113"), ("arrangement template from the first configuration", "dynaphopy/interface/iofile/__init__.py:49")],
  ["positions, velocities, times and energies of the produced trajectory", "commands sent to the engine"])

p("C14", "In the interactive session every preference takes effect on the next result",
  "In any interactive session, each displayed or plotted result equals what a fresh calculation gives with the preferences and wave vector entered so far, and the menus show the values in force. Every key sequence of valid choices returns to the menu it came from and the session ends with the terminal restored.",
  ["histories", "inputs"],
  "for every sequence of menu keys, typed values, invalid keys and terminal events",
  "The interactive interface is not covered by any test.",
  ["dynaphopy/interface/interactive_ui.py", "dynaphopy/__init__.py"],
  [("menu loop and preference handlers", "dynaphopy/interface/interactive_ui.py:41"), ("setting operations", "dynaphopy/__init__.py:115")],
  ["text put on the screen", "data plotted", "terminal mode at exit"])

p("C15", "One command line run gives what its options ask for, in any combination, and what one program saves the next carries on",
  "For any combination of options, each file, table or plot that a command line run makes equals what the library gives for the settings these options name; a run leaves all other files alone. Data handed from one program to another (quasiparticle data to force constants, saved spectra to fits) carries on the same calculation, also after an earlier run died or failed on the disk.",
  ["histories", "crash points", "inputs"],
  "for every combination and order of options and every sequence of program runs in one directory, some of them interrupted",
  "No test starts the command line programs.",
  ["scripts/dynaphopy", "scripts/rfc_calc", "scripts/fitdata", "dynaphopy/__init__.py", "dynaphopy/interface/phonopy_link.py"],
  [("options become settings, products in order", "scripts/dynaphopy:300"), ("force constants from saved quasiparticle data", "scripts/rfc_calc:32"), ("symmetrized force constants", "dynaphopy/interface/phonopy_link.py:393")],
  ["files written by the programs", "text printed", "plots", "exit status"])

# ---- properties this technique does not decide --------------------------------
p("N01", "Displacements are minimum-image displacements from the lattice positions",
  "For every cell and trajectory, atomic displacements are the periodic images closest to the lattice sites, up to whole lattice vectors.",
  ["inputs"], "for every cell, position and coordinate", "Tests use a few near-orthogonal cells.",
  ["c/displacements.c"], [("minimum image conversion", "c/displacements.c:131")], ["displacement arrays"])
p("N02", "Known phonons are recovered from a trajectory generated with them",
  "Analysing a harmonic trajectory gives back frequencies and force constants within the method's resolution, and renormalized force constants respect the crystal symmetry.",
  ["inputs"], "for every crystal and force constant set", "Tests check three crystals.",
  ["dynaphopy/__init__.py", "dynaphopy/interface/phonopy_link.py"], [("peak fitting and inverse transform", "dynaphopy/__init__.py:1092")], ["renormalized frequencies"])
p("N03", "Power spectra integrate to the kinetic energy of the projected motion",
  "The integral of each spectrum over frequency approximates the average kinetic energy of the corresponding projection, with every algorithm, up to its resolution.",
  ["inputs"], "for every signal and resolution", "Only total energies of two trajectories are compared.",
  ["dynaphopy/power_spectrum/__init__.py", "c/correlation.c", "c/mem.c"], [("spectrum algorithms", "dynaphopy/power_spectrum/__init__.py:60")], ["spectra"])
p("N04", "Thermal properties obey thermodynamic relations",
  "Free energy, entropy, heat capacity and total energy derived from one density of states satisfy F = E - TS and the signs and limits of the harmonic oscillator.",
  ["inputs"], "for every temperature and density of states", "Tests compare one temperature.",
  ["dynaphopy/analysis/thermal_properties.py"], [("harmonic oscillator sums", "dynaphopy/analysis/thermal_properties.py:1")], ["thermal property values"])
p("N05", "Projections onto wave vectors and phonon modes conserve the motion",
  "Projecting onto all commensurate wave vectors and all modes loses no kinetic energy, and the sum of atom-resolved projections is the full projection.",
  ["inputs"], "for every crystal and trajectory", "Projections are never compared to anything directly.",
  ["dynaphopy/projection.py"], [("projection sums", "dynaphopy/projection.py:20")], ["projected velocities"])
p("N06", "Generated cells and parsed structures describe the same crystal",
  "Structures read from every supported file type, and supercells written for the simulation codes, describe the same crystal: cell, species, positions and masses.",
  ["inputs"], "for every structure file", "Tests read four structure files.",
  ["dynaphopy/generate_cell.py", "dynaphopy/atoms.py", "dynaphopy/interface/iofile/__init__.py"], [("cell writers and readers", "dynaphopy/generate_cell.py:1")], ["structures"])
p("N07", "Automatic atom ordering recovers the supercell order from one configuration",
  "Given one configuration near the lattice sites, the recovered arrangement is the permutation that maps file order to supercell order.",
  ["inputs"], "for every permutation and crystal", "One arrangement is used in one test.",
  ["dynaphopy/interface/iofile/__init__.py"], [("nearest site assignment", "dynaphopy/interface/iofile/__init__.py:49")], ["arrangement template"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
