CHECKS = {
"C13": ("static value-origin analysis of communicator arguments over linked LLVM IR",
        "Sound for the instantiated code under direct MPI calls; decides all calls, every path."),
"C12": ("path-sensitive typestate analysis of whole inlined operations over LLVM IR",
        "Timers, FFTW plans, raw memory blocks, files and streams of every library operation instantiated by the drivers; all normally returning paths."),
"C14": ("path-sensitive dataflow over whole inlined operations: which lattice is current at each return",
        "All operations from which a store to the current-lattice pointer is reachable; all paths."),
"C06": ("static evaluation of MPI call arguments to polynomial normal forms over whole inlined entry points",
        "About 310 entry points x 21 value types; datatype, operation, byte count, list length and receive block size of every MPI data call, plus matching of send and receive sizes."),
"C07": ("compile-fail witnesses through hilapp built from the current source, each with a legal positive control",
        "One witness pair per rule, in plain and template functions; decides refusal by the preprocessor itself."),
"C08": ("generated compile-fail witnesses over types x shapes x operations, judged by an independent typing oracle",
        "2500 expressions (quick), 50000 (thorough); each ill-typed one must be refused and each well-typed one compile with the stated result type."),
}
NA = {
"C19": "A statement about numerical values of the transformed field (sums of products over all sites, computed inside FFTW); no static argument over the source can establish the inverse relation. The static side of the FFT (message sizes, requests, plans, collectives) is covered under C01, C05, C06 and C12.",
"C20": "Bijectivity of computed index tables for every lattice size and rank count: the tables are filled by loops whose bounds are run-time quantities (node size, factorisation of the rank count, site layout); a proof needs loop invariants over arrays, out of reach of the dataflow and interpretation used here. Running the set-up for sample sizes would be a test. The halo tables used by boundary conditions are covered under C15.",
"C21": "Identities hold to floating-point rounding for all matrix values; they are numerical statements that dataflow or type rules do not decide. The typing side of the algebra is C08.",
"C22": "Equality of results of arbitrary programs across layouts and rank counts is a relational property over run-time data; its static ingredients (fetches, reductions, boundary signs, messages, uniform collectives) are decided separately under C01-C06 and C15.",
"C23": "Reversibility and force/action consistency are numerical properties of integrators of application code, quantified over field values and step sizes; not decidable by static analysis of the source.",
"C24": "Disjointness for every sequence of allocations needs an inductive invariant of a linked list of blocks with run-time sizes (shape analysis with arithmetic); no installed static analyser proves it on this C++ code and a sampled enumeration of sequences would be testing or model checking, not this family.",
"C25": "A statement about probability distributions; quantifies over random streams and limits, outside what static analysis can express.",
}
CHECKS["C05"]=("abstract interpretation of the halo protocol plus request-ownership dataflow over LLVM IR",
 "All start/wait/drop histories of a field's halo requests as an exhaustively enumerated abstract state space; local request arrays of gather/scatter/FFT; all operation sequences on reduction objects.")
CHECKS["C02"]=("abstract interpretation of the halo status protocol and path-sensitive marking dataflow over whole operations",
 "Every library operation and driver loop that stores field elements or changes a boundary condition, all paths; freshness of the status arrays for all histories.")
CHECKS["C03"]=("path-sensitive typestate analysis of generated site-loop code over LLVM IR",
 "Every site loop hilapp generates for the drivers, the library and the applications: each neighbour read against fetch, wait, parity and visited sites; each written field allocated and marked. All paths; programs beyond the drivers are covered as far as they use the same code-generation branches.")
CHECKS["C04"]=("path-sensitive typestate analysis of generated reductions, and exhaustive enumeration of abstract reduction-object states",
 "Every reduction of every generated site loop (sum, product, Reduction, ReductionVector, OpenMP thread partials) on every path; all public-operation histories of the reduction objects.")
CHECKS["C11"]=("interprocedural write-effect analysis of OpenMP parallel regions over LLVM IR",
 "Every parallel region hilapp generates for the drivers and the library on the OpenMP target, with everything called in it.")
CHECKS["C01"]=("backward dependency analysis from every collective call to rank-local sources over whole inlined operations in LLVM IR",
 "Every collective call of every library operation instantiated by the drivers, the library units and the applications: control, value and memory dependences of the branches that decide it and of its root; all paths.")
CHECKS["C15"]=("abstract interpretation over LLVM IR with the geometric situation enumerated",
 "Every function that moves field values over a lattice edge, in plain and AVX layouts, for all combinations of direction, boundary conditions, position of the rank and parity: element and sign of every copy; halo and neighbour tables; recording of boundary conditions; packing before sending.")
CHECKS["C17"]=("symbolic dependency analysis of the seeding code plus generation rule over every random site loop, in LLVM IR",
 "Rank dependence (injectivity in the rank number) of every value a generator is seeded with, agreement of clock seeds, when the initialised flag is set, and the check in front of every generated site loop from which a draw is reachable.")
CHECKS["C16"]=("abstract interpretation of the ending functions and interprocedural status analysis of every process end, in LLVM IR",
 "Every call in the library that ends the process; every path through hila::terminate, hila::error and hila::finishrun; call-graph rule for who may end the run normally.")
_IO="abstract interpretation of whole file operations over LLVM IR with failures and ranks enumerated"
CHECKS["C09"]=(_IO,"checkpoint of every gauge type the drivers use: with and without an existing file, keeping it or not, every failure point, first and other ranks; all paths.")
CHECKS["C10"]=(_IO,"open, close, read and write operations of Field, GaugeField, PlaquetteField, lists of fields, subvolumes and checkpoints: every failure point, first and other ranks; all paths.")
CHECKS["C18"]=(_IO,"Header items and field order of every writer/reader pair of GaugeField, PlaquetteField, Field and lists of fields, the comparison of the header with the present lattice, and the site each stored element belongs to (small lattices of 2-4 dimensions in several pieces).")
