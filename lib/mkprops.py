import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L="libraries/plumbing/"
p("C01","All ranks enter the same collective operations",
  "Every collective operation of the library (broadcast, reduction, barrier, communicator split, and the drawing of the message tag that pairs halo messages) is executed by all ranks of the communicator or by none: whether and how often it executes, and its root, never depend on a value that can differ between ranks (rank number, locally stored sites, file or stream state, clock, signal, per-rank random number, result delivered to rank 0 only) unless that value has first been made equal on all ranks by a broadcast or all-reduce.",
  ["inputs","configurations","schedules"],"all input files, file-system states, lattice sizes and rank counts; every path through library functions and through the loop code generated for their callers",
  "The suite runs 1, 2 and 4 ranks on good inputs; a divergent collective needs a failing open, a missing key, an expired time limit or an unlucky partition, and then shows as a hang, not as a wrong value.",
  [L+"com_mpi.cpp",L+"com_mpi.h",L+"input.cpp",L+"field_io.h",L+"field_comm.h",L+"timing.cpp",L+"lattice.cpp",L+"setup_layout_generic.cpp","libraries/tools/checkpoint.h","libraries/tools/multicanonical.cpp"],
  [("hila::broadcast / reduce_node_sum",L+"com_mpi.h"),("if_rank0, assert_all_ranks_present",L+"defs.h"),("input::open, input::get",L+"input.cpp")],
  [("rank","MPI rank of this process",L+"com_mpi.cpp")],["MPI collective calls"])
p("C02","Changing field elements invalidates their halo copies",
  "After any library operation that changes stored elements of a field (single-element and element-list assignment, compound and increment forms, copying, reading from a file, Fourier transform output, setting local data, changing the boundary condition, site loops) returns, no previously fetched or in-flight halo copy of a changed parity counts as up to date in any direction, so that the next neighbour read fetches again.",
  ["histories","inputs"],"every sequence of operations on a field: any mutation followed by any neighbour read, in every direction and parity, with communication pending or completed",
  "Tests mutate fields mostly by site loops and rarely re-read a halo that was already fetched; a stale halo shows only if a fetch of the same direction and parity came before the mutation and the site lies on a rank boundary.",
  [L+"field.h",L+"field_comm.h",L+"field_io.h",L+"fft.h","hilapp/src/codegen.cpp"],
  [("Field::mark_changed",L+"field.h"),("Field::drop_comms",L+"field_comm.h")],
  [("gather_status_arr","per parity and direction: halo not fetched / fetch started / fetched",L+"field.h")],["Field::start_gather","Field::wait_gather"])
p("C03","Generated site loops fetch before reading, publish after writing",
  "In the code generated for a site loop, every neighbour element read is covered by a halo fetch of that field, direction and the loop's parity which is started before the first site is visited and completed before any site that needs remote data is visited; every field the loop writes is allocated before and marked as changed, for the loop's parity, after the loop, on every path.",
  ["programs","configurations"],"every site loop hilapp can be given: any combination of fields, directions, parities, conditional access and backend flavour",
  "Tests run a few hundred fixed loops; the guarantee is about the code generator, i.e. about all loops users write, and a missing wait is hidden when the halo happens to be fetched already.",
  ["hilapp/src/codegen.cpp","hilapp/src/codegen_cpu.cpp","hilapp/src/codegen_avx_new.cpp","hilapp/src/loop_function.cpp","hilapp/src/toplevelvisitor.cpp",L+"field.h"],
  [("TopLevelVisitor::generate_code","hilapp/src/codegen.cpp"),("generate_code_cpu","hilapp/src/codegen_cpu.cpp")],None,["generated .cpt code"])
p("C04","Loop reductions start neutral and are combined over ranks once",
  "In the code generated for a site loop, each reduced variable is accumulated in a per-rank partial sum which starts from the neutral value, and after the loop the partial is combined over all ranks exactly once on every path, with the variable's previous value contributed by a single rank; a delayed or non-blocking reduction is completed before its value is read and never restarted or overwritten while in flight.",
  ["programs","histories"],"every loop with += reductions into plain variables, Reduction and ReductionVector objects, every setting of allreduce/delayed/nonblocking and every order of operations on the reduction object",
  "Tests use a few reductions with the default blocking settings; the delayed and non-blocking modes, and reuse of the object across loops, form a state space of histories that samples do not cover.",
  ["hilapp/src/codegen.cpp","hilapp/src/codegen_cpu.cpp",L+"reduction.h",L+"reductionvector.h",L+"com_mpi.cpp"],
  [("hila_reduce_sum_setup / hila_reduce_sums",L+"com_mpi.cpp"),("Reduction::wait",L+"reduction.h")],
  [("is_delayed, comm_is_on","Reduction communication state",L+"reduction.h")],["generated .cpt code","Reduction::value"])
p("C05","Non-blocking messages complete before their buffers are reused",
  "Every non-blocking send, receive or reduction which the library starts is completed by a wait on the same request before its buffer is read, freed or reused and before its request handle is overwritten or goes away, on every path of the operation or object lifetime that owns it.",
  ["schedules","histories"],"every message timing and every order of operations on the owning field, transform or reduction object, including destruction with communication pending",
  "Eager MPI delivery on one node completes small messages at once, so a missing wait passes; the fault needs a large message and a slow partner.",
  [L+"field_comm.h",L+"field.h",L+"fft.h",L+"reduction.h",L+"reductionvector.h",L+"memory_pool.cpp"],
  [("MPI_Wait/MPI_Waitall",L+"field_comm.h"),("Field::drop_comms, Field::cancel_comm",L+"field_comm.h"),("MPI_Waitall in FFT collect/scatter",L+"fft.h")])
p("C06","Collectives and messages carry the whole value with its own number type",
  "For every supported element type, the library's reductions and broadcasts (scalars, complex numbers, vectors, matrices, arrays and lists of them) transfer exactly the bytes of all elements passed, reductions name the MPI type of the element's own arithmetic type and the operation asked for, and receive counts equal the send counts of the matching message.",
  ["inputs","programs"],"every arithmetic and compound element type and every element count, not the handful of types instantiated by tests",
  "Tests reduce int and double scalars, mainly; a wrong count or type for one compound or one rarer number type goes unseen.",
  [L+"com_mpi.h",L+"com_mpi.cpp",L+"reduction.h",L+"reductionvector.h",L+"field_comm.h"],
  [("get_MPI_number_type",L+"com_mpi.h"),("reduce_node_sum, broadcast, send_to/receive_from",L+"com_mpi.h")],None,["MPI call arguments"])
p("C07","Site-loop code that breaks the loop rules is refused at compile time",
  "A site loop which does what the loop rules forbid (assigning to a variable declared outside other than by a += or *= reduction, changing a field on all sites while reading it at a neighbour site, writing a field at a neighbour site, nesting site loops, using a field without site index or by coordinate, declaring static, Field, Reduction or container variables, binding non-const references or addresses to outside variables or neighbour values, mixing sums with products or reads of one ReductionVector, calling functions which touch statics or non-const globals, changing the lattice) is refused by the preprocessor with an error, while the corresponding legal loop is accepted.",
  ["programs"],"all programs given to the preprocessor, including rule violations inside functions called from the loop and inside templates",
  "The repository has no test that expects a refusal: every test program is legal, so a check that stopped refusing would leave all of them passing.",
  ["hilapp/src/toplevelvisitor.cpp","hilapp/src/loop_function_visitor.cpp","hilapp/src/loop_function.cpp","hilapp/src/generalvisitor.cpp"],
  [("reportDiag(DiagnosticsEngine::Level::Error)","hilapp/src/toplevelvisitor.cpp")],None,["hilapp exit status and diagnostics"])
p("C08","Ill-typed lattice algebra does not compile",
  "Matrix, vector, array and complex operations whose dimensions do not match or whose element types do not convert (sums and products of mismatched sizes, square-only operations on non-square matrices, assignment from incompatible types or lossy complex-to-real conversion, fields and broadcasts of non-trivial types) are refused by the type system, while each corresponding well-typed expression compiles.",
  ["programs"],"all instantiations of the algebra templates over sizes and element types",
  "A test can only contain code that compiles; that ill-typed code stays refused is invisible to it.",
  ["libraries/datatypes/matrix.h","libraries/datatypes/array.h","libraries/datatypes/cmplx.h","libraries/datatypes/diagonal_matrix.h","libraries/datatypes/sun_matrix.h",L+"field.h",L+"com_mpi.h"],
  [("static_assert and enable_if constraints","libraries/datatypes/matrix.h")],None,["compiler diagnostics"])
p("C09","Checkpointing never destroys the last good configuration",
  "While a checkpoint is written there is at every instant a complete previous configuration on disk if one existed (the old file is moved aside before the new one is opened for writing, by one rank only, when keeping the old one is asked for), and the run-status file that makes a restart use the new configuration is written only after the configuration file has been completely written and closed on the path taken.",
  ["crash_points","fault_sequences"],"a crash or kill at every point of a checkpoint, and every failure of the writes",
  "No test interrupts a checkpoint; each crash point is a separate history.",
  ["libraries/tools/checkpoint.h",L+"gaugefield.h",L+"field_io.h"],
  [("checkpoint","libraries/tools/checkpoint.h"),("GaugeField::config_write",L+"gaugefield.h"),("hila::close_file",L+"field_io.h")])
p("C10","File failures seen on rank 0 reach every rank and are not ignored",
  "When a data file (fields, gauge and plaquette configurations, lists of fields, subvolumes, checkpoints) cannot be opened, or reading, writing or closing it fails, on the rank that does the file access, the failure is made known to all ranks before any of them goes on: the operation ends the run with failure or returns failure, alike on all ranks; it is never treated as success, a file that could not be opened is never used, and no other rank touches the file. Without a failure these operations succeed on all ranks.",
  ["fault_sequences","schedules"],"every failure point of every file operation, every rank",
  "Tests never run with failing files.",
  [L+"field_io.h",L+"gaugefield.h",L+"plaquettefield.h","libraries/tools/checkpoint.h"],
  [("open_input_file, open_output_file, close_file",L+"field_io.h"),("config_write, config_read",L+"gaugefield.h")])
p("C11","Generated OpenMP site loops are free of data races",
  "In the code generated for the OpenMP target, a loop whose iterations run on several threads writes only to storage private to the iteration or thread, to field or array elements selected by its own site, to declared thread-combined reduction variables or through atomic updates; loops that draw random numbers, select sites or accumulate into reduction vectors are not distributed over threads.",
  ["schedules","programs"],"all thread interleavings of all generated loops",
  "The suite runs one OpenMP configuration with 4 threads once; a race shows only under some interleavings.",
  ["hilapp/src/codegen_cpu.cpp","hilapp/src/codegen.cpp",L+"reduction.h",L+"site_select.h"],
  [("#pragma omp parallel for emission","hilapp/src/codegen_cpu.cpp")],None,["generated .cpt code"])
p("C12","Timers, transform plans and temporary storage are released on every path",
  "Every library operation that starts a timer stops it, and every plan, temporary communicator-sized buffer, raw memory block or file it acquires for its own use is released, before it returns, exactly once and on every path through it that returns normally.",
  ["inputs","histories"],"every path through every library operation",
  "A leak or an unbalanced timer does not change results; tests do not look.",
  [L+"fft.h",L+"fft_fftw_transform.h",L+"field_io.h",L+"com_mpi.h",L+"com_mpi.cpp",L+"reduction.h",L+"field_comm.h"],
  [("timer::start/stop",L+"timing.cpp"),("fftw_destroy_plan",L+"fft_fftw_transform.h"),("memalloc/free, d_malloc/d_free",L+"memalloc.h")])
p("C13","Communication of a partition stays inside the partition",
  "When a job is split into partitions, every message and collective of lattice, field, reduction, random number and input/output operations uses the communicator of the caller's own partition; the communicator of the whole job is used only where the partitions are created, explicitly synchronised, or the job is started and ended.",
  ["configurations"],"every number of partitions and every library operation",
  "No test runs with partitions; with a single partition both communicators contain the same ranks.",
  [L+"com_mpi.cpp",L+"com_mpi.h",L+"field_comm.h",L+"fft.h",L+"reduction.h",L+"initialize.cpp",L+"lattice.cpp"],
  [("lattice_struct::mpi_comm_lat",L+"lattice.h"),("hila::split_into_partitions",L+"com_mpi.cpp")],None,["MPI call communicator arguments"])
p("C14","Operations that switch the current lattice switch it back",
  "A library operation that changes the current lattice for its own purposes restores the lattice that was current at its start before it returns, on every path; only the documented lattice-changing operations leave a different lattice current.",
  ["histories","inputs"],"every path of every blocking/unblocking operation, including early returns for ranks without sites",
  "Tests block one even lattice; the early-return and degenerate paths are not taken.",
  [L+"lattice.h",L+"lattice.cpp",L+"field_comm.h"],
  [("Lattice::switch_to",L+"lattice.h"),("Field::block_from, Field::unblock_to",L+"field_comm.h")])
p("C15","Antiperiodic boundaries change sign on every route across the boundary",
  "For a field with antiperiodic boundary condition in a direction, a value read across that lattice boundary carries the opposite sign whichever way the value reaches the reader (message from another rank, local copy on the same rank, vectorised permutation), and values read elsewhere are unchanged; every transport routine takes the sign decision from the boundary condition of that direction together with the position of the rank at that lattice edge.",
  ["configurations","inputs"],"all rank layouts, directions, parities, and element types, for each backend flavour",
  "Whether a boundary is crossed by a message or locally depends on the rank layout; tests use few layouts and the element types they use are few.",
  [L+"field_comm.h",L+"backend_cpu/field_storage_backend.h",L+"backend_vector/field_storage_backend.h",L+"setup_layout_generic.cpp"],
  [("gather_comm_elements, set_local_boundary_elements",L+"field_comm.h"),("gather_elements_negated",L+"backend_cpu/field_storage_backend.h")])
p("C16","A run that fails ends with failure status",
  "When the library gives up - hila::error, hila::terminate (whatever status it is asked for), a file that cannot be opened, read or written, failed memory allocation, an inconsistent state of communication - the process ends and reports a non-zero status on every path; these functions never return to the caller. Only the controlled end of the run, hila::finishrun, reports zero, and the library calls it by itself only in set-up and while reading parameters and options (wrong parameters end the run in this controlled way), never from an operation on fields or files.",
  ["inputs","fault_sequences"],"every error exit of the library, every path to it",
  "Tests look at runs that succeed; an error exit that reports success is noticed only by a batch script that goes on after the failure.",
  [L+"initialize.cpp",L+"com_mpi.cpp",L+"field_io.h",L+"memalloc.cpp",L+"field_comm.h"],
  [("hila::terminate, hila::error, hila::finishrun",L+"initialize.cpp"),("hila::abort_communications",L+"com_mpi.cpp")])
p("C17","Random streams are per-rank and never used unseeded in site loops",
  "Seeding gives ranks different random streams whenever random site loops run (each rank's seed is a function of the given seed and the rank), an unspecified seed is agreed by all ranks, and a site loop that draws random numbers checks before its first site that the generator has been initialised.",
  ["configurations","programs"],"all seeds and rank counts, all generated loops with random numbers",
  "Statistical tests on 4 ranks do not notice identical streams on sub-lattices; unseeded use is never tried.",
  [L+"random.cpp","hilapp/src/codegen.cpp"],
  [("hila::seed_random, hila::check_that_rng_is_initialized",L+"random.cpp")])
p("C18","Readers and writers of configuration files agree on the layout",
  "What the configuration and field writers put into a file (sequence, sizes and meaning of the header items, the order in which field components follow, and the order of sites inside each of them) is what the corresponding readers take out of it: every site gets back the element that was written from it, however the file is cut into pieces, and a file of a smaller lattice that fits a whole number of times is repeated over the present one. Parts of a field are written in the same order of sites, each site once. The reader checks the recorded dimension and lattice size against the present ones before it uses the data.",
  ["inputs","configurations"],"all lattice sizes, dimensions and gauge groups",
  "Tests do not write and read configurations.",
  [L+"gaugefield.h",L+"field_io.h"],
  [("GaugeField::config_write / config_read",L+"gaugefield.h"),("Field::write / Field::read",L+"field_io.h")])
p("C19","Fourier transforms are inverse to each other and unitary up to volume",
  "A forward Fourier transform of a field followed by the inverse gives back the field times the volume, in any subset of directions and for every element type, independently of the number of ranks.",
  ["inputs","configurations"],"all field contents, lattice sizes, rank layouts and direction subsets",
  "Tests sample a few sizes and layouts.",[L+"fft.h",L+"fft_fftw_transform.h"],[("hila_fft",L+"fft.h")])
p("C20","Every lattice site is owned by exactly one rank and index",
  "For every lattice size and rank count, coordinates, owner rank and local index are in bijection, and the neighbour tables are mutually inverse with periodic wrap-around.",
  ["configurations"],"all lattice sizes, rank counts and layouts","Tests use a handful of sizes and 1, 2 and 4 ranks.",
  [L+"lattice.cpp",L+"setup_layout_generic.cpp",L+"map_node_layout.cpp"],[("lattice_struct::site_index, node_rank, create_std_gathers",L+"lattice.cpp")])
p("C21","Matrix and group algebra obeys its identities",
  "Products, adjoints, determinants, exponentials and projections satisfy the algebraic identities (associativity, unitarity of group elements, exp of algebra in the group) to rounding accuracy for all inputs.",
  ["inputs"],"all matrices of all supported sizes and element types","Numerical identities over all reals cannot be sampled exhaustively.",
  ["libraries/datatypes/matrix.h","libraries/datatypes/sun_matrix.h","libraries/datatypes/matrix_linalg.h"],[("Matrix, SU","libraries/datatypes/matrix.h")])
p("C22","Results do not depend on rank count, layout or backend",
  "Deterministic site operations and reductions give the same field on every rank count, site layout and backend (vanilla, OpenMP, vectorised), up to the summation order of floating-point reductions.",
  ["configurations","schedules"],"all rank counts, layouts and backends","The suite compares few configurations on one small lattice.",
  [L+"field.h",L+"setup_layout_vector.cpp","hilapp/src/codegen_avx_new.cpp"],[("generated loops","hilapp/src/codegen.cpp")])
p("C23","Molecular dynamics integration is reversible",
  "Integrating the equations of motion forward, reversing the momenta and integrating again returns to the initial configuration to rounding accuracy, and forces are the derivatives of the actions.",
  ["inputs"],"all gauge fields and step sizes","Tests do not run the HMC.",
  ["libraries/hmc/integrator.h","libraries/hmc/hmc.h","libraries/gauge/wilson_plaquette_action.h"],[("leapfrog_integrator, O2_integrator","libraries/hmc/integrator.h")])
p("C24","Pool memory blocks never overlap",
  "Blocks handed out by the memory pool are disjoint, lie inside the pool and become available again after they are freed, for every sequence of allocations and frees.",
  ["histories"],"all sequences of allocations and frees","Tests run without the pool.",
  [L+"memory_pool.cpp"],[("gpu_memory_pool_alloc/free",L+"memory_pool.cpp")])
p("C25","Random site updates keep the target distribution",
  "Heat bath, overrelaxation, multicanonical and HMC updates sample the stated distribution.",
  ["inputs","histories"],"all fields and random sequences","Distributional property.",
  ["libraries/gauge/sun_heatbath.h","libraries/gauge/sun_overrelax.h","libraries/tools/multicanonical.cpp"],[("suN_heatbath","libraries/gauge/sun_heatbath.h")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
