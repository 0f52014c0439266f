FPF = ["src/findpts.c", "src/findpts_imp.h", "src/findpts_local.c", "src/findpts_local_imp.h", "src/findpts_el.h", "src/findpts_el_2.c", "src/findpts_el_3.c", "src/obbox.c"]
prop("F01", "Every search answer is internally consistent, whatever the elements look like",
 "For any element geometry and any query point, a point reported as inside or on the border comes with an existing element, reference coordinates in [-1,1] (with at least one on the border when it is reported as border), and a squared distance equal to that of the mapped position to the point at the reported accuracy; a point is reported as not found only if no element's expanded bounding box contains it. Nothing but the answer arrays is written and the coordinates asked for are unchanged.",
 ["inputs", "configurations"],
 "curved, skewed, degenerate and self-overlapping elements in 2 and 3 dimensions, orders 2 to 8, points inside, on faces, at nodes, around and far away, any hash size and tolerance",
 "the tests search one smooth mesh and only count failures",
 FPF, [("element search", "findpts_el_2.c, findpts_el_3.c: findpts_el"), ("candidate boxes and hash", "findpts_local_imp.h: hash_build, findpts_local"), ("bounding boxes", "obbox.c: obbox_calc, obbox_axis_test")],
 "property-based testing with generated elements: validity predicate on each answer, geometry evaluated independently in long double",
 "the local (one process) interface is searched; boxes for the not-found rule come from the library's own box computation, which B02 checks")
prop("F02", "Points inside a mesh are found inside, at the right place",
 "For any valid mesh, its distribution over processes and any point lying in some element, the search finds it: it reports a process and element and reference coordinates that map back to the point to the accuracy asked for, reported as inside. It does so for interior points, points on shared faces, edges and corners and points at mesh nodes, whichever process asks.",
 ["inputs", "configurations", "schedules", "histories"],
 "curved block meshes of 1 to 9 elements in 2 and 3 dimensions with arbitrary local orientation, aspect ratio, scale, offset; 1 to 6 processes, hash sizes, batch sizes, all five interfaces",
 "the tests use one mesh per dimension distributed in one way, with one hash size and batch size",
 FPF, [("Newton search with constraints", "findpts_el_3.c: newton_vol, newton_face, newton_edge"), ("distributed hash and routing", "findpts_imp.h: findpts, hash_build")],
 "property-based testing with generated meshes whose map is known: forward-evaluate, search, map back",
 "MPI is a deterministic in-process model; meshes are generated with positive Jacobians and moderate curvature, as the library assumes")
prop("F03", "Points outside the mesh get the nearest border point or are not found",
 "For a point that lies in no element but near some, the search reports a border position whose distance is that of the closest point of the element found, to the accuracy asked for, and no element in reach offers a nearer one; far away points are reported as not found. The squared distance reported is never smaller than the true distance to the element allows.",
 ["inputs", "configurations", "schedules"],
 "points just outside, around and far from affine, bilinear and curved meshes; any process distribution and interface",
 "the tests look up points inside only",
 FPF, [("constrained minimisation", "findpts_el_2.c, findpts_el_3.c: newton_*, tr update"), ("choice among candidates", "findpts_local_imp.h, findpts_imp.h")],
 "property-based testing against a closest-point oracle (exact for convex affine elements, first-order optimality and dense sampling otherwise)",
 "for curved elements the oracle checks local optimality and sampled competitors with tolerances scaled to the geometry")
prop("F04", "Interpolation gives the field's value at the located points",
 "Evaluating a field at located points returns, for every point, the value at its reference position of the polynomial that interpolates the field on its element, wherever the element lives, for points found by a search and for points the caller names; outputs of points that were not found are not touched. Evaluations and searches can be repeated in any order, with several fields, without influencing each other.",
 ["inputs", "configurations", "schedules", "histories"],
 "several searches and evaluations per handle, 1 to 6 processes, strides, all interfaces including the local evaluation",
 "the tests evaluate one field once after one search",
 FPF, [("evaluation routing", "findpts_imp.h: findpts_eval"), ("element interpolation", "findpts_el_*.c: findpts_el_eval; findpts_local_imp.h: findpts_local_eval"), ("Fortran local evaluation", "findpts.c: ffindpts_eval_local")],
 "stateful property-based testing against long-double tensor-product interpolation",
 "known finding K2 (evaluation of a second point set after one search) is listed and matched exactly: the value of the cached set")
prop("F05", "The distributed search equals the best of all single-element searches",
 "The answer for a point is the best one (inside before border, then smaller distance) among the answers each element alone gives, and not found exactly if no element alone finds it, whatever the distribution of elements, points, hash table sizes, batch sizes and message timing. Processes without elements or points take part like any other.",
 ["inputs", "configurations", "schedules", "histories"],
 "1 to 9 elements on 1 to 8 processes in any distribution, empty processes, several searches per handle, any interface",
 "the tests compare only against the known position on one distribution",
 FPF, [("global hash of processes", "findpts_imp.h: hash_build, table_from_hash"), ("forwarding and merging answers", "findpts_imp.h: findpts"), ("local hash", "findpts_local_imp.h: hash_build")],
 "differential property-based testing: the whole search against one search per element",
 "the single-element answers come from the same library, run on one process with one element")
prop("F06", "Multi-session searches pick eligible elements and the largest field",
 "With several overlapping sessions a point is answered only from elements of eligible sessions (its own when asked to match, all others otherwise), within a session by the rule for a single mesh, and among sessions by the largest value of the distance field at the answers. A point without an eligible element around it is not found.",
 ["inputs", "configurations", "schedules"],
 "1 to 3 sessions on 1 to 6 processes, overlapping elements, per-point session ids, both match modes",
 "the tests run two sessions on one configuration and only count failures",
 FPF, [("session and field bookkeeping", "findpts_imp.h, findpts_local_imp.h: the ms variants"), ("field interpolation at candidates", "findpts_local_imp.h: eval of distfint")],
 "differential property-based testing: the whole search against one search per element and the selection rule",
 "the single-element answers come from the same library, run on one process with one element")

prop("M02", "Complete uses leave no memory, communicator, request or message behind",
 "A complete use of any part of the library, from set-up through any operations to the matching free, returns everything it took: repeating it leaves no further block of memory, no communicator that was duplicated or split and never freed, no unfinished request and no message that nobody received. This holds for every method, interface and history of operations in between.",
 ["inputs", "histories", "schedules", "configurations"],
 "gather-scatter (C, Fortran, all methods, unique, nonblocking), point search (C, Fortran, sessions, local), crystal router and tables, communicators, local pieces; each use done three times",
 "tests run each use once and never count what is left",
 ["src/gs.c", "src/findpts.c", "src/findpts_imp.h", "src/findpts_local_imp.h", "src/crystal.c", "src/fcrystal.c", "src/comm.h", "src/mem.h", "src/poly.c", "src/lob_bnd.c"],
 [("per-method release", "gs.c: pw_free, cr_free, allreduce_free, gs_free"), ("release of search data", "findpts_imp.h, findpts_local_imp.h, findpts_el_*.c: *_free")],
 "property-based testing with repeated generated uses and an accounting allocator and communicator layer",
 "MPI is a deterministic in-process model; blocks a use leaves once and for all (handle tables) are allowed, growth per use is not")
prop("E01", "Wrong handles and parameters end the program before data is touched",
 "A Fortran call with a handle that was never given out or was freed, a datatype, operation, key or dimension out of range, or a process count that is not the communicator's, an in-place sort with a stride, and a plain search on a session handle end the program with status 1 and before the caller's data is changed. Calls with correct arguments, at either end of the valid ranges, are never refused.",
 ["inputs", "histories", "configurations"],
 "every checked Fortran entry point, pools of handles of which some are freed, wrong values near and far from the valid ones, given by one or all of 1 to 4 processes",
 "no test passes a wrong argument",
 ["src/gs.c", "src/fcrystal.c", "src/findpts.c", "src/findpts_imp.h", "src/comm.h", "src/sort_imp.h", "src/fail.c"],
 [("handle and range checks", "gs.c: fgs_check_handle, fgs_check_parms; fcrystal.c, findpts.c: CHECK_HANDLE"), ("process count check", "comm.h: comm_init_check"), ("program end", "fail.c: fail, die")],
 "property-based testing of refusals, each generated call in a forked process with the address sanitizer",
 "exit() is replaced by a stand-in that ends the process of the MPI model; arguments that the interface does not check are not generated")
prop("E02", "A refused memory request ends the program with status 1",
 "Whatever the library is doing and whichever of its memory requests is refused, the process that made the request reports it and ends the program with status 1. It never goes on with a null or stale block, returns a wrong result or ends in another way.",
 ["inputs", "fault_sequences", "schedules", "histories"],
 "the same complete uses as for M02; any one request of any process is refused, for small uses every request in turn",
 "no test refuses a request",
 ["src/mem.h", "src/fail.c", "src/gs.c", "src/crystal.c", "src/sarray_transfer.c", "src/sort.c", "src/findpts.c", "src/findpts_imp.h", "src/findpts_local_imp.h"],
 [("checked allocation", "mem.h: smalloc, scalloc, srealloc, array_reserve_"), ("program end", "fail.c: fail, die")],
 "fault injection at generated allocation points of generated uses, each in a forked process with the address sanitizer",
 "the allocator and exit() are replaced by stand-ins; one request is refused per run", level="fault_enumeration")
prop("E03", "Reports reach the user whole, and the program ends with the given status",
 "A diagnostic or failure is printed on standard output exactly once and whole, whatever its length and contents: prefix, process, file, line and the formatted text. A failure ends the calling process with the status given, also where the application supplies the handler that ends the program, and a diagnostic does not end it. The process named is the caller's number in the communicator set up last.",
 ["inputs", "configurations", "schedules"],
 "reports of 0 to 110000 characters with any prefix, file name and format, statuses 1 to 120, 1 to 4 processes, split communicators, builds with and without the application's exit handler",
 "no test looks at a report, and the build with an exit handler is never tested",
 ["src/fail.c", "src/fail.h", "src/comm.h"],
 [("reports", "fail.c: vdiagnostic, diagnostic"), ("program end", "fail.c: vfail, fail, die"), ("process number", "comm.h: comm_init")],
 "property-based testing: the standard output of a forked process compared character by character with the expected reports",
 "exit() is replaced by a stand-in that ends the process of the MPI model")
prop("K01", "A build without MPI gives the same answers on one process",
 "Built without MPI the library can be linked and gives, on one process, bit for bit the answers of the MPI build: gather-scatter by every method and interface, unique, nonblocking operations, routed tables and messages, communicator operations and splits, point search and evaluation.",
 ["inputs", "configurations", "histories"],
 "generated single-process histories of every part, run in both builds",
 "no test is built without MPI",
 ["src/comm.h", "src/comm.c", "src/crystal.c", "src/gs.c", "src/findpts_imp.h", "src/sarray_transfer.c"],
 [("stand-ins for MPI calls", "comm.h: comm_init, comm_dup, comm_split, comm_gather, comm_scan"), ("loops over processes", "crystal.c: crystal_router; gs.c")],
 "differential property-based testing of the two builds on the same generated histories",
 "single process only; the MPI side is the in-process model")
prop("K02", "Other integer widths change no answer",
 "Built with any of the documented choices of local and global integer (int, long or long long), the library gives the results its documentation states for gather-scatter in C and Fortran, reductions, scans, routed messages, moved rows and sorts, and the point search and evaluation give exactly the answers of the usual widths. No build reads or writes outside its arguments.",
 ["inputs", "configurations", "histories"],
 "generated histories of every part on 1-8 processes in four integer-width builds",
 "the tests are only built with 4-byte local and 8-byte global integers",
 ["src/types.h", "src/gs.c", "src/gs_local.c", "src/crystal.c", "src/sarray_transfer.c", "src/sort_imp.h", "src/findpts_imp.h", "src/findpts_local_imp.h"],
 [("choice of integer types", "types.h: GS_TYPE_LOCAL, GS_TYPE_GLOBAL, sint, uint, slong, ulong"), ("types chosen for indices and message words", "crystal.c, gs.c, sarray_transfer.c, findpts_imp.h")],
 "property-based testing of four integer-width builds against the reference models and, for point search, against the usual build",
 "values wider than the type at hand are not generated; the pack and row-size limits of long rows are in R02 and R03 only")
prop("D01", "The same input gives the same bits, whatever the timing or memory contents",
 "Repeating a call on the same values, or the same program under other message timing and other contents of fresh memory, gives the same bits: results of gather-scatter, reductions and scans, the content and order of transferred rows, messages and tuples, the chosen unflagged holders, and the answers and values of point searches. In gather-scatter a blocking and a nonblocking operation agree to the last bit, and each component of a vector or array of a multi-array operation agrees with the scalar operation on it.",
 ["inputs", "schedules", "histories", "configurations"],
 "values whose sums and products depend on the order, 2 to 10 processes, all explicit methods and interfaces, pairs of schedules, four memory fills, repeats within a run",
 "a test runs once under one timing and compares to a tolerance or with exact integers",
 GSF + ["src/comm.c", "src/crystal.c", "src/sarray_transfer.c", "src/findpts_imp.h", "src/findpts_local_imp.h"],
 [("fixed order of combination", "gs.c: pw_exec, cr_exec, allreduce_exec and their nonblocking halves"), ("fixed order of rows", "crystal.c: crystal_exchange; sarray_transfer.c"), ("choice among answers", "findpts_imp.h: findptsms")],
 "metamorphic property-based testing: one generated program run twice under different schedules and memory fills, compared bit for bit",
 MOCK + "both runs combine collective reductions in the same order, since that order is the MPI library's; the automatic method is left out, as it is chosen by measured time")
prop("N01", "Exchanges are sparse: few messages, and only what the receiver needs",
 "A pairwise operation sends at most one message to a process and only to processes that share an id, with at most the values that process needs; a crystal-router operation sends one message per stage; an all-reduce one enters one collective; the number of components or arrays changes message sizes and not their number. Transfers of rows, scans and hand-made reductions take a number of messages logarithmic in the processes and move each word at most once per stage. A plain point search sends only points that are not inside an element of the asking process, and an evaluation only points found elsewhere.",
 ["inputs", "configurations", "schedules"],
 "gather-scatter by every method and interface (unique, flagged, transposed, nonblocking, Fortran, split communicators) and its set-up, row transfers of any distribution, scans, reductions, point search and evaluation, 1 to 12 processes",
 "tests look at results only, and with two processes every scheme sends a handful of messages",
 GSF + ["src/crystal.c", "src/sarray_transfer.c", "src/comm.c", "src/findpts_imp.h"],
 [("neighbour lists and message sizes", "gs.c: pw_comm_setup, pw_exec_sends"), ("stages", "crystal.c: crystal_router; comm.c: comm_scan, allreduce"), ("which points travel", "findpts_imp.h: findptsms, setup_fev_aux")],
 "property-based testing with a recording MPI model: every message and collective of generated uses against bounds from the reference model",
 MOCK + "bounds on set-up are generous multiples, so that another set-up algorithm of the same order passes")
prop("N02", "Search tables keep to the sizes the caller set",
 "The local hash table of a point search takes no more integers than the limit the caller gave, and is not left trivial when the limit allows a finer one. The work space grows, with each point iterated on simultaneously, by no more than the documented number of doubles besides a record of fixed size and work space linear in the largest order.",
 ["inputs", "configurations"],
 "meshes of 1 to 300 elements in 2 and 3 dimensions, limits from the smallest to 2^16, up to some thousand simultaneous points",
 "no test measures memory",
 ["src/findpts.c", "src/findpts_local_imp.h", "src/findpts_el_2.c", "src/findpts_el_3.c"],
 [("table size search", "findpts_local_imp.h: hash_opt_size, hash_count"), ("work space", "findpts_el_*.c: work_size, findpts_el_init")],
 "property-based testing with an accounting allocator: set-ups with different limits compared by live bytes",
 "measured through the local interface on one process; the documented formula leaves out the per-point record, for which 40 doubles are allowed (27 are used), and the work on edges, which is more than the formula for elements with one high and two low orders")
prop("A01", "The automatic method is the fastest one, and setup reports the truth",
 "With the automatic method every process uses the same exchange method, the one whose slowest process took the least time; all-reduce is a candidate only with fewer than 100000 shared ids. Setup reports the average, least and longest time of every candidate and the method it uses. On request, and through the Fortran interface always, it reports the number of shared ids and the bytes taken by handle and buffer.",
 ["inputs", "configurations", "schedules"],
 "id layouts up to 100001 shared ids, 1 to 20 processes, generated times for a message, a byte and a collective on each process, with and without unique ids, C and Fortran, automatic or given method",
 "which method is fastest depends on the machine and its load, so no test can demand a choice",
 ["src/gs.c"],
 [("choice", "gs.c: auto_setup, dry_run_time"), ("reports", "gs.c: gs_setup_aux"), ("sizes", "gs.c: pw_setup_aux, cr_setup_aux, allreduce_setup_aux, local_setup")],
 "property-based testing with a simulated clock: the times, the traffic of the chosen method and the memory taken are compared with those of handles set up by each method",
 "time passes only in messages and collectives, by generated amounts; memory is compared up to 64 (Fortran 256) bytes per process for parts of a handle that are not counted")
NOT_APPLICABLE = []
