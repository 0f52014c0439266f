#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the text of every property lives here)."""
import json, os, re, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration"):
    assert len(title) <= 80, title
    assert len(re.findall(r"[.](?:\s|$)", statement)) <= 3, (id, statement)
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, level=level))

MOCK = "MPI is a deterministic in-process model (ranks are coroutines, the schedule is a generated choice); "
GSF = ["src/gs.c", "src/gs_local.c", "src/gs.h", "src/gs_defs.h"]

prop("G01", "Gather-scatter combines exactly the values sharing an id, on all processes",
 "For every distribution of ids over processes, every domain, reduction operator, exchange method and message timing, a gather-scatter leaves in every location with a nonzero id the reduction of all values held anywhere under that id. Locations with id zero are never read into a result and never changed; flagged (negative-id) locations contribute but are not set, and in the transposed form they are set but do not contribute. Repeated operations on one handle are independent of each other.",
 ["inputs", "configurations", "schedules", "histories"],
 "every process count, id layout with repeats, zeros and flags, domain, operator, method, transpose, message order and sequence of operations",
 "the tests use one fixed id pattern with an all-ones field and two processes, so wrong grouping, a missed neighbour, a stale buffer or an order-dependent exchange is not visible",
 GSF, [("local gather/scatter maps", "gs.c: local_map, nonzero_topology"), ("pairwise exchange", "gs.c: pw_setup, pw_exec"), ("crystal-router exchange", "gs.c: cr_setup, cr_exec"), ("all-reduce exchange", "gs.c: allreduce_setup, allreduce_exec"), ("local kernels", "gs_local.c")],
 "model-based property testing: random topologies and schedules against a sequential reference gather-scatter",
 MOCK + "values are chosen so that every operator is exact in every domain, so the comparison is bit for bit")
prop("G02", "Vector and multi-array gather-scatter equal independent scalar ones",
 "A gather-scatter of vectors, or of several arrays at once, changes memory exactly as the scalar operation applied separately to each component or array, for every vector length, number of arrays, domain, operator, method and transpose. Nothing outside the given arrays is touched.",
 ["inputs", "configurations", "schedules", "histories"],
 "as G01, with 1 to 7 components or arrays and repeated calls with growing and shrinking component counts on one handle",
 "the tests use one vector length over one pattern; a stride, buffer-size or component mix-up that needs another length, method or a reused handle is not reached",
 GSF, [("vector kernels and buffers sized by component count", "gs.c: gs_aux_vec, gs_aux_many, dom_size*vn"), ("message scaling", "gs.c: pw_exec_recvs, cr_exec")],
 "model-based property testing: random topologies against a sequential reference, per component",
 MOCK + "arrays are exact-size heap blocks under the address sanitizer")
prop("G03", "Nonblocking gather-scatter gives the blocking result for any interleaving",
 "A nonblocking gather-scatter (scalar, vector, multi-array), once waited for, has the same effect as the blocking one, whatever other blocking and nonblocking operations on other handles run in between, in whatever order each process completes them and however messages are timed. Every message it starts is received and every request it creates is completed.",
 ["schedules", "histories", "inputs", "configurations"],
 "1 to 3 handles with operations in flight, blocking work in between, per-process completion orders, all methods, message schedules",
 "the tests start one nonblocking operation and wait for it at once on two processes; interference between outstanding operations and late messages is not exercised",
 GSF + ["src/comm.c", "src/comm.h"], [("request table", "gs.c: gs_nb bookkeeping, igs, gs_wait"), ("deferred unpack", "gs.c: pw_exec_wait, cr, allreduce wait")],
 "stateful property testing over generated operation histories and message schedules, against the reference model",
 MOCK + "one outstanding operation per handle, as the interface requires; the all-reduce method without nonblocking collectives is not supported by the library and left out")
prop("G04", "Making ids unique keeps exactly one unflagged holder per id",
 "After ids are made unique, exactly one location on the communicator holds each id unflagged (none if it was flagged everywhere) and every other one holds it flagged, no magnitude and no zero changes, and the choice is the same on every process. A handle set up with the unique option behaves exactly as a handle set up on such ids.",
 ["inputs", "configurations", "schedules", "histories"],
 "every id layout including already flagged ids, through the direct call, the Fortran call and the setup option, followed by operations",
 "the test has one pattern where every id is shared the same way and checks only a final sum",
 GSF, [("owner selection", "gs.c: gs_unique / make_topology_unique"), ("shared-id list ordering", "gs.c: shared_ids")],
 "property testing: validity predicate on the unique ids and reference gather-scatter on the resulting handle",
 MOCK + "ids flagged on input keep their flag")
prop("G05", "Gather-scatter handles are independent and tied to their own communicator",
 "Any number of gather-scatter handles, over the world or over duplicated or split communicators, created, used and freed in any interleaving through the C and the Fortran interface, give the results they would give alone. Freed Fortran handles may be reissued without disturbing live ones.",
 ["histories", "configurations", "schedules", "inputs"],
 "2 to 8 handles, 3 to 10 interleaved operations, setups and frees on different communicators",
 "the tests never have more than a few handles alive and never free one while using another",
 GSF + ["src/comm.h"], [("handle table", "gs.c: fgs_info, id_n, id_max"), ("private duplicate of the communicator", "gs.c: gs_setup, comm_dup")],
 "stateful property testing over generated handle lifecycles, against the reference model",
 MOCK + "splits use a common colour/key as MPI does")
prop("G06", "The Fortran gather-scatter interface is equivalent to the C one",
 "Each Fortran entry point (setup, setup with chosen method, scalar, vector, many, fields, their nonblocking forms with wait, unique, free) leaves memory exactly as the corresponding C operation, with domains and operators numbered as documented. The fields form treats array k as starting a given stride after array k-1.",
 ["inputs", "configurations", "histories", "schedules"],
 "every entry point, domain code, operator code, transpose flag, stride and component count, over random topologies",
 "one Fortran test calls one nonblocking form in one domain; strides, the other domains and the other forms are not called at all",
 ["src/gs.c", "src/gs.h", "src/gs_defs.h"], [("argument translation", "gs.c: fgs_op*, figs*, fgs_many, fgs_fields"), ("domain and operator tables", "gs.c: fgs_map tables")],
 "differential/model-based property testing of the Fortran entry points against the reference model",
 MOCK + "Fortran symbols are called with by-reference arguments as a Fortran compiler would")
prop("C01", "Reductions combine every process's contribution and agree everywhere",
 "All-reduce (blocking and nonblocking) and reduce return, for each element, the reduction of that element over all processes of the communicator, identically on every process (the root for reduce), in every domain and with every operator, including empty vectors. The global dot product is the sum of all local products.",
 ["inputs", "configurations", "schedules"],
 "process counts 1 to 12, any communicator, domain, operator, length, message order",
 "one test with two processes reduces a few values; non-power-of-two trees, by-hand operators and odd lengths are not reached",
 ["src/comm.c", "src/comm.h"], [("binary-tree reduction", "comm.c: allreduce_imp"), ("operator and type mapping", "comm.c: comm_allreduce, comm_iallreduce")],
 "property testing against a sequential reference reduction over generated schedules", MOCK + "exactly representable values, compared bit for bit")
prop("C02", "Scan returns the exclusive prefix and the total on every process",
 "For every process count, operator, domain and length, the scan gives process p the reduction over processes 0..p-1 (the operator's identity on process 0) together with the reduction over all processes. The input is unchanged.",
 ["inputs", "configurations", "schedules"], "process counts 1 to 12, any communicator, domain, operator, length, message order",
 "the existing test runs two processes with one operator, which cannot distinguish the tree shapes",
 ["src/comm.c", "src/comm.h"], [("binary-tree scan", "comm.c: scan_imp")],
 "property testing against a sequential reference scan over generated schedules", MOCK + "exactly representable values")
prop("C03", "Communicator wrappers deliver the right data to the right process",
 "Broadcast, gather, point-to-point messages and barriers deliver exactly the bytes sent, by the process, with the tag and on the communicator named, for any root, size and interleaving; a barrier is passed by nobody before everybody reached it. Duplicated and split communicators have the documented ranks and sizes and traffic on one never reaches another.",
 ["schedules", "histories", "configurations"], "process counts 1 to 10, 1 to 6 calls on several communicators, message order",
 "tests only use the wrappers in passing on two processes",
 ["src/comm.c", "src/comm.h"], [("wrappers", "comm.h: comm_bcast, comm_gather, comm_isend/irecv, comm_wait, comm_barrier"), ("setup", "comm.h: comm_init, comm_dup, comm_split")],
 "stateful property testing on a deterministic MPI model with unexpected-message and reordering schedules", MOCK + "the model checks matching, truncation and completion rules of the MPI standard")
prop("R01", "The crystal router delivers every message exactly once, intact",
 "For every process count and every pattern of messages of any length (including empty and self messages), after routing each process holds exactly the messages addressed to it, each with its sender and unchanged contents, and nothing else. Repeated use of one router never loses, duplicates or mixes messages.",
 ["inputs", "configurations", "schedules", "histories"], "process counts 1 to 12 (not only powers of two), all destination patterns, sizes, rounds, schedules",
 "one test with two processes sends a regular pattern; uneven splits, empty senders and buffer growth on other process counts are not reached",
 ["src/crystal.c", "src/crystal.h"], [("recursive bisection", "crystal.c: crystal_router"), ("split and buffers", "crystal.c: crystal_move, crystal_exchange")],
 "property testing: multiset equality of sent and received messages over generated patterns and schedules", MOCK + "order of delivery is not constrained")
prop("R02", "Array transfer moves each row to its named process unchanged",
 "Transferring an array of structures (or several parallel arrays) moves every row to the process its destination names, byte for byte, each exactly once, in no promised order; the process field of a row is replaced by the source when asked and kept otherwise, so transferring back returns every row home. An external destination list works the same without a field in the row.",
 ["inputs", "configurations", "schedules", "histories"], "process counts 1 to 10, row sizes from 1 byte, field positions, 1 to 3 parallel arrays, sequences of transfers",
 "the test moves one row type once on two processes",
 ["src/sarray_transfer.c", "src/sarray_transfer.h", "src/crystal.c"], [("pack/unpack", "sarray_transfer.c: pack_int, unpack_int, pack_more, unpack_more"), ("routing", "sarray_transfer.c: sarray_transfer_many")],
 "property testing: exact multiset of expected rows computed from the generated ones; there-and-back round trip", MOCK + "the header leaves the order of the rows open")
prop("R03", "Fortran tuple-list transfer moves tuples intact and reports overflow",
 "Transferring Fortran tuple lists of integers, long integers and reals moves each column as one unit to the process its key names and replaces the key by the source. A receiver whose table is too small gets the true count and as many whole tuples as fit, and never writes past its tables.",
 ["inputs", "configurations", "schedules", "histories"], "process counts 1 to 10, table shapes including absent tables and zero capacity, key row positions, repeated transfers",
 "no test calls these entry points",
 ["src/fcrystal.c", "src/sarray_transfer.c", "src/crystal.h"], [("tuple transfer", "fcrystal.c: fcrystal_tuple_transfer, fcrystal_ituple_transfer"), ("capacity handling", "sarray_transfer.c: fixed arrays")],
 "property testing under the address sanitizer with exact expected tables", MOCK + "tables are exact-size heap blocks")
prop("R04", "Fortran tuple-list sort is a stable multi-key sort of whole tuples",
 "Sorting a Fortran tuple list by a list of integer or long-integer key rows yields the same tuples in the lexicographic order of the keys, ties in their original order, every tuple kept whole across its tables. It holds for any list of keys including repeats.",
 ["inputs"], "0 to 900 tuples, any table shape, 0 to 4 keys, any nonnegative key values",
 "no test calls these entry points",
 ["src/fcrystal.c", "src/sort.c", "src/sort_imp.h", "src/sarray_sort.c"], [("key sort", "fcrystal.c: fcrystal_ituple_sort, fcrystal_tuple_sort"), ("permutation", "sarray_sort.c: sarray_permute")],
 "property testing against std::stable_sort of whole tuples", "trusts std::stable_sort")
prop("S01", "Value and index sorts are correct, stable and strided for every type",
 "Sorting values yields exactly the input multiset in ascending order, and index sorting yields the stable sorting permutation, for every key type (unsigned, long, float, double), any length, any stride and any value pattern including full-range, equal, presorted, negative and signed-zero values. Continuing from an existing permutation refines it (least significant key first), and the input is unchanged unless sorted in place.",
 ["inputs", "histories"], "lengths 0 to 6000 around the algorithm-switch point, strides, types, patterns, buffer reuse",
 "tests sort random arrays of a few fixed sizes and print or spot-check",
 ["src/sort.c", "src/sort_imp.h", "src/sort.h"], [("radix and merge sort", "sort_imp.h: radix_sort*, merge_sort*"), ("key maps for signed and real values", "sort.c / sort_imp.h")],
 "property testing against std::stable_sort", "no NaNs; trusts std::stable_sort")
prop("S02", "Structure-array sort orders whole rows, stably, by one to four fields",
 "Sorting an array of structures by one to four fields gives the stable lexicographic order and keeps every row intact; permuting rows of any size in place or through the buffer puts each row where the permutation says, and inverting a permutation gives its inverse. The result does not depend on what the scratch buffer held before.",
 ["inputs", "histories"], "lengths 0 to 4000, all field-type combinations, row sizes, buffer states",
 "the test sorts one structure by a fixed pair of fields",
 ["src/sarray_sort.c", "src/sarray_sort.h", "src/sort.h"], [("field sort macros", "sarray_sort.h: sarray_sort*"), ("in-place cycles", "sarray_sort.c: sarray_permute_")],
 "property testing against std::stable_sort and explicit permutation", "row layouts are generated; trusts std::stable_sort")
prop("M01", "Growable arrays and buffers never lose data or overrun their storage",
 "Through any sequence of initialise, reserve, resize, append, cat and free, a growable array keeps the contents it held, in order, has at least the capacity asked for, and never writes outside its allocation. Reserving grows geometrically (amortised) and never shrinks; alignment rounding is exact.",
 ["histories", "inputs"], "item sizes 1 to 100, 1 to 40 operations from empty, sized and foreign starting states",
 "no test targets them; the callers only grow them once or twice",
 ["src/mem.h", "src/fail.c"], [("array operations", "mem.h: array_init_, array_resize_, array_reserve_, array_cat_"), ("alignment", "mem.h: align_as_")],
 "stateful property testing against a std::vector model under the address sanitizer", "malloc succeeds (allocation failure is E02)")
prop("P01", "Quadrature rules have the right nodes, weights and exactness",
 "For every size, Gauss and Lobatto nodes are the increasing, symmetric zeros that define them, in [-1,1] with the ends included for Lobatto, weights are positive and sum to 2, and the rule integrates every polynomial of its guaranteed degree exactly to rounding. Node-only and node-and-weight calls agree.",
 ["inputs"], "both rules, sizes up to 150, random polynomials of the guaranteed degree",
 "the test prints errors for a few sizes",
 ["src/poly.c", "src/poly.h", "src/gen_poly_imp.c"], [("Newton on Legendre polynomials", "poly.c: gauss_nodes, lobatto_nodes"), ("weights", "poly.c: gauss_quad, lobatto_quad")],
 "property testing: exactness against closed-form integrals, node identities in long double", "rounding tolerances scale with the size")
prop("P02", "Lagrange evaluation reproduces polynomials and their derivatives",
 "For any distinct nodes and any evaluation point, inside, outside or on a node, the Lagrange basis values and first and second derivatives match the exact ones to rounding; the specialised Gauss-Lobatto evaluators agree with the general one. Evaluations through one workspace do not influence each other.",
 ["inputs", "histories", "configurations"], "node sets up to 41 nodes, all orders of the specialised evaluators, 0 to 2 derivatives, sequences of evaluations",
 "tests compare one random polynomial at random points for a few orders",
 ["src/poly.c", "src/poly_imp.h", "src/poly.h"], [("barycentric evaluation", "poly.c: lagrange_eval, lagrange_setup"), ("generated code for small orders", "poly_imp.h"), ("selection", "poly.c: gll_lag_setup")],
 "differential property testing against long-double evaluation", "tolerance scales with the Lebesgue sums of the case")
prop("P03", "Small tensor kernels compute the exact products in every configuration",
 "Each kernel (inner product, matrix-vector, matrix-matrix, transposed forms, one- to three-dimensional interpolation and gradient, tensor application) computes its defining formula for every combination of dimensions, identically in the naive, BLAS and application-supplied matrix-product builds. It writes only its output and its documented workspace.",
 ["inputs", "configurations"], "13 kernels, dimensions 1 to 41, three build configurations",
 "the kernels are only reached through the interpolation tests at a few fixed sizes in one configuration each",
 ["src/tensor.c", "src/tensor.h"], [("kernels", "tensor.c"), ("contractions", "tensor.h: tensor_i*, tensor_ig*, tensor_*t")],
 "differential property testing on integer data (exact) across build configurations", "integer-valued data below 2^53; exact-size blocks under the address sanitizer")
prop("B01", "Polynomial bounds enclose the polynomial everywhere",
 "For any field given on Gauss-Lobatto-Legendre nodes in one to three dimensions and any bound resolution of at least twice the order, the computed piecewise-linear lower and upper bounds enclose the field at every point, and the computed range is their extreme. Affine fields are bounded exactly and no range exceeds a modest multiple of the data's span.",
 ["inputs", "configurations"], "dimensions 1-3, orders 2-20, resolutions 2n-4n, several fields per call, all sample positions",
 "the test samples random fields of one order and resolution at random points",
 ["src/lob_bnd.c", "src/lob_bnd.h"], [("basis bounds", "lob_bnd.c: lob_bnd_setup"), ("tensor extension", "lob_bnd.c: lob_bnd_fst, lob_bnd_ext"), ("ranges", "lob_bnd.c: lob_bnd_1..3")],
 "property testing: sampled long-double evaluation against the bounds", "sampled points; below twice the order enclosure is not promised and not tested (except orders 2 and 3)")
prop("B02", "Element bounding boxes contain the whole element and are tight",
 "For every element, the axis-aligned and the oriented bounding box contain every point of the element, for any orders, bound resolutions, scale, position, rotation, aspect ratio and box tolerance, and the box test accepts every point of the element. For affine elements both boxes are exactly the element's, widened by the tolerance, and the oriented box coordinates are the reference coordinates.",
 ["inputs", "configurations"], "2-D and 3-D, orders 2-9 per direction, several elements, affine to strongly curved shapes",
 "the test prints boxes for random elements of one order",
 ["src/obbox.c", "src/obbox.h", "src/lob_bnd.c"], [("boundary bounds", "obbox.c: obbox_calc_2, obbox_calc_3"), ("box test", "obbox.h: obbox_test_2, obbox_test_3")],
 "property testing: element points evaluated in long double against both boxes", "elements with a singular centre Jacobian are checked against the axis box only")
exec(open(os.path.join(HERE, "tools", "meta_more.py")).read())

built = set()
for f in glob.glob(HERE + "/props/*.cpp"):
    built |= set(re.search(r"^// props: (.*)$", open(f).read(600), re.M).group(1).split())
with open(HERE + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
checks = [dict(property=p["id"], quick_cmd="VERIF_TIER=quick python3 run.py check " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 run.py check " + p["id"],
               technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P if p["id"] in built]
na = [dict(property=p["id"], reason="check not built yet") for p in P if p["id"] not in built] + NOT_APPLICABLE
json.dump(dict(version=1, setup_cmd="python3 run.py build", checks=checks, not_applicable=na,
  notes="No hooks in /repo: the machinery compiles /repo/src with its own mpi.h and allocation wrappers given on the compiler command line."),
  open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
