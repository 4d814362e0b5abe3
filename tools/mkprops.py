#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})
I = "include/malg/"
ALL = [I + f for f in ("vector.hpp", "matrix.hpp", "view.hpp", "math.hpp", "utility.hpp", "linalg.hpp", "io.hpp", "feq.hpp", "complex_math.hpp", "control/control.hpp")]

prop("C01", "Threads working on their own objects never affect one another",
 "When several threads use the library at the same time, each on vectors, matrices, views, models and streams of its own, every operation in every thread produces exactly the result, the exceptions and the effects it produces when that thread runs alone. No such program contains a data race, and a failed allocation in one thread never shows in another.",
 ["schedules", "fault_sequences", "programs"],
 "Every program of two to four threads over the public operations on thread-private objects, every interleaving of their memory accesses, and every placement of allocation failures in one of the threads.",
 "All nine tests are single threaded; none can reach an interleaving, so a hidden shared cache, scratch buffer or unsynchronised lazy initialisation passes all of them.",
 ALL,
 [("no operation keeps mutable state outside its operands; results are built in locals", "include/malg/math.hpp, linalg.hpp, utility.hpp, control/control.hpp"),
  ("the only process-wide object is the comparison tolerance, written by the user only", "include/malg/feq.hpp tolerance()"),
  ("function-local static in the QR decomposition is stateless", "include/malg/linalg.hpp qr_decomposition")],
 [("tolerance", "process-wide relative tolerance used by comparisons", "include/malg/feq.hpp")],
 ["results and exceptions of each thread's operations", "memory accesses of the instrumented library code"])

prop("C02", "Shared constant objects can be read by many threads at once",
 "Any number of threads may at the same time use the same vectors, matrices, views, models as read-only operands of library operations. Every such operation returns what it returns when run alone, the shared operands are bit for bit unchanged afterwards, and no two accesses to them or to library state race.",
 ["schedules", "programs"],
 "Every set of read-only operations run by two to four threads on common operands, and every interleaving of their memory accesses.",
 "No test is multi-threaded; a lazily filled cache inside an object, a temporary modification that is undone before returning, or a shared scratch area is invisible to sequential tests.",
 ALL,
 [("const access paths do not modify the object", "include/malg/vector.hpp, matrix.hpp, view.hpp (const overloads)"),
  ("algorithms copy their operand before transforming it", "include/malg/linalg.hpp determinant, lu_decomposition, expm, qr_decomposition; control/control.hpp poly")],
 [("element storage", "elements of the shared operand", "include/malg/vector.hpp")],
 ["results of the operations", "bytes of the shared operands", "memory accesses of the instrumented library code"])

prop("C03", "A failed allocation is reported, and nothing is lost or corrupted by it",
 "When a memory allocation fails during an operation, at whatever allocation and for however long, the operation either throws std::bad_alloc (an operation on a stream may instead mark that stream as failed) or completes with its normal result; it never crashes or returns a wrong or shortened result. Operands passed as inputs keep their value, the target of an assignment, resize or load is still a valid object that can be used, assigned and destroyed, a vector or matrix whose whole-object assignment or resize failed keeps its old value, and the same operation succeeds normally once memory is available again.",
 ["fault_sequences", "programs", "inputs"],
 "Every public operation, every allocation made during it (single failure or lasting exhaustion, and a request larger than memory), every later history on the same objects.",
 "The tests never see an allocation fail; every failure branch of the library is unexecuted by them.",
 [I + "vector.hpp", I + "matrix.hpp", I + "math.hpp", I + "utility.hpp", I + "linalg.hpp", I + "io.hpp", I + "control/control.hpp"],
 [("all element storage is obtained in one place", "include/malg/vector.hpp allocate()"),
  ("results are built in temporaries before being installed", "include/malg/matrix.hpp operator=, resize")],
 [("_data/_size", "owned block and its element count", "include/malg/vector.hpp"), ("_rows/_cols", "shape of the matrix", "include/malg/matrix_base.hpp")],
 ["exceptions", "values of all live objects after the failure", "stream state"])

prop("C04", "No operation reads or writes memory it does not own, or leaks any",
 "Whatever sequence of operations is applied to correctly constructed objects, including operands of any shapes (empty, non-square, mismatched), self-assignment, moved-from objects, rejected requests and failed allocations, the library only accesses storage that belongs to live objects and releases every block exactly once. Operations whose operand shapes do not fit reject them instead of accessing memory out of range. After all objects of a program are destroyed no storage obtained by the library remains.",
 ["histories", "fault_sequences", "inputs"],
 "Every history of public operations over object pools of any shapes, with allocation failures at any point; checked on every heap access made by the library.",
 "The tests run a few fixed shapes without a memory checker; out-of-range reads and leaks on rejection or failure paths do not change their verdict.",
 [I + "vector.hpp", I + "matrix.hpp", I + "view.hpp", I + "math.hpp", I + "utility.hpp", I + "linalg.hpp", I + "control/control.hpp", I + "io.hpp"],
 [("single owner of each block, freed in the destructor", "include/malg/vector.hpp"),
  ("shape checks at the head of operations", "include/malg/math.hpp, utility.hpp, linalg.hpp")],
 [("_data/_size", "owned block and its element count", "include/malg/vector.hpp")],
 ["every heap access of the library", "live blocks at the end of the program"])

prop("C05", "Vectors and matrices behave as independent values over any history",
 "After any sequence of constructions, copies, moves, assignments (also from empty objects, from itself, from objects of another element type), element writes, resizes, reshapes, stackings, concatenations, swaps, removals, extractions and in-place arithmetic (also with one of the target's own elements as the scalar), every vector and matrix has exactly the shape and elements that plain value semantics prescribe: resizing keeps the common block and zero-fills new elements, copies are independent, a moved-from object is valid and reusable, an object moved onto itself keeps its value. A rejected operation changes nothing.",
 ["histories", "fault_sequences", "inputs"],
 "Every finite history of these operations over a pool of objects with element types double, int and complex, interleaved with allocation failures; compared with a reference model after every step.",
 "Tests exercise one or two operations in a row on fresh objects; the state left by an earlier operation (empty, moved-from, shrunk, reshaped, failed) is what breaks the later one.",
 [I + "vector.hpp", I + "matrix.hpp", I + "utility.hpp", I + "math.hpp"],
 [("copy/move/assign operators", "include/malg/vector.hpp, matrix.hpp"), ("resize/reshape", "include/malg/matrix.hpp, vector.hpp allocate()"),
  ("stack/remove/swap/extract", "include/malg/utility.hpp")],
 [("_data/_size", "elements", "include/malg/vector.hpp"), ("_rows/_cols", "shape", "include/malg/matrix_base.hpp")],
 ["rows(), cols(), size(), empty(), element access, iteration after every step"])

prop("C06", "A view is always the live window of its matrix",
 "At every moment of any history, a view (range, row, column, row-and-column-excluding, constant, or a view of a view) has the shape of its window clipped to the current size of its matrix, reads the matrix's current elements at the window's positions through every access path, and writes through it change exactly those elements. Any operation given a view returns what it returns for a matrix holding a copy of the window, and assigning to a matrix from a view of that same matrix stores the window's old contents.",
 ["histories", "inputs"],
 "Every history that interleaves writes through parents and views, swaps, resizes and reassignments of the parent that leave the window's start inside it, and operations taking views, over square and non-square parents; with allocation failures in between.",
 "The view test checks a handful of fixed windows over an unchanging matrix; the property is about every later state of the parent and about views nested in views.",
 [I + "view.hpp", I + "matrix.hpp", I + "utility.hpp"],
 [("View: pointer to parent plus ranges, resolved at each access", "include/malg/view.hpp View"), ("CofactorView index mapping", "include/malg/view.hpp CofactorView"),
  ("assignment from a view copies before releasing storage", "include/malg/matrix.hpp operator=")],
 [("_matrix/_row/_col", "parent and window", "include/malg/view.hpp")],
 ["shape and elements of views and parents after every step", "results of operations on views"])

prop("C07", "Saved data loads back as the same data",
 "A sequence of vectors and matrices written to a file through the library's file operators and read back in the same order gives objects of the same shapes whose elements are the values written, each rounded to the stream's precision (bit-exact at 17 digits for double), with the stream good after every record and positioned after the last one. This holds for finite elements of every numeric type (whose rounded value the type can represent), for every shape including empty ones, for views, for every locale and number format of the streams in which they can read back the numbers they print, and however the operating system splits, shortens or interrupts the reads and writes.",
 ["inputs", "fault_sequences", "histories"],
 "Every sequence of records with finite elements and every precision from 1 to 17, with other signs, alignments, digit groups and decimal points, under every chunking, short transfer and EINTR pattern of the file system.",
 "The one file test writes one 5-vector and one 5x5 matrix at precision 9 through an undisturbed file system and compares within a tolerance.",
 [I + "io.hpp"],
 [("record writers", "include/malg/io.hpp operator<<(std::ofstream&)"), ("record readers", "include/malg/io.hpp operator>>(std::ifstream&)")],
 [("record", "type letter, dimensions, elements in row-major order", "include/malg/io.hpp")],
 ["objects after loading", "stream state", "bytes on the simulated disk"])

prop("C08", "A failed save is never reported as a success",
 "If, after objects have been written to a file through the library and the file has been closed, the stream reports success, then the file contains every record completely and loads back as what was saved. If any byte could not be stored (disk full, I/O error, failed open or close, failed allocation while formatting), the stream is in a failed state or an exception was thrown, and the objects being saved are unchanged.",
 ["fault_sequences", "inputs"],
 "Every point at which an open, write or close can fail or be cut short, every allocation failure during formatting, for every sequence of records.",
 "Tests write to a healthy disk; no failing write, full disk or failing close is ever reached.",
 [I + "io.hpp"],
 [("writers use the caller's stream and leave its state alone", "include/malg/io.hpp operator<<(std::ofstream&)"), ("formatting helper computes column width", "include/malg/io.hpp details::get_longhest_value")],
 [("stream state", "what the caller can see of the failure", "std::ofstream")],
 ["stream state after write, flush and close", "bytes on the simulated disk"])

prop("C09", "A load succeeds exactly when a complete, well-formed record was read",
 "After a load from a file, the stream is good() if and only if the bytes delivered from the current position begin with a complete record of the requested kind, up to and including the white space after its last element, and then the loaded object has exactly the dimensions and elements that record states. For a torn, overwritten or bit-flipped record, a record of the other kind, an exhausted file, or a read error before the record's end, the stream is left in a failed state; for a truncated one it is failed, or (if the file ends inside or right after the last element) at least at end-of-file.",
 ["crash_points", "fault_sequences", "inputs"],
 "Every crash point during the save of any record sequence, every truncation, lost or zeroed page, flipped bit and failing read, and garbage or mismatched headers; decided against an independent parser of the record format.",
 "The test reads back one intact file per type; no torn or damaged file is ever loaded, so a loader that accepts half a matrix passes.",
 [I + "io.hpp"],
 [("header and element extraction through the stream", "include/malg/io.hpp operator>>(std::ifstream&)")],
 [("record", "type letter, dimensions, elements", "include/malg/io.hpp")],
 ["stream state after each load", "loaded object"])

prop("C10", "A failed load leaves a usable object and does bounded work",
 "Whatever bytes a file contains and whatever read or allocation fails, a load terminates, throws nothing but std::bad_alloc (or what the caller enabled on the stream), and leaves the target a self-consistent object that can be read, copied, assigned, loaded again and destroyed. A load from a stream that has already failed, or whose record header is not valid, leaves the target's value untouched, and dimensions whose storage cannot be represented or obtained make the load fail.",
 ["inputs", "fault_sequences", "histories"],
 "Every file content (including adversarial headers), every failing read or allocation during the load, every state of the target before it, and every history of later loads and uses of the same target.",
 "The test loads two valid files into fresh objects.",
 [I + "io.hpp", I + "vector.hpp", I + "matrix.hpp"],
 [("header checks before the target is resized", "include/malg/io.hpp operator>>(std::ifstream&)"), ("storage requests", "include/malg/vector.hpp allocate()")],
 [("target", "vector or matrix being loaded", "include/malg/io.hpp")],
 ["exceptions", "target's shape and elements", "memory requested"])

prop("C11", "Text output is deterministic, side-effect free and fails only as its sink does",
 "Printing a vector, matrix, view, model or range to a text stream, and the functions that render them to strings, produce every element in order in the documented layout at the stream's precision, leave the operand and the stream's formatting (flags, precision, fill, and the width unless the stream has failed) as they were, and give the same text every time. If the sink accepts only part of the output, what it received is a prefix of that text and the stream is marked failed (or throws, if the caller enabled exceptions); later output to another stream is unaffected.",
 ["fault_sequences", "inputs", "schedules"],
 "Every object, every prior format state of the stream, every byte position at which the sink can fail or throw, with and without stream exceptions, and every allocation failure while rendering to a string.",
 "No test looks at rendered text, at a failing sink, or at the stream's state afterwards.",
 [I + "io.hpp"],
 [("text writers", "include/malg/io.hpp operator<<(std::ostream&)"), ("string renderers", "include/malg/io.hpp dump_vector, dump_matrix, to_matlab")],
 [("format state", "flags, precision, fill, width of the caller's stream", "std::ostream")],
 ["bytes received by the sink", "stream state and format", "operand"])

prop("C12", "Random generation depends only on the entropy source and stays in range",
 "A randomly generated vector or matrix has the requested shape and element type, every element (both parts of a complex one) lies within [min, max], and large samples spread over the whole interval. The data are a function of what the entropy source delivered to the calling thread and of the arguments only: the same entropy gives the same data in any thread, schedule or memory state, different entropy gives different data, and if the entropy source fails the failure is reported by an exception with nothing leaked.",
 ["schedules", "fault_sequences", "inputs"],
 "Every entropy stream (including stuck and failing ones), every shape and interval, every element type, every interleaving of generating threads, every allocation failure during generation.",
 "Tests use random data as filler and never fix, fail or compare the entropy source.",
 [I + "utility.hpp"],
 [("engine seeded from the entropy device at each call", "include/malg/utility.hpp rand_matrix, rand_vector"), ("uniform distribution over [min, max]", "include/malg/utility.hpp rand_matrix, rand_vector")],
 [("entropy device", "the only outside input", "std::random_device")],
 ["generated objects", "exceptions", "entropy requested"])

prop("C13", "A discrete simulation resumes from a checkpoint exactly where it stopped",
 "Simulating a discrete model in one go, step by step, or in pieces that are saved to a file at 17 digits and resumed after a crash from the last checkpoint that loads, gives the same states and outputs bit for bit. The trajectory is the one the model's equations x' = Ax + Bu, y = Cx + Du prescribe, with one state more than outputs, as many steps as the inputs and the requested duration allow, and the k-th time stamp equal to k sample periods.",
 ["crash_points", "fault_sequences", "histories", "inputs"],
 "Every model and input sequence, every way of cutting the run into pieces, every crash point and disk fault during checkpointing, allocation failures while simulating.",
 "The control tests never call the simulator, let alone stop and resume it.",
 [I + "control/control.hpp", I + "io.hpp", I + "math.hpp"],
 [("one step of the difference equations", "include/malg/control/control.hpp simulate_step"), ("trajectory loop", "include/malg/control/control.hpp simulate"), ("checkpoint records", "include/malg/io.hpp")],
 [("x", "state vector carried between steps", "include/malg/control/control.hpp simulate")],
 ["returned times, states, outputs", "checkpoint files on the simulated disk"])

prop("C14", "Results depend only on the operands, never on history or memory contents",
 "The same operation on equal operands gives bit-identical results whatever operations, failures or allocations came before it in the process and whatever fresh memory happened to contain. No operation changes process-wide state: the comparison tolerance, floating-point environment, locale and the formatting of standard streams stay as the user set them.",
 ["histories", "fault_sequences", "configurations"],
 "Every history of other operations (including rejected and failed ones) before the operation, and every content of fresh heap and stack memory.",
 "Tests run one fixed sequence in one process whose fresh memory is mostly zero; a read of uninitialised memory or a stale cache gives the expected answer there.",
 ALL,
 [("new element storage is zero-filled", "include/malg/vector.hpp allocate()"), ("accumulators start from zero", "include/malg/math.hpp, linalg.hpp"), ("the tolerance is only read by the library", "include/malg/feq.hpp")],
 [("tolerance", "process-wide relative tolerance", "include/malg/feq.hpp")],
 ["results of the operations under different histories and memory contents", "process-wide state before and after"])

prop("C15", "Threads writing through disjoint views of one matrix do not interfere",
 "When threads concurrently write to a common matrix through views, element accesses or in-place operations that touch disjoint sets of its elements, while no thread changes its shape, the final matrix holds exactly what the writes would have produced in any sequential order, each thread reads back its own elements, and no elements outside the written windows change. No two accesses of such a program race.",
 ["schedules", "histories"],
 "Every partition of a matrix into windows (rows, columns, blocks, nested views) for two to four threads, every sequence of writes, in-place operations and reads on each, every interleaving.",
 "The tests are single threaded and never write through two views of one matrix at the same time.",
 [I + "view.hpp", I + "matrix.hpp", I + "math.hpp", I + "utility.hpp"],
 [("a write through a view touches one element of the parent and no other state", "include/malg/view.hpp, matrix.hpp at()"), ("in-place operations write each element once, inside the operand", "include/malg/math.hpp compound operators; utility.hpp swap_rows, swap_cols")],
 [("element storage", "elements of the common matrix", "include/malg/vector.hpp")],
 ["the common matrix after all threads finished", "values each thread reads back", "memory accesses of the instrumented library code"])

prop("C16", "Every operation comes back after bounded work and none ends the process",
 "Whatever the shapes and values of its operands (NaN, infinities, subnormals, huge numbers, singular or unreachable systems, any duration, accuracy or comparison tolerance), whatever rounding mode is set and whichever allocations fail, every library operation returns or throws bad_alloc or a logic or runtime error, after work bounded by a polynomial in the sizes of its operands. None loops for ever, deadlocks, exhausts the stack or ends the process, and the operations after a failed one come back as well. (Integer division by zero and overflow of integer elements are the caller's.)",
 ["inputs", "fault_sequences", "configurations"],
 "Every operation on operands of every shape and every floating-point value, in every rounding mode and at every comparison tolerance, with every placement of a single or lasting allocation failure.",
 "Tests use a few well-behaved operands in the default environment with memory to spare; a loop whose exit condition a NaN, an infinity or a failed allocation never meets passes them all.",
 ALL,
 [("loops are bounded by dimensions; the series of the exponential ends when its terms vanish", "include/malg/linalg.hpp expm; math.hpp log2_ceil"),
  ("operands that do not fit are rejected by exceptions", "include/malg/math.hpp, linalg.hpp, view.hpp, control/control.hpp"),
  ("a failed allocation leaves the operation by an exception", "include/malg/vector.hpp allocate()")],
 [],
 ["whether and how the operation came back", "number of memory accesses it made"])

def na(id, title, statement, text, why, files, mech):
    prop(id, title, statement, ["inputs"], text, why, files, mech)
na("N01", "Element-wise arithmetic computes the scalar operation at every position",
 "Sums, differences, products and quotients of matrices, vectors and scalars equal the scalar operation applied to each pair of elements, in the common element type, for every shape; mismatched shapes are rejected.",
 "Every pair of operands of every shape and element type.", "Tests cover a few fixed operands.", [I + "math.hpp", I + "complex_math.hpp", I + "type_traits.hpp"], [("operators", "include/malg/math.hpp")])
na("N02", "Matrix and vector products satisfy their algebraic definition",
 "The product of an m-by-k and a k-by-n matrix has element (r,c) equal to the sum over k of A(r,k)B(k,c); products with vectors and powers agree with it.",
 "Every pair of conformal operands.", "Tests cover a few fixed operands.", [I + "math.hpp", I + "linalg.hpp"], [("operator*, dot, powm", "include/malg/math.hpp, linalg.hpp")])
na("N03", "Determinant, adjoint and inverse agree with their definitions",
 "det is multiplicative and alternating, A adj(A) = det(A) I, and A inverse(A) = I within rounding for every well-conditioned square A; singular matrices yield the empty matrix.",
 "Every square matrix.", "Tests cover a few fixed matrices.", [I + "linalg.hpp"], [("determinant, adjoint, inverse", "include/malg/linalg.hpp")])
na("N04", "LU and QR factors reproduce the factored matrix",
 "L times U, and Q times R, equal the factored matrix within rounding; L is lower triangular, U unit upper triangular, Q orthogonal, R upper triangular.",
 "Every matrix for which the factorisation exists.", "Tests cover one fixed matrix each or none.", [I + "linalg.hpp"], [("lu_decomposition, qr_decomposition", "include/malg/linalg.hpp")])
na("N05", "Linear solve returns the (least-squares, minimum-norm) solution",
 "For square, over- and underdetermined full-rank systems the returned vector is the exact, least-squares, or minimum-norm solution within rounding.",
 "Every full-rank system.", "Not instantiated by any test.", [I + "linalg.hpp"], [("solve, div", "include/malg/linalg.hpp")])
na("N06", "The matrix exponential and discretisation match the continuous model",
 "expm(A) equals the power series of A within the requested accuracy, and the discretised model reproduces the continuous model at the sample instants.",
 "Every invertible A and sample time.", "Tests cover fixed matrices.", [I + "linalg.hpp", I + "control/control.hpp"], [("expm, c2d", "include/malg/linalg.hpp, control/control.hpp")])
na("N07", "Controllability, observability and pole placement are correct",
 "The controllability and observability matrices have their defined blocks, and the placed gains give the closed loop the requested poles.",
 "Every controllable pair and pole set.", "Tests cover fixed systems.", [I + "control/control.hpp"], [("ctrb, obsv, acker", "include/malg/control/control.hpp")])
na("N08", "Polynomial helpers expand roots and strip leading zeros",
 "poly returns the monic polynomial with the given roots or the characteristic polynomial, polyreduce removes exactly the leading zeros.",
 "Every root vector or matrix.", "Tests cover fixed vectors.", [I + "control/control.hpp"], [("poly, polyreduce", "include/malg/control/control.hpp")])
na("N09", "Comparisons and predicates agree with the tolerance definition",
 "Element-wise comparisons, all/any, all_close, symmetric/triangular/diagonal predicates return what their definitions under the current tolerance say.",
 "Every pair of operands and tolerance.", "Tests cover fixed operands.", [I + "math.hpp", I + "feq.hpp", I + "utility.hpp"], [("comparisons", "include/malg/math.hpp, feq.hpp")])
na("N10", "Generators produce the documented matrices and vectors",
 "eye, zeros, ones, diag, linspace, logspace return the documented contents for all arguments.",
 "Every argument.", "Tests cover fixed arguments.", [I + "utility.hpp"], [("generators", "include/malg/utility.hpp")])
na("N11", "Norms, traces, extrema and searches equal their definitions",
 "Norms, trace, sum, min, max, find, flatnonzero, compare return what their definitions say for every operand.",
 "Every operand.", "Tests cover fixed operands.", [I + "math.hpp", I + "utility.hpp"], [("reductions", "include/malg/math.hpp, utility.hpp")])
na("N12", "Eigenvalue iterations converge to the eigenvalues",
 "The eigenvalue routines return the eigenvalues of the matrix within the tolerance.",
 "Every diagonalisable matrix.", "No test instantiates them.", [I + "eigen.hpp"], [("eigen routines", "include/malg/eigen.hpp")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
