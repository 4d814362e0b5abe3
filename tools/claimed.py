T = "deterministic simulation with fault injection: "
CLAIMED.update({
 "C01": {"technique": T + "seeded schedules of threads on private objects, race detection, comparison with running alone",
         "note": "Random context-switch lists at instrumented accesses; the operations are a hand-written catalogue covering nearly all of the public interface that compiles."},
 "C02": {"technique": T + "seeded schedules of threads reading shared operands, race detection, comparison with running alone",
         "note": "As C01, the threads sharing constant operands."},
 "C03": {"technique": T + "failing allocation requests inside operations and object histories, compared with the fault-free run",
         "note": "Failing allocations are placed by seed, one or from some point on; simulated allocator."},
 "C04": {"technique": T + "shadow-checked simulated memory under operation histories and failing allocations",
         "note": "Every instrumented access is checked against the blocks of the simulated allocator; accesses inside uninstrumented libstdc++/libc code are checked at the interposed mem* and stream calls only."},
 "C05": {"technique": T + "object histories with failing allocations against a reference model",
         "note": "Histories and failing allocations are drawn by seed; the reference model is a plain row-major array per object."},
 "C06": {"technique": T + "histories of writes, resizes and views with failing allocations against a reference model",
         "note": "As C05, with views into the pool."},
 "C14": {"technique": T + "the same operation after different histories and memory contents, compared bit for bit",
         "note": "Two builds with different contents of uninitialised locals, random contents of fresh heap and stack memory."},
 "C07": {"technique": T + "records saved to and loaded from a simulated disk that splits, shortens and interrupts transfers",
         "note": "Record sequences, precisions and transfer patterns drawn by seed."},
 "C08": {"technique": T + "saves onto a simulated disk with failing, short and lost writes, full disk, failing open/close and allocations",
         "note": "The C++ file buffer of libstdc++ is real code; the system calls under it are simulated."},
 "C09": {"technique": T + "loads of crashed, torn and damaged files against an independent parser of the delivered bytes",
         "note": "Damage drawn by seed; the parser is an independent implementation of the record format."},
 "C10": {"technique": T + "loads of adversarial files with failing reads and allocations, then use of the target against a reference model",
         "note": "Work is bounded by counted instrumented accesses relative to the bytes read."},
 "C11": {"technique": T + "printing to sinks that fail or throw at any byte, compared with the complete text",
         "note": "Sinks, format states and exception masks drawn by seed."},
 "C12": {"technique": T + "simulated entropy device, seeded schedules and failures, comparison with running alone",
         "note": "std::random_device is replaced at its library seam; the engine and distributions are real."},
 "C13": {"technique": T + "crash and restart from checkpoints on a simulated disk, compared with the uninterrupted run",
         "note": "Discrete models of up to 4 states; crash points and disk faults drawn by seed."},
 "C15": {"technique": T + "seeded schedules of threads writing disjoint windows, race detection, comparison with sequential order",
         "note": "As C01, the threads sharing one matrix."},
 "C16": {"technique": T + "operations under extreme values, environments and lasting allocation failures must come back within bounded work",
         "note": "Work is counted in instrumented memory accesses and compared with the same operation on ordinary and on smaller operands."},
})
