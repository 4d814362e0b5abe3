"""Which programs and scenarios decide which property."""
CAT = ["cat", "cat_a", "cat_b", "cat_c", "cat_d", "cat_e", "cat_l", "scen_cat"]
HIST = ["hist_double", "hist_int", "hist_complex", "scen_hist"]
IO = ["io_real", "io_int", "io_complex", "scen_io"]
MISC = ["scen_misc", "misc_rand", "misc_sim", "misc_share"]
GROUPS = {"cat": CAT, "hist": HIST, "io": IO, "misc": MISC}
# What can be left out, if it does not compile against the present tree, without
# leaving a property undecided: single operations of the catalogue, and these.
DROPPABLE = {"hist_double": [], "hist_int": [], "hist_complex": [], "io_int": [], "io_complex": [],
             "misc_rand": ["C12"], "misc_sim": ["C13"], "misc_share": ["C15"]}
CHECKS = {
    "C01": {
        "parts": [{"group": "cat", "scenario": "C01", "quick": 9000}],
        "rule": "2-4 threads run 1-5 catalogue operations each on private operands under a random list of context switches, sometimes with failing allocations in one of them; every result is compared with the same thread running alone, and every pair of unsynchronised conflicting accesses is a violation.",
        "state": "hash of (operation, result, how it ended)",
    },
    "C02": {
        "parts": [{"group": "cat", "scenario": "C02", "quick": 9000}],
        "rule": "2-4 threads run 1-5 catalogue operations each on the same read-only operands under a random list of context switches; results are compared with running alone, the operands with their value before.",
        "state": "hash of (operation, result, how it ended)",
    },
    "C03": {
        "parts": [{"group": "cat", "scenario": "C03", "quick": 30000},
                  {"group": "hist", "scenario": "H03", "quick": 80000}],
        "rule": "Every operation runs without a fault, then with a random one of its allocations failing (once or from then on), then again without. Histories of 6-20 steps over a pool of matrices and vectors, nearly every step with a failing allocation, compared with a reference model after every step.",
        "state": "hash of (operation, failing allocation, result, how it ended)",
    },
    "C04": {
        "parts": [{"group": "cat", "scenario": "C04", "quick": 40000},
                  {"group": "hist", "scenario": "H04", "quick": 80000}],
        "rule": "Operations on operands of unrelated shapes (including empty ones), with and without failing allocations; histories over a pool of matrices, vectors and views with failing allocations, at the end of which nothing may be left allocated.",
        "state": "hash of (operation, result, how it ended)",
    },
    "C05": {
        "parts": [{"group": "hist", "scenario": "C05", "quick": 150000}],
        "rule": "Histories of 6-20 operations on a pool of matrices and vectors (double, int or complex), some with failing allocations; after every step every object of the pool is compared with a reference model through every access path.",
        "state": "hash of (step, resulting shapes and elements of the pool)",
    },
    "C06": {
        "parts": [{"group": "hist", "scenario": "C06", "quick": 150000}],
        "rule": "Histories of 6-20 operations on matrices and on views of them (range, row, column, excluding, constant, nested), with parents being resized, reassigned and written in between and allocations failing; every view is compared with the window of the reference model of its parent after every step, and operations given a view with the same operation on a copy.",
        "state": "hash of (step, resulting shapes and elements of the pool)",
    },
    "C07": {
        "parts": [{"group": "io", "scenario": "C07", "quick": 60000}],
        "rule": "1-6 records of random element types, shapes, precisions and sources (objects, views, converted) are written to a simulated disk and read back, with short writes and reads, EINTR, and small transfer chunks.",
        "state": "hash of (bytes on the disk, loaded objects)",
    },
    "C08": {
        "parts": [{"group": "io", "scenario": "C08", "quick": 60000, "probes": {"p0": "saves reported as successful", "p1": "saves that threw", "p2": "saves whose stream failed", "p3": "complete files"}}],
        "rule": "1-6 records are written to a simulated disk on which opens, writes and closes fail or are cut short, the disk fills, and allocations fail; whatever is reported as success must be completely on the disk and load back.",
        "state": "hash of (bytes on the disk, stream state, how it ended)",
    },
    "C09": {
        "parts": [{"group": "io", "scenario": "C09", "quick": 80000, "probes": {"p0": "loads that succeeded", "p1": "loads that failed after a valid header", "p2": "loads that found no header"}}],
        "rule": "Files that were saved and then cut by a crash, truncated, torn, zeroed, bit-flipped, overwritten or given another header are loaded, with failing and short reads; an independent parser of the delivered bytes decides whether the stream had to be good and with which contents.",
        "state": "hash of (bytes delivered, result, stream state)",
    },
    "C10": {
        "parts": [{"group": "io", "scenario": "C10", "quick": 60000, "probes": {"p2": "no valid header", "p3": "header beyond memory", "p4": "stream already failed", "p5": "dimensions beyond representation"}}],
        "rule": "Damaged and adversarial files are loaded into targets in all states, with failing reads and allocations; afterwards the target must be consistent, unchanged where promised, and usable in a random history of copies, assignments and further loads; the work of a load is bounded by the bytes it read.",
        "state": "hash of (bytes delivered, result, target)",
    },
    "C11": {
        "parts": [{"group": "io", "scenario": "C11", "quick": 60000}],
        "rule": "Objects are printed to a sink that accepts everything, then to one that stops or throws at a random byte, with random format state and exception mask and failing allocations; what arrives must be a prefix of the complete text, the complete text must contain the elements in the layout.",
        "state": "hash of (text, bytes accepted, stream state)",
    },
    "C12": {
        "parts": [{"group": "misc", "scenario": "C12", "quick": 40000, "probes": {"p0": "samples large enough to check their spread"}}],
        "rule": "1-4 threads generate random vectors and matrices from simulated entropy that is fixed per call, sometimes stuck, failing on open or read, with failing allocations, under random context switches; every call is compared with the same call running alone on the same entropy, on other entropy, and on continued entropy.",
        "state": "hash of (generated data, how it ended)",
    },
    "C13": {
        "parts": [{"group": "misc", "scenario": "C13", "quick": 80000, "probes": {"p0": "checkpoints that loaded", "p1": "checkpoints that were rejected"}}],
        "rule": "A random discrete model is simulated in one go, step by step, and in pieces with checkpoints on a simulated disk that crashes, tears, fills up and fails, resuming from the newest checkpoint that loads; trajectories are compared bit for bit and with the difference equations.",
        "state": "hash of (trajectory, checkpoints on the disk)",
    },
    "C15": {
        "parts": [{"group": "misc", "scenario": "C15", "quick": 50000}],
        "rule": "2-4 threads run random writes, assignments, in-place operations, swaps and reads on disjoint windows (row and column blocks, single rows, columns and elements, quadrants) of one matrix under random context switches and failing allocations; results are compared with a per-window model and every pair of unsynchronised conflicting accesses is a violation.",
        "state": "hash of (final matrix)",
    },
    "C14": {
        "parts": [{"group": "cat", "scenario": "C14", "quick": 20000, "dual": True, "probes": {"p0": "repetitions of one operation within a history"}}],
        "rule": "A target operation runs in a fresh process and again after a random history of other operations, rejected ones and failed ones, with other contents of fresh heap memory and of the stack; the same plans run in a second build whose uninitialised locals are zero instead of a pattern.",
        "state": "hash of (operation, result, memory contents mode)",
    },
    "C16": {
        "parts": [{"group": "cat", "scenario": "C16", "quick": 40000}],
        "rule": "Operations run on ordinary operands and on operands of the same shapes with NaN, infinities, subnormals, huge numbers and zeros, under other tolerances and rounding modes, and on operands of twice the dimensions, others on thousands of elements and four times as many; then again with an allocation failing once or for good. Whatever happens they must come back by returning or by an exception of the usual kinds, within a multiple of the work of the ordinary operands (128 times for twice the dimensions, 300 times for four times the elements, 1000 times for other values), and with a use of the stack that does not grow with the operands.",
        "state": "hash of (operation, result, how it ended)",
    },
}
