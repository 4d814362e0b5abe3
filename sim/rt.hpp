// Deterministic simulation runtime for malg.
//
// Everything that can differ between two executions of the library goes
// through this file: heap, fresh-memory contents, thread interleaving, file
// system calls, clock, entropy.  One plan (see plan.hpp) decides all of it.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace rt {

// ---------------------------------------------------------------- results
enum Counter {
    K_OPS = 0,          // library operations executed
    K_EVENTS,           // instrumented memory events seen inside the library (simulated time)
    K_SWITCHES,         // context switches taken
    K_ALLOCS,           // allocations requested by the library
    K_F_PREEMPT,        // preemptions inside the library
    K_F_ALLOC_ONCE,     // fired: single allocation failure
    K_F_ALLOC_STICKY,   // fired: allocation failures in exhaustion mode
    K_F_ALLOC_HUGE,     // fired: request above the simulated memory size
    K_F_READ_SHORT, K_F_READ_EINTR, K_F_READ_EIO,
    K_F_WRITE_SHORT, K_F_WRITE_EINTR, K_F_WRITE_EIO, K_F_ENOSPC,
    K_F_OPEN, K_F_CLOSE,
    K_F_CRASH, K_F_TORN, K_F_LOST_PAGE, K_F_BITFLIP, K_F_TRUNC, K_F_GARBAGE,
    K_F_ENT_CTOR, K_F_ENT_GET, K_F_ENT_CONST,
    K_F_SINK,           // fired: text sink failed
    K_F_SINK_EXC,       // ... with stream exceptions enabled
    K_F_POISON,         // re-runs under other memory contents
    K_F_REUSE,          // allocations answered with a block that was used before
    K_F_RACE_FULL,      // accesses the race detector had no room for
    K_THROW_ALLOC, K_THROW_ARG, K_THROW_OTHER, // how operations ended
    K_P0, K_P1, K_P2, K_P3, K_P4, K_P5, K_P6, K_P7, K_P8, K_P9, // scenario probes
    K_PA, K_PB, K_PC, K_PD, K_PE, K_PF,
    K_COUNT
};
extern const char *const counter_names[K_COUNT];

enum { MAXSTATES = 1024 };
struct Shared {
    volatile int done;      // 0 = never finished, 1 = held, 2 = violation, 3 = harness error
    char cls[128];
    char msg[2000];
    char ctx[200];          // operation in progress
    uint64_t hash;
    uint64_t sched_hash;
    uint64_t digest;        // results only (compared between differently built binaries)
    uint64_t cnt[K_COUNT];
    uint32_t nstates;
    uint64_t states[MAXSTATES];
    char note[500];         // human readable sample of the run
};
extern Shared *shm;

[[noreturn]] void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void log(uint64_t v);                // fold into the run hash
void digest(uint64_t v);             // fold into the result digest (and the run hash)
void state(uint64_t h);              // a distinct-state sample
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void context(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // what is running (used by crash reports)
void child_setup(uint64_t seed);     // called once in the forked child, before the scenario

// Runs fn in a process of its own (a copy of the present one); its results
// come back in buf.  Crashes and violations in there end this process too.
void fork_eval(const std::function<void(void *buf)> &fn, void *buf, size_t size);

// ---------------------------------------------------------------- library scope
extern thread_local int in_lib;
struct LibScope {
    LibScope() { ++in_lib; }
    ~LibScope() { --in_lib; }
};
struct OutScope { // temporarily leave the library (harness code called from within)
    int saved;
    OutScope() : saved(in_lib) { in_lib = 0; }
    ~OutScope() { in_lib = saved; }
};
void poison_stack(uint64_t seed) __attribute__((noinline));
inline void count(Counter c, uint64_t n = 1) { shm->cnt[c] += n; }

// ---------------------------------------------------------------- heap
void heap_poison(uint64_t seed);                    // contents of fresh memory from now on
void heap_fail_at(int64_t nth, bool sticky);        // nth (1-based) allocation of this thread inside the library fails
void heap_fail_off();
uint64_t heap_fired();                              // failures delivered to this thread since heap_fail_at
uint64_t heap_alloc_calls();                        // allocation calls of this thread inside the library so far
size_t heap_live_blocks();                          // live blocks obtained by the library
// True when more blocks are live than `before`, and the same execution repeated
// in the same process leaves blocks behind again: what is allocated once for the
// rest of the process (a table kept in a static object) is not a leak.
bool heap_leaked(size_t before);
bool leak_suspected(); // heap_leaked wants the execution repeated
void repeat_setup(uint64_t seed);
std::string heap_live_desc();
void heap_set_limit(size_t bytes);                  // simulated memory size, per request
void heap_reuse(int mode);                          // 1: released addresses are handed out again, 2: with their old contents
size_t heap_peak_request();                         // largest request granted so far
void heap_peak_reset();
void *arena_alloc(size_t n);                        // for objects the harness wants watched
bool in_arena(const void *p);
void check_range(const void *p, size_t n, bool write); // as if the library accessed it

// ---------------------------------------------------------------- threads
struct Switch { uint64_t step; int tid; };
// Runs the bodies as simulated threads under the given preemption list
// (absolute event numbers, ascending).
void run_threads(const std::vector<std::function<void()>> &bodies, const std::vector<Switch> &sw, bool race_detect);
void stack_mark();    // the stack used by instrumented code is measured from here on
size_t stack_used();
uint64_t events();                                  // instrumented events of this process so far
int self_tid();                                     // -1 outside run_threads
void set_event_cap(uint64_t n); // for each operation
void op_start();

// ---------------------------------------------------------------- disk (paths below /simdisk/)
struct DiskFault { std::string kind; int64_t at; int64_t arg; };
void disk_reset();
void disk_put(const std::string &path, const std::string &data);
bool disk_exists(const std::string &path);
std::string disk_get(const std::string &path);
void disk_remove(const std::string &path);
void disk_chunk(size_t rd, size_t wr);              // maximum bytes per read / write call (0 = unlimited)
// kinds: wshort weintr weio wnospc rshort reintr reio open close; "at" counts
// calls of that type since this call (wnospc: bytes that still fit)
void disk_faults(const std::vector<DiskFault> &f);
bool disk_data_lost();                              // some write or close failed for good since disk_faults()
bool disk_read_failed();
uint64_t disk_delivered();                          // bytes handed out by successful reads since disk_faults()
uint64_t disk_events();                             // state-changing disk events since disk_crash_at / disk_reset
void disk_crash_at(int64_t event, int64_t partial); // power loss during that event (1-based; partial bytes of it survive)
bool disk_crashed();
void disk_reboot();                                 // back to what had survived
int disk_open_handles();

// ---------------------------------------------------------------- clock and entropy
void clock_set(uint64_t seed);                      // simulated wall clock reads are a function of this
uint64_t clock_reads();
void entropy_reset(uint64_t seed);                  // this thread's entropy stream
void entropy_const(bool on, uint32_t v);
void entropy_fail_ctor(int64_t nth);                // 1-based, 0 = off
void entropy_fail_get(int64_t nth);
uint64_t entropy_draws();
uint64_t entropy_fired();
int entropy_open_devices();
} // namespace rt
