// Deterministic simulation runtime (see rt.hpp).  Compiled without
// instrumentation; the scenario objects are compiled with -fsanitize=thread
// and linked against the __tsan_* entry points defined here.
#include "rt.hpp"
#include "rng.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <locale>
#include <map>
#include <memory>
#include <new>
#include <pthread.h>
#include <random>
#include <semaphore.h>
#include <signal.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace rt {

const char *const counter_names[K_COUNT] = {
    "ops", "events", "switches", "allocs", "preempt",
    "alloc_once", "alloc_sticky", "alloc_huge",
    "read_short", "read_eintr", "read_eio",
    "write_short", "write_eintr", "write_eio", "enospc",
    "open_fail", "close_fail",
    "crash", "torn_write", "lost_page", "bit_flip", "truncate", "garbage",
    "entropy_open_fail", "entropy_read_fail", "entropy_stuck",
    "sink_fail", "sink_fail_exceptions", "memory_contents", "address_reuse",
    "race_table_full",
    "threw_bad_alloc", "threw_invalid_argument", "threw_other",
    "p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9", "pa", "pb", "pc", "pd", "pe", "pf"
};

static Shared dummy;
Shared *shm = &dummy;
thread_local int in_lib = 0;
static uint64_t g_event_allow = 100000000ull, g_event_cap = 100000000ull;

// ---------------------------------------------------------------- results
[[noreturn]] static void finish(int done)
{
    shm->done = done;
    _exit(done == 1 ? 0 : done);
}
static bool g_disk_on = false;
void violate(const char *cls, const char *fmt, ...)
{
    in_lib = 0;
    snprintf(shm->cls, sizeof shm->cls, "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
    va_end(ap);
    if (n < 0) n = 0;
    if (static_cast<size_t>(n) < sizeof shm->msg - 1)
        snprintf(shm->msg + n, sizeof shm->msg - static_cast<size_t>(n), " [during: %s]", shm->ctx);
    finish(2);
}
void harness_error(const char *fmt, ...)
{
    in_lib = 0;
    snprintf(shm->cls, sizeof shm->cls, "harness");
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
    va_end(ap);
    finish(3);
}
void log(uint64_t v) { shm->hash = mix(shm->hash, v); }
void digest(uint64_t v)
{
    shm->digest = mix(shm->digest, v);
    log(v);
}
void state(uint64_t h)
{
    if (shm->nstates < MAXSTATES) shm->states[shm->nstates++] = h;
}
void note(const char *fmt, ...)
{
    size_t l = strlen(shm->note);
    if (l + 2 >= sizeof shm->note) return;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(shm->note + l, sizeof shm->note - l, fmt, ap);
    va_end(ap);
}
void context(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(shm->ctx, sizeof shm->ctx, fmt, ap);
    va_end(ap);
}
void set_event_cap(uint64_t n) { g_event_allow = n; op_start(); }
void op_start() { g_event_cap = events() + g_event_allow; }

void fork_eval(const std::function<void(void *)> &fn, void *buf, size_t size)
{
    void *m = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) harness_error("mmap failed");
    pid_t p = fork();
    if (p < 0) harness_error("fork failed");
    if (p == 0) {
        alarm(30);
        fn(m);
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (shm->done) _exit(shm->done);
    if (WIFSIGNALED(st)) {
        signal(WTERMSIG(st), SIG_DFL);
        raise(WTERMSIG(st));
        _exit(3);
    }
    if (WEXITSTATUS(st) != 0)
        violate("exit", "the library terminated the process with status %d", WEXITSTATUS(st));
    memcpy(buf, m, size);
    munmap(m, size);
}

__attribute__((noinline)) void poison_stack(uint64_t seed)
{
    enum { N = 24 * 1024 };
    volatile unsigned char buf[N];
    uint64_t mode = mix(seed, 77) % 4;
    uint64_t w = mode == 0 ? 0 : mode == 1 ? ~0ull : mode == 2 ? mix(seed, 1) : 0x3ff8000000000000ull + (seed & 0xffffffff);
    for (size_t i = 0; i + 8 <= N; i += 8) memcpy(const_cast<unsigned char *>(buf) + i, &w, 8);
    __asm__ volatile("" ::"r"(buf) : "memory");
}

// ---------------------------------------------------------------- arena
static const uintptr_t ARENA = 0x200000000000ull;
static const size_t ARENA_SIZE = 1ull << 30;
static uint8_t *const arena = reinterpret_cast<uint8_t *>(ARENA);
static uint8_t *shadow; // one byte per 8: 0 ok, 1..7 partially ok, 0xFA redzone, 0xFD freed
static size_t arena_top = 0;
static size_t heap_limit = 64u << 20;
static size_t peak_request = 0;
static uint64_t poison_seed = 0;
static size_t live_blocks = 0;
static uint64_t alloc_no = 0;
struct Hdr {
    uint64_t magic, size, serial, counted;
};
static const uint64_t MAGIC = 0x5afe5afe12345678ull;

struct HeapTls {
    uint64_t calls = 0, fired = 0;
    int64_t nth = 0; // counts down
    bool sticky = false, dead = false;
};
static thread_local HeapTls ht;

bool in_arena(const void *p) { return reinterpret_cast<uintptr_t>(p) - ARENA < ARENA_SIZE; }

static void arena_init()
{
    if (shadow) return;
    void *a = mmap(arena, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void *s = mmap(nullptr, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (a != arena || s == MAP_FAILED) {
        fprintf(stderr, "cannot map the simulated heap\n");
        _exit(3);
    }
    shadow = static_cast<uint8_t *>(s);
}
static void fill(uint8_t *p, size_t n, uint64_t salt)
{
    uint64_t mode = poison_seed % 6;
    uint64_t w;
    switch (mode) {
    case 0: memset(p, 0, n); return;
    case 1: memset(p, 0xff, n); return;
    case 2: memset(p, 0xa5, n); return;
    default: break;
    }
    for (size_t i = 0; i < n; i += 8) {
        uint64_t r = mix(poison_seed ^ salt, i);
        if (mode == 3) w = r;                                                     // garbage
        else if (mode == 4) { double d = static_cast<double>(r % 2000) / 16. - 60.; memcpy(&w, &d, 8); } // plausible elements
        else w = r % 7;                                                           // small integers
        memcpy(p + i, &w, std::min<size_t>(8, n - i));
    }
}
void heap_poison(uint64_t seed) { poison_seed = seed; }
void heap_fail_at(int64_t nth, bool sticky)
{
    ht.nth = nth;
    ht.sticky = sticky;
    ht.dead = false;
    ht.fired = 0;
}
void heap_fail_off()
{
    ht.nth = 0;
    ht.dead = false;
}
uint64_t heap_fired() { return ht.fired; }
uint64_t heap_alloc_calls() { return ht.calls; }
size_t heap_live_blocks() { return live_blocks; }
static int repeated = 0;
static bool suspected = false;
bool heap_leaked(size_t before)
{
    if (live_blocks <= before) return false;
    if (repeated >= 6) return true; // every time so far
    suspected = true;
    return false;
}
bool leak_suspected() { return suspected; }
void heap_set_limit(size_t b) { heap_limit = b; }
// Address reuse: released blocks are handed out again, last released first (1: scribbled over, 2: as they were left).
static int reuse_mode = 0;
static const size_t REUSE_CLASSES = 512;
static uint8_t *reuse_list[REUSE_CLASSES];
void heap_reuse(int mode) { reuse_mode = mode; }
size_t heap_peak_request() { return peak_request; }
void heap_peak_reset() { peak_request = 0; }
std::string heap_live_desc()
{
    std::string r;
    size_t off = 0;
    int n = 0;
    while (off < arena_top && n < 6) {
        Hdr *h = reinterpret_cast<Hdr *>(arena + off);
        if (h->magic == MAGIC && h->counted) {
            char b[80];
            snprintf(b, sizeof b, " #%llu(%llu bytes)", static_cast<unsigned long long>(h->serial), static_cast<unsigned long long>(h->size));
            r += b;
            ++n;
        }
        off += sizeof(Hdr) + 32 + ((h->size + 7) & ~7ull) + 32;
        off = (off + 15) & ~15ull;
    }
    return r;
}
// Block layout: Hdr | 32 redzone | payload (16-aligned) | redzone
static void *raw_alloc(size_t n, bool counted, size_t align = 16)
{
    arena_init();
    size_t need = sizeof(Hdr) + 32 + ((n + 7) & ~7ull) + 32;
    need = (need + 15) & ~15ull;
    uint8_t *again = nullptr;
    if (align > 16) { // (payloads start 32 bytes and a header after a multiple of 16)
        size_t pay = arena_top + sizeof(Hdr) + 32 + ARENA;
        size_t gap = (align - pay % align) % align;
        if (arena_top + gap < ARENA_SIZE) {
            memset(shadow + arena_top / 8, 0xFA, gap / 8);
            arena_top += gap;
        }
    } else if (reuse_mode && need / 16 < REUSE_CLASSES && reuse_list[need / 16]) {
        again = reuse_list[need / 16];
        reuse_list[need / 16] = reinterpret_cast<uint8_t *>(reinterpret_cast<Hdr *>(again)->serial);
        count(K_F_REUSE);
    }
    if (!again && arena_top + need > ARENA_SIZE) {
        if (in_lib) violate("hang", "the operations of this run requested more than %zu MB in total", ARENA_SIZE >> 20);
        harness_error("simulated heap exhausted");
    }
    uint8_t *b = again ? again : arena + arena_top;
    memset(shadow + (b - arena) / 8, 0xFA, need / 8);
    if (!again) arena_top += need;
    Hdr *h = reinterpret_cast<Hdr *>(b);
    h->magic = MAGIC;
    h->size = n;
    h->serial = ++alloc_no;
    h->counted = counted;
    if (counted) ++live_blocks;
    uint8_t *p = b + sizeof(Hdr) + 32;
    size_t so = static_cast<size_t>(p - arena) / 8;
    memset(shadow + so, 0, n / 8);
    if (n & 7) shadow[so + n / 8] = static_cast<uint8_t>(n & 7);
    if (!again || reuse_mode != 2) fill(p, n, h->serial);
    return p;
}
static Hdr *hdr_of(const void *p) { return reinterpret_cast<Hdr *>(const_cast<uint8_t *>(static_cast<const uint8_t *>(p)) - sizeof(Hdr) - 32); }
static Hdr *valid_block(const void *p)
{
    uintptr_t off = reinterpret_cast<uintptr_t>(p) - ARENA;
    if (off % 16 != 0 || off < sizeof(Hdr) + 32 || off >= arena_top) return nullptr;
    Hdr *h = hdr_of(p);
    if (h->magic != MAGIC) return nullptr;
    return h;
}
static void race_access(const void *p, size_t n, bool write);
static inline void event();
static void raw_free(void *p, const char *what)
{
    Hdr *h = valid_block(p);
    if (!h) {
        uintptr_t off = reinterpret_cast<uintptr_t>(p) - ARENA;
        if (off < arena_top && shadow[off / 8] == 0xFD) violate("double-free", "%s of an already released block", what);
        violate("bad-free", "%s of an address that is not the start of a block", what);
    }
    if (in_lib) race_access(p, h->size, true);
    size_t so = (static_cast<size_t>(static_cast<uint8_t *>(p) - arena)) / 8;
    memset(shadow + so, 0xFD, (h->size + 7) / 8);
    if (h->size == 0) shadow[so] = 0xFD;
    if (reuse_mode != 2) fill(static_cast<uint8_t *>(p), h->size, ~h->serial);
    if (h->counted) --live_blocks;
    h->counted = 0;
    h->magic = MAGIC ^ 1;
    if (reuse_mode) {
        size_t need = (sizeof(Hdr) + 32 + ((h->size + 7) & ~7ull) + 32 + 15) & ~15ull;
        if (need / 16 < REUSE_CLASSES) {
            h->serial = reinterpret_cast<uintptr_t>(reuse_list[need / 16]);
            reuse_list[need / 16] = reinterpret_cast<uint8_t *>(h);
        }
    }
}
void *arena_alloc(size_t n) { return raw_alloc(n, false); }

// Decides whether this request fails.  Only requests made inside the library
// are eligible.
static bool alloc_fails(size_t n)
{
    if (!in_lib) return false;
    ++ht.calls;
    count(K_ALLOCS);
    if (ht.dead) {
        ++ht.fired;
        count(K_F_ALLOC_STICKY);
        return true;
    }
    if (ht.nth > 0 && --ht.nth == 0) {
        ++ht.fired;
        if (ht.sticky) {
            ht.dead = true;
            count(K_F_ALLOC_STICKY);
        } else {
            count(K_F_ALLOC_ONCE);
        }
        return true;
    }
    if (n > heap_limit) {
        ++ht.fired;
        count(K_F_ALLOC_HUGE);
        return true;
    }
    if (n > peak_request) peak_request = n;
    return false;
}

void check_range(const void *p, size_t n, bool write)
{
    uintptr_t off = reinterpret_cast<uintptr_t>(p) - ARENA;
    if (off >= ARENA_SIZE || n == 0) return;
    if (!shadow) return;
    for (size_t g = off / 8; g <= (off + n - 1) / 8; ++g) {
        uint8_t s = g < ARENA_SIZE / 8 ? shadow[g] : 0xFA;
        if (off + n > arena_top) s = 0xFA;
        if (__builtin_expect(s != 0, 0)) {
            if (s >= 1 && s <= 7) {
                size_t last = std::min<size_t>(off + n - 1, g * 8 + 7) & 7;
                if (last < s) continue;
            }
            if (s == 0xFD) violate("use-after-free", "%s of %zu bytes in a released block", write ? "write" : "read", n);
            violate("out-of-bounds", "%s of %zu bytes outside any block", write ? "write" : "read", n);
        }
    }
}

// ---------------------------------------------------------------- threads
enum { MAXT = 8 };
struct VC {
    uint32_t c[MAXT] = { 0 };
    void join(const VC &o)
    {
        for (int i = 0; i < MAXT; ++i) c[i] = std::max(c[i], o.c[i]);
    }
};
struct Th {
    pthread_t th;
    sem_t sem, leave;
    bool finished = false;
    const void *blocked_on = nullptr;
    VC vc;
    uint8_t *stack = nullptr;
    const std::function<void()> *body = nullptr;
    uint64_t local = 0;
};
static const size_t STACK = 1u << 20;
struct Sim {
    bool active = false, race = false;
    int n = 0, cur = -1;
    uint64_t g = 0, next = ~0ull, last_switch = 0;
    std::vector<Switch> sw;
    size_t swi = 0;
    Th t[MAXT];
    sem_t done;
};
static Sim *sim = nullptr;
static thread_local int tid_ = -1;
static bool sim_on = false; // sim && sim->active, for the fast path
int self_tid() { return tid_; }

struct Cell {
    uintptr_t key; // granule + 1
    uint32_t w[MAXT], r[MAXT];
    uint8_t wm[MAXT], rm[MAXT];
};
static Cell *cells = nullptr;
static const size_t NCELL = 1u << 18;
static Cell spill; // where accesses go once the table is full
static size_t ncells = 0;
static Cell *cell(uintptr_t g)
{
    size_t i = mix(g, 5) & (NCELL - 1);
    while (cells[i].key && cells[i].key != g + 1) i = (i + 1) & (NCELL - 1);
    if (!cells[i].key) {
        // A full table forgets new addresses: no false alarm can come of that.
        if (ncells >= NCELL * 3 / 4) {
            memset(&spill, 0, sizeof spill);
            count(K_F_RACE_FULL);
            return &spill;
        }
        cells[i].key = g + 1;
        ++ncells;
    }
    return &cells[i];
}
// Where an address lies, for messages.
static const char *place(const void *p)
{
    static char b[200];
    Dl_info i;
    if (in_arena(p)) return "on the heap";
    if (dladdr(p, &i) && i.dli_sname) {
        snprintf(b, sizeof b, "in %s", i.dli_sname);
        return b;
    }
    return "outside the heap";
}
static void race_access(const void *p, size_t n, bool write)
{
    if (!sim_on || !sim->race || tid_ < 0 || n == 0) return;
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    Th &me = sim->t[tid_];
    if (a - reinterpret_cast<uintptr_t>(me.stack) < STACK) return;
    for (uintptr_t g = a / 8; g <= (a + n - 1) / 8; ++g) {
        unsigned lo = g == a / 8 ? a % 8 : 0;
        unsigned hi = g == (a + n - 1) / 8 ? (a + n - 1) % 8 : 7;
        uint8_t m = static_cast<uint8_t>((0xff << lo) & (0xff >> (7 - hi)));
        Cell *c = cell(g);
        for (int u = 0; u < sim->n; ++u) {
            if (u == tid_) continue;
            if ((c->wm[u] & m) && c->w[u] > me.vc.c[u])
                violate(write ? "race:write-write" : "race:read-write", "threads %d and %d access the same %zu bytes %s without synchronisation (%s, earlier write)", tid_, u, n, place(p), write ? "write" : "read");
            if (write && (c->rm[u] & m) && c->r[u] > me.vc.c[u])
                violate("race:read-write", "threads %d and %d access the same %zu bytes %s without synchronisation (write, earlier read)", tid_, u, n, place(p));
        }
        uint32_t now = me.vc.c[tid_];
        if (write) {
            if (c->w[tid_] != now) c->wm[tid_] = 0;
            c->w[tid_] = now;
            c->wm[tid_] |= m;
        } else {
            if (c->r[tid_] != now) c->rm[tid_] = 0;
            c->r[tid_] = now;
            c->rm[tid_] |= m;
        }
    }
}
// Note on the masks: an access at a newer clock replaces the older mask of the
// same thread, which can only lose a race that an earlier access would show.

static void sem_wait_(sem_t *s)
{
    while (sem_wait(s) != 0) {}
}
static int pick(int want)
{
    for (int k = 0; k < sim->n; ++k) {
        int c = (want + k) % sim->n;
        if (!sim->t[c].finished && !sim->t[c].blocked_on) return c;
    }
    return -1;
}
static void pass_to(int to)
{
    int me = sim->cur;
    if (to == me) return;
    count(K_SWITCHES);
    shm->sched_hash = mix(shm->sched_hash, mix(sim->t[me].local, static_cast<uint64_t>(me * 16 + to)));
    sim->cur = to;
    sim->last_switch = sim->g;
    sem_post(&sim->t[to].sem);
    if (!sim->t[me].finished) sem_wait_(&sim->t[me].sem);
}
static void take_switch()
{
    int want = -1;
    while (sim->swi < sim->sw.size() && sim->sw[sim->swi].step <= sim->g) want = sim->sw[sim->swi++].tid;
    sim->next = sim->swi < sim->sw.size() ? sim->sw[sim->swi].step : ~0ull;
    if (want < 0) want = sim->cur + 1; // fairness switch
    int to = pick(((want % sim->n) + sim->n) % sim->n);
    if (to >= 0 && to != sim->cur) {
        count(K_F_PREEMPT);
        pass_to(to);
    }
    sim->last_switch = sim->g;
}
static uint64_t g_events = 0;
uint64_t events() { return g_events; }
static uintptr_t stack_low = UINTPTR_MAX;
static uintptr_t stack_top = 0;
void stack_mark()
{
    stack_top = stack_low = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
}
size_t stack_used() { return stack_top - stack_low; }
static inline void event()
{
    if (!in_lib) return;
    ++g_events;
    ++shm->cnt[K_EVENTS];
    uintptr_t sp = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
    if (__builtin_expect(sp < stack_low, 0) && tid_ < 0) stack_low = sp;
    if (__builtin_expect(g_events > g_event_cap, 0)) {
        violate("hang", "operation did not finish within %llu memory events", static_cast<unsigned long long>(g_event_allow));
    }
    if (sim_on && tid_ >= 0) {
        ++sim->g;
        ++sim->t[tid_].local;
        if (__builtin_expect(sim->g >= sim->next || sim->g - sim->last_switch > 400000, 0)) take_switch();
    }
}
static void block_on(const void *what)
{
    sim->t[tid_].blocked_on = what;
    int to = pick((tid_ + 1) % sim->n);
    if (to < 0) violate("deadlock", "every thread waits for another one");
    pass_to(to);
}
static void wake(const void *what)
{
    for (int i = 0; i < sim->n; ++i)
        if (sim->t[i].blocked_on == what) sim->t[i].blocked_on = nullptr;
}
static void *thread_main(void *arg)
{
    int id = static_cast<int>(reinterpret_cast<intptr_t>(arg));
    Th &me = sim->t[id];
    sem_wait_(&me.sem);
    tid_ = id;
    (*me.body)();
    in_lib = 0;
    me.finished = true;
    int to = pick((id + 1) % sim->n);
    if (to >= 0) {
        pass_to(to);
    } else {
        for (int i = 0; i < sim->n; ++i)
            if (!sim->t[i].finished) violate("deadlock", "thread %d never finishes", i);
        sem_post(&sim->done);
    }
    sem_wait_(&me.leave); // threads end one at a time (thread_local destructors)
    return nullptr;
}
void run_threads(const std::vector<std::function<void()>> &bodies, const std::vector<Switch> &sw, bool race_detect)
{
    if (bodies.size() > MAXT) harness_error("too many threads");
    Sim s;
    sim = &s;
    s.n = static_cast<int>(bodies.size());
    s.sw = sw;
    s.race = race_detect;
    if (race_detect) {
        cells = static_cast<Cell *>(mmap(nullptr, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        ncells = 0;
    }
    sem_init(&s.done, 0, 0);
    for (int i = 0; i < s.n; ++i) {
        Th &t = s.t[i];
        sem_init(&t.sem, 0, 0);
        sem_init(&t.leave, 0, 0);
        t.body = &bodies[static_cast<size_t>(i)];
        t.vc.c[i] = 1;
        t.stack = static_cast<uint8_t *>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, t.stack, STACK);
        if (pthread_create(&t.th, &at, thread_main, reinterpret_cast<void *>(static_cast<intptr_t>(i)))) harness_error("pthread_create failed");
        pthread_attr_destroy(&at);
    }
    s.next = s.sw.empty() ? ~0ull : s.sw[0].step;
    s.cur = 0;
    if (s.next == 0) { // the plan may name the first thread
        s.cur = ((s.sw[0].tid % s.n) + s.n) % s.n;
        s.swi = 1;
        s.next = s.sw.size() > 1 ? s.sw[1].step : ~0ull;
    }
    s.active = true;
    sim_on = true;
    sem_post(&s.t[s.cur].sem);
    sem_wait_(&s.done);
    sim_on = false;
    s.active = false;
    for (int i = 0; i < s.n; ++i) {
        sem_post(&s.t[i].leave);
        pthread_join(s.t[i].th, nullptr);
        munmap(s.t[i].stack, STACK);
        sem_destroy(&s.t[i].sem);
        sem_destroy(&s.t[i].leave);
    }
    if (race_detect) munmap(cells, NCELL * sizeof(Cell));
    cells = nullptr;
    sim = nullptr;
}

// Synchronisation objects seen by simulated threads.
struct SyncObj {
    VC vc;
    int owner = -1, depth = 0;
};
static std::map<const void *, SyncObj> *syncs = nullptr;
static SyncObj &sync_of(const void *p)
{
    OutScope o;
    if (!syncs) syncs = new std::map<const void *, SyncObj>;
    return (*syncs)[p];
}
static void acquire(SyncObj &o) { sim->t[tid_].vc.join(o.vc); }
static void release(SyncObj &o)
{
    o.vc.join(sim->t[tid_].vc);
    ++sim->t[tid_].vc.c[tid_];
}
static bool simulated() { return sim_on && tid_ >= 0; }
// Locks taken by the library outside simulated threads: there is nobody to wait for.
static const int ALONE = 1000;
static bool alone() { return in_lib && !sim_on; }
static int lock_alone(const void *m, bool recursive, bool shared)
{
    SyncObj &o = sync_of(m);
    if (shared ? o.owner >= 0 : (o.owner >= 0 || (o.depth > 0 && !recursive))) {
        if (!(recursive && o.owner == ALONE)) violate("deadlock", "a lock that was never released is taken again");
    }
    if (!shared) o.owner = ALONE;
    ++o.depth;
    return 0;
}
static int unlock_alone(const void *m)
{
    SyncObj &o = sync_of(m);
    if (o.depth > 0 && --o.depth == 0) o.owner = -1;
    return 0;
}

// ---------------------------------------------------------------- disk
struct File {
    std::string data;
};
struct Handle {
    std::shared_ptr<File> f;
    std::string path;
    size_t pos = 0;
    bool append = false, wr = false, rd = false;
};
struct Disk {
    std::map<std::string, std::shared_ptr<File>> files;
    std::map<std::string, std::string> survived; // after a crash
    std::map<int, Handle> fds;
    std::vector<DiskFault> faults;
    size_t rd_chunk = 0, wr_chunk = 0;
    int64_t n_read = 0, n_write = 0, n_open = 0, n_close = 0, room = -1;
    bool lost = false, rfail = false, crashed = false;
    uint64_t ev = 0, delivered = 0;
    int64_t crash_ev = 0, crash_part = 0;
};
static Disk *disk = nullptr;
static Disk &D()
{
    if (!disk) {
        OutScope o;
        disk = new Disk;
    }
    return *disk;
}
void disk_reset()
{
    OutScope o;
    D().files.clear();
    D().faults.clear();
    D().rd_chunk = D().wr_chunk = 0;
    D().crashed = false;
    D().crash_ev = 0;
    D().ev = 0;
    D().room = -1;
    D().lost = D().rfail = false;
}
void disk_put(const std::string &path, const std::string &data)
{
    auto f = std::make_shared<File>();
    f->data = data;
    D().files[path] = f;
}
bool disk_exists(const std::string &path) { return D().files.count(path) != 0; }
std::string disk_get(const std::string &path)
{
    auto it = D().files.find(path);
    return it == D().files.end() ? std::string() : it->second->data;
}
void disk_remove(const std::string &path) { D().files.erase(path); }
void disk_chunk(size_t rd, size_t wr)
{
    D().rd_chunk = rd;
    D().wr_chunk = wr;
}
void disk_faults(const std::vector<DiskFault> &f)
{
    Disk &d = D();
    d.faults = f;
    d.n_read = d.n_write = d.n_open = d.n_close = 0;
    d.room = -1;
    d.delivered = 0;
    for (auto &x : f)
        if (x.kind == "wnospc") d.room = std::max<int64_t>(0, x.at);
    d.lost = d.rfail = false;
}
bool disk_data_lost() { return D().lost; }
bool disk_read_failed() { return D().rfail; }
uint64_t disk_delivered() { return D().delivered; }
uint64_t disk_events() { return D().ev; }
void disk_crash_at(int64_t e, int64_t partial)
{
    D().ev = 0;
    D().crashed = false;
    D().crash_ev = e;
    D().crash_part = partial;
}
bool disk_crashed() { return D().crashed; }
int disk_open_handles() { return static_cast<int>(D().fds.size()); }
static void snapshot(Disk &d)
{
    d.survived.clear();
    for (auto &p : d.files) d.survived[p.first] = p.second->data;
    d.crashed = true;
    count(K_F_CRASH);
}
void disk_reboot()
{
    Disk &d = D();
    d.crash_ev = 0;
    if (!d.crashed) return;
    d.files.clear();
    for (auto &p : d.survived) {
        auto f = std::make_shared<File>();
        f->data = p.second;
        d.files[p.first] = f;
    }
    d.crashed = false;
}
static const DiskFault *fault(Disk &d, const char *kind, int64_t n)
{
    for (auto &f : d.faults)
        if (f.kind == kind && f.at == n) return &f;
    return nullptr;
}
static bool sim_path(const char *p) { return p && strncmp(p, "/simdisk/", 9) == 0; }

static ssize_t do_write(Handle &h, const char *p, size_t n)
{
    OutScope o;
    Disk &d = D();
    int64_t k = d.n_write++;
    if (fault(d, "weintr", k)) {
        count(K_F_WRITE_EINTR);
        errno = EINTR;
        return -1;
    }
    if (fault(d, "weio", k)) {
        count(K_F_WRITE_EIO);
        d.lost = true;
        errno = EIO;
        return -1;
    }
    size_t m = n;
    if (d.wr_chunk && m > d.wr_chunk) {
        m = d.wr_chunk;
        count(K_F_WRITE_SHORT);
    }
    if (const DiskFault *f = fault(d, "wshort", k)) {
        size_t lim = static_cast<size_t>(std::max<int64_t>(1, f->arg));
        if (m > lim) {
            m = lim;
            count(K_F_WRITE_SHORT);
        }
    }
    if (d.room >= 0) {
        if (d.room == 0 && n > 0) {
            count(K_F_ENOSPC);
            d.lost = true;
            errno = ENOSPC;
            return -1;
        }
        m = std::min<size_t>(m, static_cast<size_t>(d.room));
        d.room -= static_cast<int64_t>(m);
    }
    ++d.ev;
    std::string &s = h.f->data;
    if (h.append) h.pos = s.size();
    if (!d.crashed && d.crash_ev && static_cast<int64_t>(d.ev) == d.crash_ev) {
        size_t part = std::min<size_t>(m, static_cast<size_t>(std::max<int64_t>(0, d.crash_part)));
        if (h.pos + part > s.size()) s.resize(h.pos + part, '\0');
        s.replace(h.pos, part, p, part);
        snapshot(d);
    }
    if (h.pos + m > s.size()) s.resize(h.pos + m, '\0');
    s.replace(h.pos, m, p, m);
    h.pos += m;
    return static_cast<ssize_t>(m);
}
static ssize_t do_read(Handle &h, char *p, size_t n)
{
    OutScope o;
    Disk &d = D();
    int64_t k = d.n_read++;
    if (fault(d, "reintr", k)) {
        count(K_F_READ_EINTR);
        errno = EINTR;
        return -1;
    }
    if (fault(d, "reio", k)) {
        count(K_F_READ_EIO);
        d.rfail = true;
        errno = EIO;
        return -1;
    }
    const std::string &s = h.f->data;
    size_t m = h.pos < s.size() ? std::min(n, s.size() - h.pos) : 0;
    if (d.rd_chunk && m > d.rd_chunk) {
        m = d.rd_chunk;
        count(K_F_READ_SHORT);
    }
    if (const DiskFault *f = fault(d, "rshort", k)) {
        size_t lim = static_cast<size_t>(std::max<int64_t>(1, f->arg));
        if (m > lim) {
            m = lim;
            count(K_F_READ_SHORT);
        }
    }
    memcpy(p, s.data() + h.pos, m);
    h.pos += m;
    d.delivered += m;
    return static_cast<ssize_t>(m);
}
template <typename F>
static F real(const char *name)
{
    F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    if (!f) {
        fprintf(stderr, "no real %s\n", name);
        _exit(3);
    }
    return f;
}

// ---------------------------------------------------------------- clock
static bool clock_sim = false;
static uint64_t clock_seed = 0, clock_n = 0;
void clock_set(uint64_t seed)
{
    clock_sim = true;
    clock_seed = seed;
}
uint64_t clock_reads() { return clock_n; }
static uint64_t clock_ns()
{
    ++clock_n;
    return 1500000000000000000ull + (clock_seed % 1000003) * 1000000000ull + (mix(clock_seed, clock_n) % 1000) + clock_n * 1000;
}

// ---------------------------------------------------------------- entropy
struct Ent {
    uint64_t seed = 0, n = 0, fired = 0;
    bool constant = false;
    uint32_t value = 0;
    int64_t fail_ctor = 0, fail_get = 0;
    int open = 0;
};
static thread_local Ent ent;
void entropy_reset(uint64_t seed)
{
    int o = ent.open;
    ent = Ent();
    ent.open = o;
    ent.seed = seed;
}
void entropy_const(bool on, uint32_t v)
{
    ent.constant = on;
    ent.value = v;
}
void entropy_fail_ctor(int64_t nth) { ent.fail_ctor = nth; ent.fired = 0; }
void entropy_fail_get(int64_t nth) { ent.fail_get = nth; ent.fired = 0; }
uint64_t entropy_draws() { return ent.n; }
uint64_t entropy_fired() { return ent.fired; }
int entropy_open_devices() { return ent.open; }

void child_setup(uint64_t seed)
{
    arena_init();
    g_disk_on = true;
    clock_set(seed);
    heap_poison(seed);
    entropy_reset(seed);
}
void repeat_setup(uint64_t seed)
{
    ++repeated;
    suspected = false;
    disk_reset();
    clock_set(seed);
    heap_poison(seed);
    entropy_reset(seed);
}
} // namespace rt

using namespace rt;

// ================================================================ C++ entropy device
void std::random_device::_M_init(const std::string &)
{
    if (ent.fail_ctor > 0 && --ent.fail_ctor == 0) {
        count(K_F_ENT_CTOR);
        ++ent.fired;
        throw std::runtime_error("simulated: entropy device cannot be opened");
    }
    ++ent.open;
}
void std::random_device::_M_fini() { --ent.open; }
std::random_device::result_type std::random_device::_M_getval()
{
    event();
    if (ent.fail_get > 0 && --ent.fail_get == 0) {
        count(K_F_ENT_GET);
        ++ent.fired;
        throw std::runtime_error("simulated: entropy device cannot be read");
    }
    ++ent.n;
    if (ent.constant) {
        count(K_F_ENT_CONST);
        return ent.value;
    }
    return static_cast<uint32_t>(mix(ent.seed, ent.n) >> 16);
}
double std::random_device::_M_getentropy() const noexcept { return 32.0; }

// ================================================================ allocation
static void *lib_new(size_t n)
{
    if (in_lib) {
        event();
        if (alloc_fails(n)) throw std::bad_alloc();
        return raw_alloc(n, true);
    }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void lib_delete(void *p)
{
    if (!p) return;
    if (in_arena(p)) {
        event();
        raw_free(p, "delete");
    } else {
        free(p);
    }
}
void *operator new(size_t n) { return lib_new(n); }
void *operator new[](size_t n) { return lib_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept
{
    try {
        return lib_new(n);
    } catch (...) {
        return nullptr;
    }
}
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { lib_delete(p); }
void operator delete[](void *p) noexcept { lib_delete(p); }
void operator delete(void *p, size_t) noexcept { lib_delete(p); }
void operator delete[](void *p, size_t) noexcept { lib_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { lib_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { lib_delete(p); }
static void *lib_new_aligned(size_t n, size_t a)
{
    if (in_lib) {
        event();
        if (alloc_fails(n)) throw std::bad_alloc();
    }
    return raw_alloc(n, in_lib, a);
}
void *operator new(size_t n, std::align_val_t a) { return lib_new_aligned(n, static_cast<size_t>(a)); }
void *operator new[](size_t n, std::align_val_t a) { return lib_new_aligned(n, static_cast<size_t>(a)); }
void operator delete(void *p, std::align_val_t) noexcept { lib_delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { lib_delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { lib_delete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { lib_delete(p); }

extern "C" {
// malloc family as called by the scenario objects, i.e. by the library.
void *__wrap_malloc(size_t n)
{
    event();
    if (alloc_fails(n)) {
        errno = ENOMEM;
        return nullptr;
    }
    return raw_alloc(n, true);
}
void *__wrap_calloc(size_t a, size_t b)
{
    event();
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) n = ~size_t(0) / 2;
    if (n > ARENA_SIZE / 2 && !in_lib) harness_error("calloc too large");
    if (alloc_fails(n)) {
        errno = ENOMEM;
        return nullptr;
    }
    void *p = raw_alloc(n, true);
    memset(p, 0, n);
    return p;
}
void __wrap_free(void *p)
{
    if (!p) return;
    event();
    if (in_arena(p)) raw_free(p, "free");
    else violate("bad-free", "free of an address that was not allocated");
}
void *__wrap_realloc(void *p, size_t n)
{
    event();
    if (p && !in_arena(p)) violate("bad-free", "realloc of an address that was not allocated");
    if (p && !valid_block(p)) raw_free(p, "realloc"); // reports the violation
    if (n == 0 && p) {
        raw_free(p, "realloc");
        return nullptr;
    }
    if (alloc_fails(n)) {
        errno = ENOMEM;
        return nullptr;
    }
    void *q = raw_alloc(n, true);
    if (p) {
        size_t m = std::min<size_t>(hdr_of(p)->size, n);
        if (in_lib) race_access(p, m, false);
        memcpy(q, p, m);
        raw_free(p, "realloc");
    }
    return q;
}
static inline void touch(const void *p, size_t n, bool w)
{
    if (__builtin_expect(in_arena(p), 1)) check_range(p, n, w);
    if (in_lib) {
        event();
        if (sim_on) race_access(p, n, w);
    }
}
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
    touch(s, n, false);
    touch(d, n, true);
    return memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
    touch(s, n, false);
    touch(d, n, true);
    return memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n)
{
    touch(d, n, true);
    return memset(d, c, n);
}
int __wrap_memcmp(const void *a, const void *b, size_t n)
{
    touch(a, n, false);
    touch(b, n, false);
    return memcmp(a, b, n);
}

// More of the C library, where it touches memory of the caller.
void *__wrap_aligned_alloc(size_t a, size_t n)
{
    event();
    if (a == 0 || (a & (a - 1)) || alloc_fails(n)) {
        errno = ENOMEM;
        return nullptr;
    }
    return raw_alloc(n, true, a);
}
int __wrap_posix_memalign(void **p, size_t a, size_t n)
{
    event();
    if (alloc_fails(n)) return ENOMEM;
    *p = raw_alloc(n, true, a);
    return 0;
}
void *__wrap_reallocarray(void *p, size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    return __wrap_realloc(p, n);
}
size_t __wrap_strlen(const char *s)
{
    size_t n = strlen(s);
    touch(s, n + 1, false);
    return n;
}
char *__wrap_strdup(const char *s)
{
    size_t n = __wrap_strlen(s) + 1;
    char *p = static_cast<char *>(__wrap_malloc(n));
    if (p) memcpy(p, s, n);
    return p;
}
char *__wrap_strcpy(char *d, const char *s)
{
    size_t n = __wrap_strlen(s) + 1;
    touch(d, n, true);
    memcpy(d, s, n);
    return d;
}
char *__wrap_strncpy(char *d, const char *s, size_t n)
{
    touch(s, strnlen(s, n), false);
    touch(d, n, true);
    return strncpy(d, s, n);
}
char *__wrap_strcat(char *d, const char *s)
{
    __wrap_strcpy(d + __wrap_strlen(d), s);
    return d;
}
int __wrap_strcmp(const char *a, const char *b)
{
    __wrap_strlen(a);
    __wrap_strlen(b);
    return strcmp(a, b);
}
int __wrap_vsnprintf(char *d, size_t n, const char *f, va_list ap)
{
    va_list q;
    va_copy(q, ap);
    int k = vsnprintf(nullptr, 0, f, q);
    va_end(q);
    if (n && k >= 0) touch(d, std::min(n, static_cast<size_t>(k) + 1), true);
    return vsnprintf(d, n, f, ap);
}
int __wrap_vsprintf(char *d, const char *f, va_list ap) { return __wrap_vsnprintf(d, ~size_t(0) / 2, f, ap); }
#define VA(CALL)            \
    va_list ap;             \
    va_start(ap, f);        \
    int k = CALL;           \
    va_end(ap);             \
    return k
int __wrap_snprintf(char *d, size_t n, const char *f, ...) { VA(__wrap_vsnprintf(d, n, f, ap)); }
int __wrap_sprintf(char *d, const char *f, ...) { VA(__wrap_vsprintf(d, f, ap)); }
int __wrap___snprintf_chk(char *d, size_t n, int, size_t, const char *f, ...) { VA(__wrap_vsnprintf(d, n, f, ap)); }
int __wrap___sprintf_chk(char *d, int, size_t, const char *f, ...) { VA(__wrap_vsprintf(d, f, ap)); }
int __wrap___vsnprintf_chk(char *d, size_t n, int, size_t, const char *f, va_list ap) { return __wrap_vsnprintf(d, n, f, ap); }
int __wrap___vsprintf_chk(char *d, int, size_t, const char *f, va_list ap) { return __wrap_vsprintf(d, f, ap); }
#undef VA
static void chk(size_t n, size_t cap)
{
    if (n > cap) violate("out-of-bounds", "%zu bytes are copied to an object of %zu bytes", n, cap);
}
void *__wrap___memcpy_chk(void *d, const void *s, size_t n, size_t cap)
{
    chk(n, cap);
    return __wrap_memcpy(d, s, n);
}
void *__wrap___memmove_chk(void *d, const void *s, size_t n, size_t cap)
{
    chk(n, cap);
    return __wrap_memmove(d, s, n);
}
void *__wrap___memset_chk(void *d, int c, size_t n, size_t cap)
{
    chk(n, cap);
    return __wrap_memset(d, c, n);
}
char *__wrap___strcpy_chk(char *d, const char *s, size_t cap)
{
    chk(strlen(s) + 1, cap);
    return __wrap_strcpy(d, s);
}
char *__wrap___strncpy_chk(char *d, const char *s, size_t n, size_t cap)
{
    chk(n, cap);
    return __wrap_strncpy(d, s, n);
}
char *__wrap___strcat_chk(char *d, const char *s, size_t cap)
{
    chk(strlen(d) + strlen(s) + 1, cap);
    return __wrap_strcat(d, s);
}

// ================================================================ instrumentation entry points
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define ACC(N)                                                              \
    void __tsan_read##N(void *p) { touch(p, N, false); }                    \
    void __tsan_write##N(void *p) { touch(p, N, true); }                    \
    void __tsan_unaligned_read##N(void *p) { touch(p, N, false); }          \
    void __tsan_unaligned_write##N(void *p) { touch(p, N, true); }          \
    void __tsan_volatile_read##N(void *p) { touch(p, N, false); }           \
    void __tsan_volatile_write##N(void *p) { touch(p, N, true); }           \
    void __tsan_unaligned_volatile_read##N(void *p) { touch(p, N, false); } \
    void __tsan_unaligned_volatile_write##N(void *p) { touch(p, N, true); }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
void __tsan_read_range(void *p, size_t n) { touch(p, n, false); }
void __tsan_write_range(void *p, size_t n) { touch(p, n, true); }
void __tsan_vptr_update(void **p, void *v)
{
    touch(p, sizeof(void *), *p != v);
}
void __tsan_vptr_read(void **p) { touch(p, sizeof(void *), false); }

static void sync_acq(const volatile void *p)
{
    if (simulated()) acquire(sync_of(const_cast<const void *>(p)));
}
static void sync_rel(const volatile void *p)
{
    if (simulated()) release(sync_of(const_cast<const void *>(p)));
}
static void atomic_pre(const volatile void *p, size_t n, int mo)
{
    const void *q = const_cast<const void *>(p);
    if (in_arena(q)) check_range(q, n, true);
    event();
    if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) sync_acq(p);
    if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) sync_rel(p);
}
#define ATOM(B, T)                                                                                                                            \
    T __tsan_atomic##B##_load(const volatile T *p, int mo) { atomic_pre(p, sizeof(T), mo); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }      \
    void __tsan_atomic##B##_store(volatile T *p, T v, int mo) { atomic_pre(p, sizeof(T), mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }      \
    T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo) { atomic_pre(p, sizeof(T), mo); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int mo) { atomic_pre(p, sizeof(T), mo); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int mo) { atomic_pre(p, sizeof(T), mo); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int mo) { atomic_pre(p, sizeof(T), mo); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int mo) { atomic_pre(p, sizeof(T), mo); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }   \
    T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int mo) { atomic_pre(p, sizeof(T), mo); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int mo) { atomic_pre(p, sizeof(T), mo); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { atomic_pre(p, sizeof(T), mo); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int) { atomic_pre(p, sizeof(T), mo); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int mo, int) { atomic_pre(p, sizeof(T), mo); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { event(); }
void __tsan_atomic_signal_fence(int) {}

// ================================================================ synchronisation
int __cxa_guard_acquire(uint64_t *g)
{
    uint8_t *b = reinterpret_cast<uint8_t *>(g);
    if (simulated()) {
        event();
        for (;;) {
            if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) {
                sync_acq(g);
                return 0;
            }
            if (!b[1]) break;
            block_on(g);
        }
        sync_acq(g); // an earlier attempt may have ended by an exception
        b[1] = 1;
        return 1;
    }
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
    if (b[1] && alone()) violate("deadlock", "the initialisation of a static variable needs the variable itself");
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t *g)
{
    uint8_t *b = reinterpret_cast<uint8_t *>(g);
    b[1] = 0;
    if (simulated()) {
        sync_rel(g);
        // readers use an inlined atomic load on the first byte
        __atomic_store_n(b, 1, __ATOMIC_RELEASE);
        wake(g);
    } else {
        __atomic_store_n(b, 1, __ATOMIC_RELEASE);
    }
}
void __cxa_guard_abort(uint64_t *g)
{
    reinterpret_cast<uint8_t *>(g)[1] = 0;
    if (simulated()) {
        sync_rel(g);
        wake(g);
    }
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
    if (!simulated()) {
        if (alone()) return lock_alone(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP, false);
        static auto f = rt::real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
        return f(m);
    }
    event();
    SyncObj &o = sync_of(m);
    while (o.owner >= 0 && o.owner != tid_) block_on(m);
    if (o.owner == tid_ && o.depth > 0) {
        if (m->__data.__kind != PTHREAD_MUTEX_RECURSIVE_NP) violate("deadlock", "a thread locks a mutex it already holds");
    }
    o.owner = tid_;
    ++o.depth;
    acquire(o);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
{
    if (!simulated()) {
        if (alone()) {
            if (sync_of(m).owner >= 0) return EBUSY;
            return lock_alone(m, false, false);
        }
        static auto f = rt::real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
        return f(m);
    }
    event();
    SyncObj &o = sync_of(m);
    if (o.owner >= 0) return EBUSY;
    o.owner = tid_;
    o.depth = 1;
    acquire(o);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
    if (!simulated()) {
        if (alone()) return unlock_alone(m);
        static auto f = rt::real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
        return f(m);
    }
    SyncObj &o = sync_of(m);
    if (o.owner == tid_ && --o.depth == 0) {
        o.owner = -1;
        release(o);
        wake(m);
    }
    event();
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept
{
    if (!simulated()) {
        if (alone()) return lock_alone(m, false, false);
        static auto f = rt::real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock");
        return f(m);
    }
    event();
    SyncObj &o = sync_of(m);
    while (o.owner >= 0 || o.depth > 0) block_on(m);
    o.owner = tid_;
    acquire(o);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept
{
    if (!simulated()) {
        if (alone()) return lock_alone(m, false, true);
        static auto f = rt::real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock");
        return f(m);
    }
    event();
    SyncObj &o = sync_of(m);
    while (o.owner >= 0) block_on(m);
    ++o.depth;
    acquire(o);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept
{
    if (!simulated()) {
        if (alone()) return unlock_alone(m);
        static auto f = rt::real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock");
        return f(m);
    }
    SyncObj &o = sync_of(m);
    if (o.owner == tid_) o.owner = -1;
    else --o.depth;
    release(o);
    wake(m);
    event();
    return 0;
}
int pthread_once(pthread_once_t *c, void (*fn)(void))
{
    if (!simulated()) {
        static auto f = rt::real<int (*)(pthread_once_t *, void (*)(void))>("pthread_once");
        return f(c, fn);
    }
    event();
    SyncObj &o = sync_of(c);
    while (o.owner >= 0) block_on(c);
    if (*c != 2) {
        o.owner = tid_;
        acquire(o); // an earlier attempt may have ended by an exception
        try {
            fn();
        } catch (...) {
            o.owner = -1;
            release(o);
            wake(c);
            throw;
        }
        *c = 2;
        o.owner = -1;
        release(o);
        wake(c);
    }
    acquire(o);
    return 0;
}

// ================================================================ functions of the C library with one hidden object
static uint64_t hidden[4];
#define HIDDEN(i) do { if (in_lib && simulated()) { event(); race_access(&hidden[i], 8, true); } } while (0)
char *setlocale(int c, const char *l) noexcept
{
    static auto f = rt::real<char *(*)(int, const char *)>("setlocale");
    if (l) HIDDEN(0);
    char *r = f(c, l);
    if (in_lib && simulated()) event();
    return r;
}
char *strtok(char *s, const char *d) noexcept
{
    static auto f = rt::real<char *(*)(char *, const char *)>("strtok");
    HIDDEN(1);
    return f(s, d);
}
struct tm *localtime(const time_t *t) noexcept
{
    static auto f = rt::real<struct tm *(*)(const time_t *)>("localtime");
    HIDDEN(2);
    return f(t);
}
struct tm *gmtime(const time_t *t) noexcept
{
    static auto f = rt::real<struct tm *(*)(const time_t *)>("gmtime");
    HIDDEN(2);
    return f(t);
}
char *asctime(const struct tm *t) noexcept
{
    static auto f = rt::real<char *(*)(const struct tm *)>("asctime");
    HIDDEN(2);
    return f(t);
}
char *ctime(const time_t *t) noexcept
{
    static auto f = rt::real<char *(*)(const time_t *)>("ctime");
    HIDDEN(2);
    return f(t);
}

// A global locale that is set for a moment can be seen by other threads.
std::locale std::locale::global(const std::locale &l)
{
    static auto f = rt::real<std::locale (*)(const std::locale &)>("_ZNSt6locale6globalERKS_");
    if (in_lib && simulated()) event();
    std::locale r = f(l);
    if (in_lib && simulated()) event();
    return r;
}

// ================================================================ clock
static void split(uint64_t ns, struct timespec *ts)
{
    ts->tv_sec = static_cast<time_t>(ns / 1000000000ull);
    ts->tv_nsec = static_cast<long>(ns % 1000000000ull);
}
int clock_gettime(clockid_t c, struct timespec *ts) noexcept
{
    if (!clock_sim) return static_cast<int>(syscall(SYS_clock_gettime, c, ts));
    split(clock_ns(), ts);
    return 0;
}
time_t time(time_t *t) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
clock_t clock(void) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return static_cast<clock_t>(ts.tv_sec * 1000000 + ts.tv_nsec / 1000);
}

// ================================================================ disk
FILE *fopen64(const char *path, const char *mode)
{
    static auto f = rt::real<FILE *(*)(const char *, const char *)>("fopen64");
    if (!g_disk_on || !sim_path(path)) return f(path, mode);
    OutScope o;
    Disk &d = D();
    int64_t k = d.n_open++;
    if (fault(d, "open", k)) {
        count(K_F_OPEN);
        errno = EACCES;
        return nullptr;
    }
    bool plus = strchr(mode, '+') != nullptr;
    Handle h;
    h.path = path;
    h.append = mode[0] == 'a';
    h.wr = mode[0] != 'r' || plus;
    h.rd = mode[0] == 'r' || plus;
    auto it = d.files.find(path);
    if (mode[0] == 'r') {
        if (it == d.files.end()) {
            errno = ENOENT;
            return nullptr;
        }
        h.f = it->second;
    } else {
        ++d.ev;
        if (!d.crashed && d.crash_ev && static_cast<int64_t>(d.ev) == d.crash_ev && d.crash_part == 0) snapshot(d); // before the truncation
        if (it == d.files.end()) {
            h.f = std::make_shared<File>();
            d.files[path] = h.f;
        } else {
            h.f = it->second;
            if (mode[0] == 'w') h.f->data.clear();
        }
        if (!d.crashed && d.crash_ev && static_cast<int64_t>(d.ev) == d.crash_ev) snapshot(d); // after it
    }
    FILE *fp = f("/dev/null", mode);
    if (!fp) harness_error("cannot open /dev/null");
    d.fds[fileno(fp)] = h;
    return fp;
}
FILE *fopen(const char *path, const char *mode) { return fopen64(path, mode); }
int fclose(FILE *fp)
{
    static auto f = rt::real<int (*)(FILE *)>("fclose");
    if (!g_disk_on) return f(fp);
    OutScope o;
    Disk &d = D();
    auto it = d.fds.find(fileno(fp));
    if (it == d.fds.end()) return f(fp);
    Handle h = it->second;
    d.fds.erase(it);
    f(fp);
    if (!h.wr) return 0; // read handles do not fail on close
    int64_t k = d.n_close++;
    if (const DiskFault *x = fault(d, "close", k)) {
        count(K_F_CLOSE);
        d.lost = true;
        std::string &s = h.f->data;
        size_t drop = std::min<size_t>(s.size(), static_cast<size_t>(std::max<int64_t>(0, x->arg)));
        s.resize(s.size() - drop);
        errno = EIO;
        return EOF;
    }
    return 0;
}
ssize_t write(int fd, const void *p, size_t n)
{
    if (g_disk_on && disk) {
        auto it = disk->fds.find(fd);
        if (it != disk->fds.end()) return do_write(it->second, static_cast<const char *>(p), n);
    }
    return syscall(SYS_write, fd, p, n);
}
ssize_t read(int fd, void *p, size_t n)
{
    if (g_disk_on && disk) {
        auto it = disk->fds.find(fd);
        if (it != disk->fds.end()) return do_read(it->second, static_cast<char *>(p), n);
    }
    return syscall(SYS_read, fd, p, n);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (g_disk_on && disk) {
        auto it = disk->fds.find(fd);
        if (it != disk->fds.end()) {
            OutScope o;
            std::string all;
            for (int i = 0; i < c; ++i) all.append(static_cast<const char *>(v[i].iov_base), v[i].iov_len);
            return do_write(it->second, all.data(), all.size());
        }
    }
    return syscall(SYS_writev, fd, v, c);
}
off64_t lseek64(int fd, off64_t off, int wh) noexcept
{
    if (g_disk_on && disk) {
        auto it = disk->fds.find(fd);
        if (it != disk->fds.end()) {
            Handle &h = it->second;
            off64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? static_cast<off64_t>(h.pos) : static_cast<off64_t>(h.f->data.size());
            if (base + off < 0) {
                errno = EINVAL;
                return -1;
            }
            h.pos = static_cast<size_t>(base + off);
            return base + off;
        }
    }
    return syscall(SYS_lseek, fd, off, wh);
}
off_t lseek(int fd, off_t off, int wh) noexcept { return lseek64(fd, off, wh); }

// ================================================================ assertions
[[noreturn]] void __assert_fail(const char *e, const char *file, unsigned line, const char *) noexcept
{
    const char *b = strrchr(file, '/');
    (void)line;
    violate("assert", "assertion '%s' failed in %s", e, b ? b + 1 : file);
}
} // extern "C"
