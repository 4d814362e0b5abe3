// Scenarios that run the catalogue of operations: threads on private objects
// (C01), threads on shared read-only objects (C02), failing allocations (C03),
// operands of unrelated shapes (C04), history and memory contents (C14).
#include "cat.hpp"
#include <algorithm>
#include <cfenv>
#include <clocale>
#include <iostream>
#include <locale>
#include <csignal>
#include <ucontext.h>
#include <exception>
#include <new>
#if defined(__x86_64__) || defined(__i386__)
#include <xmmintrin.h>
#endif

static In *make_in(uint64_t seed, bool wild, int style = -1, unsigned scale = 0)
{
    return new (rt::arena_alloc(sizeof(In))) In(seed, wild, style, scale);
}
static void gen_switches(Plan &p, Rng &r, int threads)
{
    size_t n = r.chance(1, 12) ? 0 : r.chance(1, 3) ? 1 + r.below(3) : r.chance(1, 2) ? 3 + r.below(8) : 10 + r.below(40);
    std::vector<uint64_t> at;
    // either spread over the whole run or concentrated in a short window
    uint64_t lo = 0, len = 0xffffffffull;
    if (r.chance(1, 3)) {
        len = 0xffffffffull >> (1 + r.below(8));
        lo = r.below(0xffffffffull - len);
    }
    for (size_t i = 0; i < n; ++i) at.push_back(1 + lo + r.below(len));
    std::sort(at.begin(), at.end());
    p.switches.push_back({ 0, static_cast<int>(r.below(static_cast<uint64_t>(threads))) });
    for (auto a : at) p.switches.push_back({ a, static_cast<int>(r.below(static_cast<uint64_t>(threads))) });
}
static std::vector<rt::Switch> scale(const Plan &p, uint64_t total)
{
    std::vector<rt::Switch> v;
    for (auto &s : p.switches) {
        uint64_t at = s.step ? std::max<uint64_t>(1, static_cast<uint64_t>((static_cast<unsigned __int128>(s.step) * total) >> 32)) : 0;
        if (!v.empty() && v.back().step > at) at = v.back().step;
        v.push_back({ at, s.tid });
    }
    return v;
}
// Operations that run long make everything else rare; they are picked less often.
static int pick_op(Rng &r) { return static_cast<int>(r.below(static_cast<uint64_t>(cat_count()))); }

// ---------------------------------------------------------------- C01 / C02
// A global locale with another decimal point and digits in groups, as a user may set it.
struct Elsewhere : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
};
static void use_locale(const Plan &p)
{
    if (!p.get("loc")) return;
    std::locale::global(std::locale(std::locale::classic(), new Elsewhere));
    std::stringstream s; // (the standard library caches what it needs of a locale)
    s << 1.5 << ' ' << 1.5f << ' ' << 1.5l << ' ' << 1 << ' ' << 1u << ' ' << 1l << ' ' << size_t(1) << ' ' << 1ll;
    double d;
    int i;
    s >> d >> d >> d >> i;
}
static void gen_threads(Plan &p, Rng &r, bool shared)
{
    p.cfg["loc"] = r.chance(1, 5);
    int n = 2 + static_cast<int>(r.below(3));
    p.cfg["threads"] = n;
    std::vector<int> pool;
    if (r.chance(2, 3)) {
        size_t k = 1 + r.below(3);
        for (size_t i = 0; i < k; ++i) pool.push_back(pick_op(r));
    }
    uint64_t common = r.next();
    bool same = shared || r.chance(1, 3);
    for (int t = 0; t < n; ++t) {
        uint64_t b = same ? common : r.next();
        bool wild = !shared && r.chance(1, 6);
        int k = 1 + static_cast<int>(r.below(5));
        for (int i = 0; i < k; ++i) {
            Step &s = p.add("cat", b);
            s.a[0] = t;
            s.a[1] = !pool.empty() && r.chance(3, 4) ? pool[r.below(pool.size())] : pick_op(r);
            s.a[2] = wild;
            if (shared && r.chance(1, 4)) s.a[3] = 1; // the other shared bundle
        }
    }
    if (!shared && r.chance(1, 3)) {
        Fault f;
        f.step = static_cast<int>(r.below(p.steps.size()));
        f.kind = "alloc";
        f.at = static_cast<int64_t>(r.below(1000000));
        f.arg = r.chance(1, 3);
        p.faults.push_back(f);
    }
    gen_switches(p, r, n);
}
struct SoloRes {
    Out out[64];
    uint64_t calls[64];
    uint64_t events;
};
static void exec_threads(const Plan &p, bool shared)
{
    int n = static_cast<int>(p.get("threads", 2));
    if (n < 1 || n > 8) return;
    use_locale(p);
    std::vector<std::vector<const Step *>> prog(static_cast<size_t>(n));
    for (auto &s : p.steps)
        if (s.op == "cat" && s.a[0] >= 0 && s.a[0] < n && prog[static_cast<size_t>(s.a[0])].size() < 64) prog[static_cast<size_t>(s.a[0])].push_back(&s);
    std::map<std::pair<uint64_t, int>, In *> bundles; // per (seed, owner)
    std::vector<std::vector<In *>> arg(static_cast<size_t>(n));
    for (size_t t = 0; t < prog.size(); ++t)
        for (auto *s : prog[t]) {
            auto key = std::make_pair(s->seed + (s->a[3] ? 77 : 0), shared ? 0 : static_cast<int>(t));
            In *&b = bundles[key];
            if (!b) b = make_in(key.first, s->a[2] != 0);
            arg[t].push_back(b);
        }
    std::vector<uint64_t> before;
    for (auto &b : bundles) before.push_back(b.second->digest());
    // Alone
    std::vector<SoloRes> solo(static_cast<size_t>(n));
    uint64_t total = 0;
    for (size_t t = 0; t < prog.size(); ++t) {
        rt::fork_eval([&](void *buf) {
            SoloRes *r = static_cast<SoloRes *>(buf);
            uint64_t e0 = rt::events();
            for (size_t i = 0; i < prog[t].size(); ++i) {
                uint64_t c0 = rt::heap_alloc_calls();
                r->out[i] = cat_run(static_cast<int>(prog[t][i]->a[1]), *arg[t][i], prog[t][i]->seed);
                r->calls[i] = rt::heap_alloc_calls() - c0;
            }
            r->events = rt::events() - e0;
        }, &solo[t], sizeof(SoloRes));
        total += solo[t].events;
    }
    // Together
    std::vector<std::vector<Out>> got(static_cast<size_t>(n));
    std::vector<std::vector<int>> faulted(static_cast<size_t>(n));
    std::vector<std::function<void()>> bodies;
    for (size_t t = 0; t < prog.size(); ++t) {
        got[t].resize(prog[t].size());
        faulted[t].resize(prog[t].size());
        bodies.push_back([&, t] {
            for (size_t i = 0; i < prog[t].size(); ++i) {
                const Fault *f = nullptr;
                for (auto &x : p.faults)
                    if (x.step == prog[t][i]->id && x.kind == "alloc") f = &x;
                if (f && solo[t].calls[i]) {
                    rt::heap_fail_at(1 + static_cast<int64_t>((static_cast<uint64_t>(f->at) * solo[t].calls[i]) / 1000000), f->arg != 0);
                    faulted[t][i] = 1;
                }
                got[t][i] = cat_run(static_cast<int>(prog[t][i]->a[1]), *arg[t][i], prog[t][i]->seed);
                rt::heap_fail_off();
            }
        });
    }
    auto sw = scale(p, total);
    rt::run_threads(bodies, sw, true);
    for (size_t t = 0; t < prog.size(); ++t)
        for (size_t i = 0; i < prog[t].size(); ++i) {
            const Out &a = solo[t].out[i], &b = got[t][i];
            rt::log(b.h);
            rt::log(static_cast<uint64_t>(b.ended));
            rt::state(mix(mix(static_cast<uint64_t>(prog[t][i]->a[1]), b.h), static_cast<uint64_t>(b.ended)));
            if (faulted[t][i] && (b.ended == NO_MEMORY || b.ended == STREAM_FAILED)) continue;
            if (!(a == b))
                rt::violate("interference", "thread %zu, operation %s (step %d): alone it %s, together with the other threads it %s%s", t, cat_op(static_cast<int>(prog[t][i]->a[1])).name, prog[t][i]->id, ended_name(a.ended), ended_name(b.ended), a.ended == b.ended ? " with a different result" : "");
        }
    size_t k = 0;
    for (auto &b : bundles)
        if (b.second->digest() != before[k++]) rt::violate("operand-changed", "a read-only operand changed");
    rt::note("%d threads, %zu operations, %zu switches planned; thread 0:", n, p.steps.size(), p.switches.size());
    for (auto *s : prog[0]) rt::note(" %s", cat_op(static_cast<int>(s->a[1])).name);
}
static void gen_c01(Plan &p, Rng &r) { gen_threads(p, r, false); }
static void exec_c01(const Plan &p) { exec_threads(p, false); }
static void gen_c02(Plan &p, Rng &r) { gen_threads(p, r, true); }
static void exec_c02(const Plan &p) { exec_threads(p, true); }

// ---------------------------------------------------------------- C03
static void gen_c03(Plan &p, Rng &r)
{
    int k = 2 + static_cast<int>(r.below(4));
    for (int i = 0; i < k; ++i) {
        Step &s = p.add("cat", r.next());
        s.a[1] = pick_op(r);
        s.a[2] = r.chance(1, 10);
        int nf = 1 + static_cast<int>(r.below(p.get("tier") ? 10 : 5));
        for (int j = 0; j < nf; ++j) {
            Fault f;
            f.step = s.id;
            f.kind = "alloc";
            f.at = static_cast<int64_t>(r.below(1000000));
            f.arg = r.chance(1, 3);
            p.faults.push_back(f);
        }
    }
}
static void exec_c03(const Plan &p)
{
    for (auto &s : p.steps) {
        int op = static_cast<int>(s.a[1]);
        const char *name = cat_op(op).name;
        In *in = make_in(s.seed, s.a[2] != 0);
        uint64_t d0 = in->digest();
        uint64_t c0 = rt::heap_alloc_calls();
        Out ref = cat_run(op, *in, s.seed);
        uint64_t calls = rt::heap_alloc_calls() - c0;
        rt::log(ref.h);
        if (in->digest() != d0) rt::violate("operand-changed", "%s changed a read-only operand", name);
        for (auto &f : p.faults) {
            if (f.step != s.id || f.kind != "alloc" || !calls) continue;
            int64_t nth = 1 + static_cast<int64_t>((static_cast<uint64_t>(f.at) * calls) / 1000000);
            size_t grown = 0; // storage that is kept for good the first time (a static table) is no leak
            for (int pass = 0; pass < 5; ++pass) {
                size_t live = rt::heap_live_blocks();
                rt::heap_fail_at(nth, f.arg != 0);
                Out o = cat_run(op, *in, s.seed);
                uint64_t fired = rt::heap_fired();
                rt::heap_fail_off();
                rt::log(o.h);
                rt::log(static_cast<uint64_t>(o.ended));
                rt::state(mix(mix(static_cast<uint64_t>(op), static_cast<uint64_t>(nth)), mix(o.h, static_cast<uint64_t>(o.ended))));
                bool reported = fired && (o.ended == NO_MEMORY || o.ended == STREAM_FAILED);
                if (!reported && !(o == ref))
                    rt::violate("unreported-failure", "%s with its allocation %lld of %llu failing (%s): it %s%s; without the failure it %s", name, static_cast<long long>(nth), static_cast<unsigned long long>(calls), f.arg ? "and all later ones" : "once", ended_name(o.ended), o.ended == ref.ended ? " with a different result" : "", ended_name(ref.ended));
                if (in->digest() != d0) rt::violate("operand-changed", "%s with a failing allocation changed a read-only operand", name);
                size_t now = rt::heap_live_blocks();
                grown = now > live ? now - live : 0;
                if (!grown) break;
            }
            if (grown) rt::violate("leak", "%s with its allocation %lld failing leaves %zu blocks allocated every time:%s", name, static_cast<long long>(nth), grown, rt::heap_live_desc().c_str());
            Out again = cat_run(op, *in, s.seed);
            if (!(again == ref)) rt::violate("no-recovery", "%s after a failed allocation: it %s, before it %s%s", name, ended_name(again.ended), ended_name(ref.ended), again.ended == ref.ended ? " with a different result" : "");
        }
        in->~In();
    }
    rt::note("%zu operations, %zu allocation failures:", p.steps.size(), p.faults.size());
    for (auto &s : p.steps) rt::note(" %s", cat_op(static_cast<int>(s.a[1])).name);
}

// ---------------------------------------------------------------- C04
static void gen_c04(Plan &p, Rng &r)
{
    int k = 3 + static_cast<int>(r.below(6));
    for (int i = 0; i < k; ++i) {
        Step &s = p.add("cat", r.next());
        s.a[1] = pick_op(r);
        s.a[2] = r.chance(3, 4);
        for (int n = s.a[2] ? static_cast<int>(r.chance(1, 4)) : static_cast<int>(r.below(5)); n > 0; --n) {
            Fault f;
            f.step = s.id;
            f.kind = "alloc";
            f.at = static_cast<int64_t>(r.below(1000000));
            f.arg = r.chance(1, 3);
            p.faults.push_back(f);
        }
    }
}
static void exec_c04(const Plan &p)
{
    for (auto &s : p.steps) {
        int op = static_cast<int>(s.a[1]);
        In *in = make_in(s.seed, s.a[2] != 0);
        std::vector<const Fault *> fs;
        for (auto &x : p.faults)
            if (x.step == s.id && x.kind == "alloc") fs.push_back(&x);
        if (fs.empty()) fs.push_back(nullptr);
        uint64_t calls = 0;
        bool first = true;
        for (const Fault *f : fs) {
            size_t grown = 0;
            for (int pass = 0; pass < 6; ++pass) { // storage that is kept for good the first time (a static table) is no leak
                size_t live = rt::heap_live_blocks();
                uint64_t c0 = rt::heap_alloc_calls();
                const bool failing = !first && f && calls;
                if (failing) rt::heap_fail_at(1 + static_cast<int64_t>((static_cast<uint64_t>(f->at) * calls) / 1000000), f->arg != 0);
                rt::poison_stack(mix(s.seed, static_cast<uint64_t>(pass)));
                Out o = cat_run(op, *in, s.seed);
                rt::heap_fail_off();
                if (first) calls = rt::heap_alloc_calls() - c0;
                rt::log(o.h);
                rt::state(mix(mix(static_cast<uint64_t>(op), o.h), static_cast<uint64_t>(o.ended)));
                size_t now = rt::heap_live_blocks();
                grown = now > live ? now - live : 0;
                const bool done = !grown && (!first || !f || !calls);
                first = false;
                if (done) break;
                if (!grown && failing) break;
            }
            if (grown) rt::violate("leak", "%s leaves %zu blocks allocated every time:%s", cat_op(op).name, grown, rt::heap_live_desc().c_str());
        }
        in->digest();
        in->~In();
    }
    rt::note("%zu operations:", p.steps.size());
    for (auto &s : p.steps) rt::note(" %s%s", s.op == "long" ? cat_l[s.a[1] % n_cat_l].name : cat_op(static_cast<int>(s.a[1])).name, s.a[2] ? "*" : "");
}

// ---------------------------------------------------------------- C14
struct ProcState {
    double tol[6];
    int round, traps;
    unsigned fp[2] = { 0, 0 }; // the control words of the floating-point units, without the sticky flags
    std::terminate_handler term;
    std::new_handler newh;
    void (*sig[4])(int);
    std::ostream *tie[3];
    std::string loc;
    std::ios_base::fmtflags fl[3];
    std::streamsize prec[3], width[3];
    char fill[3];
    std::ios_base::iostate st[3], exc[3];
    bool classic;
    ProcState()
    {
        tol[0] = malg::feq::tolerance();
        tol[1] = cat_tol_a();
        tol[2] = cat_tol_b();
        tol[3] = cat_tol_c();
        tol[4] = cat_tol_d();
        tol[5] = cat_tol_e();
        round = std::fegetround();
        traps = fegetexcept();
#if defined(__x86_64__) || defined(__i386__)
        fp[0] = _mm_getcsr() & ~0x3fu;
        unsigned short cw = 0;
        __asm__ volatile("fnstcw %0" : "=m"(cw));
        fp[1] = cw;
#endif
        term = std::get_terminate();
        newh = std::get_new_handler();
        static const int sn[4] = { SIGFPE, SIGINT, SIGTERM, SIGPIPE };
        for (int i = 0; i < 4; ++i) {
            struct sigaction a;
            sigaction(sn[i], nullptr, &a);
            sig[i] = a.sa_handler;
        }
        loc = setlocale(LC_ALL, nullptr);
        std::ostream *o[3] = { &std::cout, &std::cerr, &std::clog };
        for (int i = 0; i < 3; ++i) {
            fl[i] = o[i]->flags();
            prec[i] = o[i]->precision();
            width[i] = o[i]->width();
            fill[i] = o[i]->fill();
            st[i] = o[i]->rdstate();
            exc[i] = o[i]->exceptions();
            tie[i] = o[i]->tie();
            if (!(o[i]->getloc() == std::locale::classic())) loc += " (a stream's)";
        }
        classic = std::locale() == std::locale::classic();
    }
    const char *differs(const ProcState &o) const
    {
        for (int i = 0; i < 6; ++i)
            if (bits(tol[i]) != bits(o.tol[i])) return "the comparison tolerance";
        if (round != o.round) return "the rounding mode";
        if (traps != o.traps || fp[0] != o.fp[0] || fp[1] != o.fp[1]) return "the floating-point environment";
        if (term != o.term || newh != o.newh) return "a handler of the process";
        for (int i = 0; i < 4; ++i)
            if (sig[i] != o.sig[i]) return "a signal handler";
        if (loc != o.loc || classic != o.classic) return "the locale";
        for (int i = 0; i < 3; ++i)
            if (fl[i] != o.fl[i] || prec[i] != o.prec[i] || width[i] != o.width[i] || fill[i] != o.fill[i] || exc[i] != o.exc[i] || st[i] != o.st[i] || tie[i] != o.tie[i]) return i == 0 ? "the format or state of std::cout" : "the format or state of std::cerr";
        return nullptr;
    }
};
// Floating-point traps, as a user may enable them. A trap that is hit is
// switched off and the instruction repeated, so that results do not depend on it.
static volatile int traps_hit = 0;
static void on_fpe(int, siginfo_t *si, void *ctx)
{
#if defined(__x86_64__)
    if (si->si_code != FPE_INTDIV && si->si_code != FPE_INTOVF) {
        auto *u = static_cast<ucontext_t *>(ctx);
        u->uc_mcontext.fpregs->mxcsr |= 0x1f80u;
        u->uc_mcontext.fpregs->cwd |= 0x3fu;
        traps_hit = 1;
        return;
    }
#endif
    signal(SIGFPE, SIG_DFL);
}
static void enable_traps()
{
    traps_hit = 0;
    std::feclearexcept(FE_ALL_EXCEPT);
    feenableexcept(FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW);
}
static void gen_c14(Plan &p, Rng &r)
{
    p.cfg["trap"] = r.chance(1, 5);
    p.cfg["loc"] = r.chance(1, 6);
    p.cfg["tol"] = r.chance(1, 3) ? static_cast<int64_t>(1 + r.below(1000)) : 0; // user-set tolerance, 1e-6 units
    p.cfg["round"] = r.chance(1, 6) ? static_cast<int64_t>(1 + r.below(3)) : 0;
    p.cfg["fmt"] = r.chance(1, 2);
    p.cfg["reuse"] = static_cast<int64_t>(r.below(3));
    int targets = 1 + static_cast<int>(r.below(3));
    for (int t = 0; t < targets; ++t) {
        uint64_t tseed = r.next();
        int top = pick_op(r);
        bool twild = r.chance(1, 6);
        int k = static_cast<int>(r.below(6));
        for (int i = 0; i < k; ++i) {
            bool here = r.chance(1, 3); // the target's own operands, with other elements
            Step &s = p.add("prelude", here || r.chance(1, 4) ? tseed : r.next());
            s.a[1] = r.chance(1, 2) ? top : pick_op(r); // the same operation on other operands is the likeliest to leave something behind
            s.a[2] = here ? twild : r.chance(1, 5);
            if (here) s.a[3] = static_cast<int64_t>(1 + (r.next() >> 2));
            if (r.chance(1, 25)) s.a[4] = static_cast<int64_t>(r.chance(1, 2) ? r.below(40) : r.below(1200)); // many times over
            if (r.chance(1, 5)) {
                Fault f;
                f.step = s.id;
                f.kind = "alloc";
                f.at = static_cast<int64_t>(1 + r.below(6));
                f.arg = r.chance(1, 3);
                p.faults.push_back(f);
            }
        }
        Step &s = p.add("target", tseed);
        s.a[1] = top;
        s.a[2] = twild;
        s.a[3] = static_cast<int64_t>(r.next() >> 2); // memory contents of the two executions
        s.a[4] = static_cast<int64_t>(r.next() >> 2);
    }
}
static void exec_c14(const Plan &p)
{
    use_locale(p);
    if (p.get("tol")) malg::feq::tolerance() = cat_tol_a() = cat_tol_b() = cat_tol_c() = cat_tol_d() = cat_tol_e() = static_cast<double>(p.get("tol")) * 1e-6;
    static const int modes[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
    if (p.get("round")) std::fesetround(modes[p.get("round") & 3]);
    if (p.get("fmt")) {
        std::cout.precision(9);
        std::cout.setf(std::ios::scientific, std::ios::floatfield);
        std::cerr.fill('*');
    }
    bool trap = p.get("trap") != 0;
    if (trap) {
        struct sigaction a {};
        a.sa_sigaction = on_fpe;
        a.sa_flags = SA_SIGINFO;
        sigaction(SIGFPE, &a, nullptr);
        enable_traps();
    }
    ProcState st0;
    if (trap) fedisableexcept(FE_ALL_EXCEPT);
    std::vector<Out> fresh;
    std::vector<const Step *> targets;
    for (auto &s : p.steps)
        if (s.op == "target") {
            Out o;
            rt::fork_eval([&](void *buf) {
                rt::heap_poison(static_cast<uint64_t>(s.a[3]));
                In *in = make_in(s.seed, s.a[2] != 0);
                if (s.a[3] & 64) in->relocate(static_cast<uint64_t>(s.a[3]));
                rt::poison_stack(static_cast<uint64_t>(s.a[3]));
                *static_cast<Out *>(buf) = cat_run(static_cast<int>(s.a[1]), *in, s.seed);
            }, &o, sizeof o);
            fresh.push_back(o);
        }
    size_t t = 0;
    rt::heap_reuse(static_cast<int>(p.get("reuse")));
    In *held = nullptr; // the operands of the next target, in place
    uint64_t held_seed = 0;
    bool held_wild = false;
    for (auto &s : p.steps) {
        int op = static_cast<int>(s.a[1]);
        In *in;
        bool vary = s.op == "prelude" && s.a[3];
        if (held && held_seed == s.seed && held_wild == (s.a[2] != 0) && (vary || s.op == "target")) {
            in = held;
        } else {
            in = make_in(s.seed, s.a[2] != 0);
            if (s.op == "target" && (s.a[4] & 64)) in->relocate(static_cast<uint64_t>(s.a[4]));
            if (vary) {
                held = in;
                held_seed = s.seed;
                held_wild = s.a[2] != 0;
            }
        }
        if (vary) in->vary(static_cast<uint64_t>(s.a[3]), false);
        if (trap) enable_traps();
        if (s.op == "prelude") {
            for (auto &f : p.faults)
                if (f.step == s.id) rt::heap_fail_at(f.at, f.arg != 0);
            Out o = cat_run(op, *in, s.seed);
            rt::heap_fail_off();
            if (vary) in->vary(static_cast<uint64_t>(s.a[3]), true);
            rt::log(o.h);
            for (uint64_t i = 0, e0 = rt::events(); i < static_cast<uint64_t>(s.a[4]) && rt::events() - e0 < 400000; ++i) {
                if (vary) in->vary(static_cast<uint64_t>(s.a[3]) + i, false);
                Out a = cat_run(op, *in, s.seed);
                if (vary) in->vary(static_cast<uint64_t>(s.a[3]) + i, true);
                rt::log(a.h);
                rt::count(rt::K_P0);
            }
        } else {
            rt::heap_poison(static_cast<uint64_t>(s.a[4]));
            rt::poison_stack(static_cast<uint64_t>(s.a[4]));
            rt::count(rt::K_F_POISON);
            Out o = cat_run(op, *in, s.seed);
            rt::digest(o.h);
            rt::digest(static_cast<uint64_t>(o.ended));
            rt::state(mix(mix(static_cast<uint64_t>(op), o.h), static_cast<uint64_t>(s.a[4]) % 6));
            if (!(o == fresh[t]))
                rt::violate("history-dependent", "%s: in a fresh process it %s, after other operations and with other memory contents it %s%s", cat_op(op).name, ended_name(fresh[t].ended), ended_name(o.ended), fresh[t].ended == o.ended ? " with a different result" : "");
            ++t;
        }
        ProcState st1;
        if (trap) {
            fedisableexcept(FE_ALL_EXCEPT);
            rt::count(rt::K_P1);
            if (traps_hit) {
                st1.traps = st0.traps;
                st1.fp[0] = st0.fp[0];
                st1.fp[1] = st0.fp[1];
            }
        }
        if (const char *w = st0.differs(st1)) rt::violate("process-state", "%s changed %s", cat_op(op).name, w);
    }
    std::fesetround(FE_TONEAREST);
    rt::note("%zu steps, targets:", p.steps.size());
    for (auto &s : p.steps)
        if (s.op == "target") rt::note(" %s", cat_op(static_cast<int>(s.a[1])).name);
}

// ---------------------------------------------------------------- C16
static void gen_c16(Plan &p, Rng &r)
{
    int k = 2 + static_cast<int>(r.below(3));
    p.cfg["round"] = r.chance(1, 6) ? static_cast<int64_t>(1 + r.below(3)) : 0;
    for (int i = 0; i < k; ++i) {
        Step &s = p.add(r.chance(1, 24) ? "long" : r.chance(1, 3) ? "grow" : "values", r.next());
        s.a[1] = pick_op(r);
        if (s.op == "long") {
            s.a[1] = static_cast<int64_t>(r.below(static_cast<uint64_t>(n_cat_l)));
            s.a[2] = static_cast<int64_t>(1500 + r.below(3000));
            if (r.chance(1, 4)) {
                Fault f;
                f.step = s.id;
                f.kind = "alloc";
                f.at = static_cast<int64_t>(r.below(1000000));
                f.arg = r.chance(3, 4);
                p.faults.push_back(f);
            }
            continue;
        }
        s.a[2] = s.op == "values" && r.chance(1, 4);
        s.a[3] = static_cast<int64_t>(r.chance(1, 2) ? 3 : r.below(5));
        if (r.chance(1, 4)) s.a[4] = static_cast<int64_t>(1 + r.below(1000)); // another tolerance, also 0 and huge
        if (r.chance(1, 4)) {
            Fault f;
            f.step = s.id;
            f.kind = "alloc";
            f.at = static_cast<int64_t>(r.below(1000000));
            f.arg = r.chance(3, 4);
            p.faults.push_back(f);
        }
    }
}
static void exec_c16(const Plan &p)
{
    static const int modes[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
    std::fesetround(modes[p.get("round") & 3]);
    for (auto &s : p.steps) {
        int op = static_cast<int>(s.a[1]);
        const bool lng = s.op == "long";
        if (lng && n_cat_l == 0) continue;
        const char *name = lng ? cat_l[op % n_cat_l].name : cat_op(op).name;
        bool wild = s.a[2] != 0, grow = s.op == "grow";
        size_t stack[2];
        double tol = malg::feq::tolerance();
        auto set_tol = [](double x) { malg::feq::tolerance() = cat_tol_a() = cat_tol_b() = cat_tol_c() = cat_tol_d() = cat_tol_e() = x; };
        uint64_t work[2];
        uint64_t calls = 0;
        for (int pass = 0; pass < 2; ++pass) {
            if (grow) cat_small = 10;
            In *in = lng ? nullptr : grow ? make_in(s.seed, false, static_cast<int>(s.seed % 3), pass ? 2 : 1) : make_in(s.seed, wild, pass ? static_cast<int>(s.a[3]) : static_cast<int>(s.seed % 3));
            if (pass && !grow && !lng && s.a[4]) {
                const double t[] = { 0., 1., 1e300, 1e-300, 1e-3 };
                set_tol(t[s.a[4] % 5]);
            }
            const Fault *f = nullptr;
            for (auto &x : p.faults)
                if (x.step == s.id && x.kind == "alloc") f = &x;
            for (int again = 0; again < 2; ++again) {
                if (again && (!f || !calls)) break;
                uint64_t e0 = rt::events(), c0 = rt::heap_alloc_calls();
                if (again) rt::heap_fail_at(1 + static_cast<int64_t>((static_cast<uint64_t>(f->at) * calls) / 1000000), f->arg != 0);
                rt::stack_mark();
                Out o = lng ? cat_run_long(op, static_cast<size_t>(s.a[2]) * (pass ? 4 : 1), s.seed) : cat_run(op, *in, s.seed);
                rt::heap_fail_off();
                uint64_t e = rt::events() - e0;
                if (!again) {
                    stack[pass] = rt::stack_used();
                    calls = rt::heap_alloc_calls() - c0;
                    work[pass] = e;
                    rt::log(e);
                } else if (e > 4 * work[pass] + 100000) {
                    rt::violate("unbounded-work", "%s with memory running out takes %llu steps, without %llu", name, static_cast<unsigned long long>(e), static_cast<unsigned long long>(work[pass]));
                }
                if (o.ended == OTHER_EXC) rt::violate("odd-exception", "%s threw an exception that is neither a bad_alloc nor a logic or runtime error", name);
                rt::log(o.h);
                rt::log(static_cast<uint64_t>(o.ended));
                rt::state(mix(mix(static_cast<uint64_t>(op), o.h), static_cast<uint64_t>(o.ended)));
            }
            set_tol(tol);
            cat_small = 5;
            if (in) in->~In();
        }
        if (lng && stack[1] > stack[0] + 65536) rt::violate("stack", "%s uses %zu bytes of the stack with %lld elements, and %zu with four times as many", name, stack[0], static_cast<long long>(s.a[2]), stack[1]);
        if (lng && work[1] > 300 * work[0] + 200000) rt::violate("unbounded-work", "%s takes %llu steps, and %llu with four times the elements", name, static_cast<unsigned long long>(work[0]), static_cast<unsigned long long>(work[1]));
        if (grow && work[1] > 128 * work[0] + 200000) rt::violate("unbounded-work", "%s takes %llu steps, and %llu with all dimensions doubled", name, static_cast<unsigned long long>(work[0]), static_cast<unsigned long long>(work[1]));
        if (!grow && !lng && work[1] > 1000 * work[0] + 5000000) rt::violate("unbounded-work", "%s takes %llu steps, and %llu with other elements of the same shapes", name, static_cast<unsigned long long>(work[0]), static_cast<unsigned long long>(work[1]));
    }
    std::fesetround(FE_TONEAREST);
    rt::note("%zu operations:", p.steps.size());
    for (auto &s : p.steps) rt::note(" %s%s", s.op == "long" ? cat_l[s.a[1] % n_cat_l].name : cat_op(static_cast<int>(s.a[1])).name, s.op == "grow" ? "+" : s.op == "values" && s.a[2] ? "*" : "");
}

static const Scenario s16 = { "C16", gen_c16, exec_c16 }, s01 = { "C01", gen_c01, exec_c01 }, s02 = { "C02", gen_c02, exec_c02 }, s03 = { "C03", gen_c03, exec_c03 }, s04 = { "C04", gen_c04, exec_c04 }, s14 = { "C14", gen_c14, exec_c14 };
const Scenario *const scenarios[] = { &s01, &s02, &s03, &s04, &s14, &s16, nullptr };
