// C12: random generation as a function of the entropy source.
#include "misc.hpp"
#ifdef VERIF_DROPPED // does not compile against the present tree
void gen12(Plan &, Rng &) {}
void exec12(const Plan &) { rt::harness_error("not built"); }
#else

// step: gen  type  kind(0 vector, 1 matrix)  rows  cols  range  thread; seed = entropy
void gen12(Plan &p, Rng &r)
{
    int threads = r.chance(1, 2) ? 1 : 2 + static_cast<int>(r.below(3));
    p.cfg["threads"] = threads;
    int n = 1 + static_cast<int>(r.below(6));
    uint64_t common = r.next();
    for (int i = 0; i < n; ++i) {
        Step &s = p.add("gen", r.chance(1, 4) ? common : r.next());
        s.a[0] = static_cast<int64_t>(r.below(7));
        s.a[1] = static_cast<int64_t>(r.below(2));
        bool big = r.chance(1, 4);
        s.a[2] = static_cast<int64_t>(big ? 16 + r.below(8) : r.below(6));
        s.a[3] = static_cast<int64_t>(big ? 24 + r.below(8) : r.below(6));
        s.a[4] = static_cast<int64_t>(r.below(8));
        s.a[5] = static_cast<int64_t>(r.below(static_cast<uint64_t>(threads)));
        if (r.chance(1, 4)) {
            static const char *const k[] = { "ctor", "get", "alloc", "const" };
            p.faults.push_back({ s.id, k[r.below(4)], 1 + static_cast<int64_t>(r.chance(1, 4) ? r.below(3) : 0), static_cast<int64_t>(r.below(4)) });
        }
    }
    if (threads > 1) gen_switches(p, r, threads);
}
struct Gen {
    uint64_t h = 0;     // shape and elements
    size_t n = 0;
    int ended = RETURNED;
    bool fired = false; // a fault was delivered
};
template <class T>
struct Ranges {
    static void get(int i, T &lo, T &hi)
    {
        if constexpr (std::is_integral_v<T>) {
            static const T l[] = { 0, -3, -1000, 5, std::numeric_limits<T>::min(), 0, 100, -8 }, h[] = { 1, 4, 1000, 5, std::numeric_limits<T>::max(), std::numeric_limits<T>::max(), 115, -1 };
            lo = l[i];
            hi = h[i];
        } else {
            static const T l[] = { 0, -1, -1000, 5, static_cast<T>(1e-3), static_cast<T>(-1e20), 100, -8 }, h[] = { 1, 1, 1000, 5, static_cast<T>(2e-3), static_cast<T>(1e20), 101, static_cast<T>(-0.5) };
            lo = l[i];
            hi = h[i];
        }
    }
};
template <class P>
static void range_check(const std::vector<P> &x, P lo, P hi, const char *what)
{
    for (auto &v : x)
        if (!(v >= lo && v <= hi)) rt::violate("wrong-value", "%s: a random element lies outside [%g, %g]: %.17g", what, static_cast<double>(lo), static_cast<double>(hi), static_cast<double>(v));
    if (x.size() < 300 || lo == hi) return;
    bool hit[8] = {};
    long double w = static_cast<long double>(hi) - static_cast<long double>(lo) + (std::is_integral_v<P> ? 1 : 0);
    int cells = std::is_integral_v<P> && w < 8 ? static_cast<int>(w) : 8;
    for (auto &v : x) hit[std::min<int>(cells - 1, static_cast<int>((static_cast<long double>(v) - static_cast<long double>(lo)) * cells / w))] = true;
    for (int i = 0; i < cells; ++i)
        if (!hit[i]) rt::violate("wrong-value", "%s: none of %zu random elements lies in part %d of %d of [%g, %g]", what, x.size(), i + 1, cells, static_cast<double>(lo), static_cast<double>(hi));
    rt::count(rt::K_P0);
}
template <class T>
static Gen generate_t(const Step &s, const char *type)
{
    Gen o;
    size_t r = static_cast<size_t>(s.a[2]) % 64, c = static_cast<size_t>(s.a[3]) % 64;
    bool mat = s.a[1] & 1;
    char what[100];
    snprintf(what, sizeof what, mat ? "rand_matrix<%s>(%zu, %zu)" : "rand_vector<%s>(%zu)", type, mat ? r : r * c, c);
    rt::context("%s", what);
    auto finish = [&](const T *p, size_t n, auto lo, auto hi) {
        typedef decltype(lo) Q;
        if constexpr (malg::is_complex_v<T>) {
            std::vector<Q> a, b;
            for (size_t i = 0; i < n; ++i) {
                a.push_back(p[i].real());
                b.push_back(p[i].imag());
            }
            range_check(a, lo, hi, what);
            range_check(b, lo, hi, what);
            if (n >= 16 && lo < hi && a == b) rt::violate("wrong-value", "%s: real and imaginary parts are all equal", what);
        } else
            range_check(std::vector<T>(p, p + n), lo, hi, what);
        for (size_t i = 0; i < n; ++i) o.h = mix(o.h, bits(p[i]));
        o.n = n;
    };
    auto body = [&](auto lo, auto hi) {
        typedef malg::Matrix<T> M;
        typedef malg::Vector<T> V;
        int ended = RETURNED;
        if (mat) {
            M *m = nullptr;
            ended = in_library([&] { m = new M(malg::utility::rand_matrix<T>(r, c, lo, hi)); });
            if (m) {
                consistent(*m, what);
                if (m->rows() != r || m->cols() != c) rt::violate("wrong-value", "%s returned a %zu x %zu matrix", what, m->rows(), m->cols());
                o.h = mix(r, c);
                finish(m->data(), m->size(), lo, hi);
                rt::LibScope l;
                delete m;
            }
        } else {
            V *v = nullptr;
            ended = in_library([&] { v = new V(malg::utility::rand_vector<T>(r * c, lo, hi)); });
            if (v) {
                consistent(*v, what);
                if (v->size() != r * c) rt::violate("wrong-value", "%s returned %zu elements", what, v->size());
                finish(v->data(), v->size(), lo, hi);
                rt::LibScope l;
                delete v;
            }
        }
        o.ended = ended;
    };
    int q = static_cast<int>(static_cast<uint64_t>(s.a[4]) % 8);
    if constexpr (malg::is_complex_v<T>) {
        typename T::value_type lo, hi;
        Ranges<typename T::value_type>::get(q, lo, hi);
        body(lo, hi);
    } else {
        T lo, hi;
        Ranges<T>::get(q, lo, hi);
        body(lo, hi);
    }
    return o;
}
static Gen generate_one(const Step &s)
{
    switch (static_cast<uint64_t>(s.a[0]) % 7) {
    case 1: return generate_t<float>(s, "float");
    case 2: return generate_t<int>(s, "int");
    case 3: return generate_t<long>(s, "long");
    case 4: return generate_t<cd>(s, "complex<double>");
    case 5: return generate_t<std::complex<float>>(s, "complex<float>");
    case 6: return generate_t<short>(s, "short");
    default: return generate_t<double>(s, "double");
    }
}
static bool degenerate(const Step &s) { return static_cast<uint64_t>(s.a[4]) % 8 == 3; }
// One call with the faults of its step.
static Gen with_faults(const Plan &p, const Step &s, uint64_t entropy)
{
    rt::entropy_reset(entropy);
    if (auto *f = fault_of(p, s.id, "const")) {
        static const uint32_t v[] = { 0, 0xffffffffu, 1, 5489 };
        rt::entropy_const(true, v[f->arg & 3]);
    }
    if (auto *f = fault_of(p, s.id, "ctor")) rt::entropy_fail_ctor(f->at);
    if (auto *f = fault_of(p, s.id, "get")) rt::entropy_fail_get(f->at);
    auto *af = fault_of(p, s.id, "alloc");
    if (af) rt::heap_fail_at(af->at, af->arg & 1);
    Gen g = generate_one(s);
    uint64_t mem = af ? rt::heap_fired() : 0, ent = rt::entropy_fired();
    rt::heap_fail_off();
    g.fired = mem + ent != 0;
    if (ent && g.ended == RETURNED) rt::violate("unreported-failure", "random data was returned though the entropy source had failed");
    if (mem && g.ended == RETURNED) rt::violate("unreported-failure", "random data was returned though memory had run out");
    if (!g.fired && g.ended != RETURNED) rt::violate("wrong-rejection", "generating random data %s", ended_name(g.ended));
    if (mem && !ent && g.ended != NO_MEMORY) rt::violate("unreported-failure", "a failed allocation made random generation end otherwise: %s", ended_name(g.ended));
    if (rt::entropy_open_devices()) rt::violate("leak", "%d entropy devices were left open", rt::entropy_open_devices());
    return g;
}
void exec12(const Plan &p)
{
    int threads = static_cast<int>(std::min<int64_t>(6, std::max<int64_t>(1, p.get("threads", 1))));
    std::vector<std::vector<const Step *>> prog(static_cast<size_t>(threads));
    for (auto &s : p.steps)
        if (s.op == "gen" && prog[static_cast<size_t>(s.a[5]) % prog.size()].size() < 32) prog[static_cast<size_t>(s.a[5]) % prog.size()].push_back(&s);
    size_t live0 = rt::heap_live_blocks();
    struct Solo {
        Gen g[32], clean[32], other[32], next[32], word[32], flip[32];
        uint64_t ev;
    };
    std::vector<Solo> solo(prog.size());
    uint64_t total = 0;
    for (size_t t = 0; t < prog.size(); ++t) {
        rt::fork_eval([&](void *b) {
            rt::heap_poison(p.seed * 3 + 1);
            rt::poison_stack(p.seed * 3 + 1);
            Solo *x = static_cast<Solo *>(b);
            uint64_t e0 = rt::events();
            for (size_t i = 0; i < prog[t].size(); ++i) x->g[i] = with_faults(p, *prog[t][i], prog[t][i]->seed);
            x->ev = rt::events() - e0;
            for (size_t i = 0; i < prog[t].size(); ++i) {
                const Step &s = *prog[t][i];
                rt::entropy_reset(s.seed);
                x->clean[i] = generate_one(s);
                x->next[i] = generate_one(s); // from what the source delivers next
                rt::entropy_reset(s.seed ^ 0x5bd1e995);
                x->other[i] = generate_one(s);
                // Entropy that is easily mistaken for the same.
                uint32_t w = static_cast<uint32_t>(mix(s.seed, 77)), z;
                switch (mix(s.seed, 79) % 8) {
                case 0: z = 0u - w; break;
                case 1: z = ~w; break;
                case 2: z = (w << 16) | (w >> 16); break;
                case 3: z = __builtin_bswap32(w); break;
                case 4: z = w + 1; break;
                default: z = w ^ (1u << (mix(s.seed, 78) % 32)); break; // one bit
                }
                if (z == w) z = w + 1;
                rt::entropy_const(true, w);
                x->word[i] = generate_one(s);
                rt::entropy_const(true, z);
                x->flip[i] = generate_one(s);
                rt::entropy_const(false, 0);
            }
        }, &solo[t], sizeof(Solo));
        total += solo[t].ev;
    }
    for (size_t t = 0; t < prog.size(); ++t)
        for (size_t i = 0; i < prog[t].size(); ++i) {
            const Step &s = *prog[t][i];
            const Solo &x = solo[t];
            bool ints = s.a[0] == 2 || s.a[0] == 3 || s.a[0] == 6;
            bool tell = !degenerate(s) && x.clean[i].n >= (ints ? 64 : 4);
            if (tell && x.clean[i].h == x.other[i].h) rt::violate("wrong-value", "the same random data from different entropy");
            if (tell && x.clean[i].h == x.next[i].h) rt::violate("wrong-value", "the same random data again though the entropy source went on");
            if (tell && x.word[i].h == x.flip[i].h) rt::violate("wrong-value", "the same random data from entropy that is a little different");
            if (!x.g[i].fired && !fault_of(p, s.id, "const") && x.g[i].h != x.clean[i].h) rt::violate("history-dependent", "other random data from the same entropy after other calls");
        }
    auto check = [&](size_t t, size_t i, const Gen &g) {
        const Gen &w = solo[t].g[i];
        if (g.h != w.h || g.ended != w.ended) rt::violate("interference", "the same entropy gives other random data in another thread, schedule or memory state (call %zu of thread %zu)", i, t);
        rt::digest(g.h);
        rt::state(mix(g.h, static_cast<uint64_t>(g.ended)));
    };
    if (threads == 1) {
        rt::heap_poison(p.seed + 99);
        for (size_t i = 0; i < prog[0].size(); ++i) check(0, i, with_faults(p, *prog[0][i], prog[0][i]->seed));
    } else {
        std::vector<std::vector<Gen>> got(prog.size());
        std::vector<std::function<void()>> bodies;
        for (size_t t = 0; t < prog.size(); ++t) {
            got[t].resize(prog[t].size());
            bodies.push_back([&, t] {
                for (size_t i = 0; i < prog[t].size(); ++i) got[t][i] = with_faults(p, *prog[t][i], prog[t][i]->seed);
            });
        }
        rt::run_threads(bodies, scale(p, total), true);
        for (size_t t = 0; t < prog.size(); ++t)
            for (size_t i = 0; i < prog[t].size(); ++i) check(t, i, got[t][i]);
    }
    if (rt::heap_leaked(live0)) rt::violate("leak", "random generation left memory allocated: %s", rt::heap_live_desc().c_str());
    rt::note("%d thread(s), %zu calls", threads, p.steps.size());
}
#endif
