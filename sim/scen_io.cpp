// Files and text output: saving and loading (C07), failing saves (C08), loads
// of damaged files (C09, C10), text sinks (C11).
#include "io.hpp"
#include <iostream>
#include <cinttypes>
#include <locale>

Obj *make_d(int, int, size_t, size_t, uint64_t, int), *make_f(int, int, size_t, size_t, uint64_t, int);
Obj *make_i(int, int, size_t, size_t, uint64_t, int), *make_l(int, int, size_t, size_t, uint64_t, int), *make_u(int, int, size_t, size_t, uint64_t, int);
Obj *make_cd(int, int, size_t, size_t, uint64_t, int), *make_cf(int, int, size_t, size_t, uint64_t, int);
Obj *make_model(uint64_t, bool), *make_range(uint64_t);
Obj *make_obj(int type, int kind, size_t r, size_t c, uint64_t seed, int style)
{
    switch (type) {
    case E_FLOAT: return make_f(type, kind, r, c, seed, style);
    case E_INT: return make_i(type, kind, r, c, seed, style);
    case E_LONG: return make_l(type, kind, r, c, seed, style);
    case E_UINT: return make_u(type, kind, r, c, seed, style);
    case E_CD: return make_cd(type, kind, r, c, seed, style);
    case E_CF: return make_cf(type, kind, r, c, seed, style);
    default: return make_d(type, kind, r, c, seed, style);
    }
}
typedef std::unique_ptr<Obj> P;
static const char *type_name(int t)
{
    static const char *const n[] = { "double", "float", "int", "long", "unsigned", "complex<double>", "complex<float>" };
    return n[t % E_TYPES];
}
static const char *kind_name(int k)
{
    static const char *const n[] = { "vector", "matrix", "view", "constant view" };
    return n[k % O_KINDS];
}
static void format(std::ios &s, const Plan &p)
{
    int64_t prec = p.get("prec", -1);
    if (prec >= 0) s.precision(prec);
    if (p.get("flags") == 1) s.setf(std::ios::scientific, std::ios::floatfield);
    if (p.get("flags") == 2) s.setf(std::ios::fixed, std::ios::floatfield);
    int64_t m = p.get("more");
    if (m & 1) s.setf(std::ios::showpos);
    if (m & 2) s.setf(std::ios::left, std::ios::adjustfield);
    if (m & 4) s.setf(std::ios::uppercase);
    if (m & 8) s.setf(std::ios::showpoint);
}
// Locales with another decimal point and digits in groups.
struct Comma : std::numpunct<char> {
    char do_decimal_point() const override { return ';'; }
};
struct Grouped : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
};
struct Thousands : std::numpunct<char> {
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\3\2"; }
};
static const std::locale &test_locale(int64_t k)
{
    static const std::locale c(std::locale::classic(), new Comma), g(std::locale::classic(), new Grouped), t(std::locale::classic(), new Thousands);
    static bool warm = false;
    if (!warm) { // (the standard library caches what it needs of a locale)
        warm = true;
        for (auto *l : { &c, &g, &t }) {
            std::stringstream s;
            s.imbue(*l);
            s << 1.5 << ' ' << 1.5f << ' ' << 1 << ' ' << 1u << ' ' << 1l << ' ' << size_t(1);
            double d;
            int i;
            s >> d >> d >> i;
        }
    }
    return k == 1 ? g : k == 2 ? t : k == 3 ? c : std::locale::classic();
}
static void gen_format(Plan &p, Rng &r)
{
    switch (r.below(4)) {
    case 0: break;
    case 1: p.cfg["prec"] = static_cast<int64_t>(1 + r.below(20)); break;
    default: p.cfg["prec"] = 17;
    }
    if (r.chance(1, 4)) p.cfg["flags"] = static_cast<int64_t>(1 + r.below(2));
}
static void gen_chunks(Plan &p, Rng &r)
{
    if (r.chance(1, 3)) p.cfg["rd"] = static_cast<int64_t>(r.chance(1, 2) ? 1 + r.below(8) : 1 + r.below(300));
    if (r.chance(1, 3)) p.cfg["wr"] = static_cast<int64_t>(r.chance(1, 2) ? 1 + r.below(8) : 1 + r.below(300));
    if (r.chance(1, 4)) p.cfg["wbuf"] = static_cast<int64_t>(1 + r.below(2));
    if (r.chance(1, 4)) p.cfg["rbuf"] = static_cast<int64_t>(1 + r.below(2));
}
static size_t gen_dim(Rng &r)
{
    if (r.chance(1, 10)) return 0;
    if (r.chance(1, 25)) return 1 + r.below(40);
    if (r.chance(1, 60)) return 1 + r.below(400); // (of matrices, modulo 64)
    return 1 + r.below(5);
}
// a record: type kind rows cols flags
static Step &gen_rec(Plan &p, Rng &r, int kinds, int only_type = -1)
{
    Step &s = p.add("rec", r.next());
    s.a[0] = only_type >= 0 ? only_type : r.chance(1, 2) ? E_DOUBLE : static_cast<int64_t>(r.below(E_TYPES));
    s.a[1] = static_cast<int64_t>(r.below(static_cast<uint64_t>(kinds)));
    s.a[2] = static_cast<int64_t>(gen_dim(r));
    s.a[3] = static_cast<int64_t>(gen_dim(r));
    if (r.chance(1, 40) && !p.get("rd") && !p.get("wr") && p.get("threads", 1) <= 1) { // larger than any buffer on the way
        s.a[2] = static_cast<int64_t>(16 + r.below(40));
        s.a[3] = static_cast<int64_t>(16 + r.below(40));
    }
    s.a[4] = static_cast<int64_t>(r.below(8));
    return s;
}
static Obj *step_obj(const Step &s)
{
    int kind = static_cast<int>(static_cast<uint64_t>(s.a[1]) % O_KINDS);
    return make_obj(static_cast<int>(static_cast<uint64_t>(s.a[0]) % E_TYPES), kind, static_cast<size_t>(s.a[2]) % (kind == O_VECTOR ? 512 : 64), static_cast<size_t>(s.a[3]) % 64, s.seed, static_cast<int>((s.seed >> 7) % 2));
}
static char small_buf[4][2][24];
template <class F>
static void buffer(F &f, int64_t mode, int t)
{
    if (mode == 1) f.rdbuf()->pubsetbuf(nullptr, 0);
    if (mode == 2) f.rdbuf()->pubsetbuf(small_buf[t & 3][std::is_same_v<F, std::ofstream>], 24);
}
static void gen_switches(Plan &p, Rng &r, int threads)
{
    size_t n = r.chance(1, 2) ? 1 + r.below(6) : 5 + r.below(40);
    std::vector<uint64_t> at;
    for (size_t i = 0; i < n; ++i) at.push_back(1 + r.below(0xffffffffull));
    std::sort(at.begin(), at.end());
    p.switches.push_back({ 0, static_cast<int>(r.below(static_cast<uint64_t>(threads))) });
    for (auto a : at) p.switches.push_back({ a, static_cast<int>(r.below(static_cast<uint64_t>(threads))) });
}
static const Fault *fault_of(const Plan &p, int step, const char *kind)
{
    for (auto &f : p.faults)
        if (f.step == step && f.kind == kind) return &f;
    return nullptr;
}
static std::vector<rt::DiskFault> disk_faults(const Plan &p)
{
    std::vector<rt::DiskFault> v;
    for (auto &f : p.faults)
        if (f.step < 0) v.push_back({ f.kind, f.at, f.arg });
    return v;
}

// ================================================================ C07
static void gen07(Plan &p, Rng &r)
{
    gen_format(p, r);
    gen_chunks(p, r);
    int threads = r.chance(1, 5) ? 2 + static_cast<int>(r.below(2)) : 1;
    p.cfg["threads"] = threads;
    if (r.chance(1, 4)) p.cfg["loc"] = static_cast<int64_t>(1 + r.below(3));
    if (r.chance(1, 4)) p.cfg["more"] = static_cast<int64_t>(1 + r.below(15));
    int n = 1 + static_cast<int>(r.below(p.get("tier") ? 16 : 8));
    for (int i = 0; i < n; ++i) gen_rec(p, r, O_KINDS).a[5] = static_cast<int64_t>(r.below(static_cast<uint64_t>(threads)));
    if (threads == 1) {
        static const char *const kinds[] = { "wshort", "weintr", "rshort", "reintr" };
        int k = static_cast<int>(r.below(5));
        for (int i = 0; i < k; ++i) p.faults.push_back({ -1, kinds[r.below(4)], static_cast<int64_t>(r.below(r.chance(1, 2) ? 3 : 60)), static_cast<int64_t>(1 + r.below(20)) });
    } else
        gen_switches(p, r, threads);
}
static void exec07(const Plan &p)
{
    int threads = static_cast<int>(std::min<int64_t>(4, std::max<int64_t>(1, p.get("threads", 1))));
    rt::disk_reset();
    rt::disk_chunk(static_cast<size_t>(p.get("rd")), static_cast<size_t>(p.get("wr")));
    rt::disk_faults(disk_faults(p));
    const std::locale &loc = test_locale(p.get("loc"));
    size_t live0 = rt::heap_live_blocks();
    std::ostringstream fmt; // (in the classic locale: only the values matter)
    format(fmt, p);
    struct One { const Step *s; P o, pre; };
    std::vector<std::vector<One>> prog(static_cast<size_t>(threads));
    for (auto &s : p.steps)
        if (s.op == "rec") {
            One x;
            x.s = &s;
            x.o.reset(step_obj(s));
            // A stream cannot read back the complex numbers it prints when the decimal point is a comma.
            if (p.get("loc") == 1 && (x.o->type == E_CD || x.o->type == E_CF)) continue;
            int t = x.o->type, k = x.o->is_vector() ? O_VECTOR : O_MATRIX;
            size_t pr = s.a[4] & 2 ? s.seed % 5 : 0, pc = s.a[4] & 2 ? (s.seed >> 9) % 5 : 0;
            x.pre.reset(make_obj(t, k, pr, pc, s.seed + 1, 0)); // the object it will be loaded into
            prog[static_cast<size_t>(s.a[5]) % static_cast<size_t>(threads)].push_back(std::move(x));
        }
    auto body = [&](size_t t) {
        std::string path = "/simdisk/t" + std::to_string(t);
        auto &list = prog[t];
        std::vector<uint64_t> before;
        for (auto &x : list) before.push_back(x.o->parent_digest());
        {
            std::ofstream f;
            buffer(f, p.get("wbuf"), static_cast<int>(t));
            f.open(path);
            format(f, p);
            f.imbue(loc);
            for (auto &x : list) {
                if (x.s->a[4] & 1) { // in several sessions
                    f.close();
                    if (!f.good()) rt::violate("wrong-rejection", "closing a file after saving fails though every write succeeded");
                    f.open(path, std::ios::app);
                }
                rt::context("saving a %s of %s, %zu x %zu", kind_name(x.o->kind), type_name(x.o->type), x.o->rows(), x.o->cols());
                x.o->save(f);
                rt::count(rt::K_OPS);
                if (!f.good()) rt::violate("wrong-rejection", "saving a %zu x %zu %s of %s failed though every write succeeded", x.o->rows(), x.o->cols(), kind_name(x.o->kind), type_name(x.o->type));
            }
            f.close();
            if (!f.good()) rt::violate("wrong-rejection", "closing a file after saving fails though every write succeeded");
        }
        for (size_t i = 0; i < list.size(); ++i)
            if (list[i].o->parent_digest() != before[i]) rt::violate("operand-changed", "saving a %s changed it", kind_name(list[i].o->kind));
        std::ifstream f;
        buffer(f, p.get("rbuf"), static_cast<int>(t));
        f.open(path);
        f.imbue(loc);
        for (size_t i = 0; i < list.size(); ++i) {
            Obj &o = *list[i].o, &q = *list[i].pre;
            rt::context("loading record %zu, a %s of %s, %zu x %zu", i, kind_name(o.kind), type_name(o.type), o.rows(), o.cols());
            q.load(f);
            rt::count(rt::K_OPS);
            if (!f.good()) rt::violate("wrong-rejection", "loading a saved %zu x %zu %s of %s failed though every read succeeded", o.rows(), o.cols(), kind_name(o.kind), type_name(o.type));
            q.check("a loaded object");
            if (q.rows() != o.rows() || q.cols() != o.cols()) rt::violate("wrong-value", "a saved %zu x %zu %s of %s was loaded as %zu x %zu", o.rows(), o.cols(), kind_name(o.kind), type_name(o.type), q.rows(), q.cols());
            if (q.digest() != o.rounded(fmt)) rt::violate("wrong-value", "a saved %zu x %zu %s of %s came back with other elements", o.rows(), o.cols(), kind_name(o.kind), type_name(o.type));
            rt::digest(q.digest());
            rt::state(mix(q.digest(), p.get("prec", -1) * 4 + p.get("flags")));
            if ((list[i].s->a[4] & 4)) q.use(list[i].s->seed);
        }
        char c;
        if (f >> c) rt::violate("wrong-value", "something is left after the last record was loaded: '%c'", c);
    };
    if (threads == 1) body(0);
    else {
        std::vector<uint64_t> ev(static_cast<size_t>(threads));
        uint64_t total = 0;
        for (int t = 0; t < threads; ++t) {
            rt::fork_eval([&](void *b) {
                uint64_t e0 = rt::events();
                body(static_cast<size_t>(t));
                *static_cast<uint64_t *>(b) = rt::events() - e0;
            }, &ev[static_cast<size_t>(t)], sizeof(uint64_t));
            total += ev[static_cast<size_t>(t)];
        }
        rt::disk_faults(disk_faults(p));
        std::vector<rt::Switch> sw;
        for (auto &s : p.switches) {
            uint64_t at = s.step ? std::max<uint64_t>(1, static_cast<uint64_t>((static_cast<unsigned __int128>(s.step) * total) >> 32)) : 0;
            if (!sw.empty() && sw.back().step > at) at = sw.back().step;
            sw.push_back({ at, s.tid });
        }
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < threads; ++t) bodies.push_back([&, t] { body(static_cast<size_t>(t)); });
        rt::run_threads(bodies, sw, true);
    }
    rt::note("%d thread(s), %zu records, precision %d, %zu bytes", threads, p.steps.size(), static_cast<int>(fmt.precision()), rt::disk_get("/simdisk/t0").size());
    prog.clear();
    if (rt::heap_leaked(live0)) rt::violate("leak", "saving and loading left memory allocated: %s", rt::heap_live_desc().c_str());
}

// ================================================================ C08
static void gen08(Plan &p, Rng &r)
{
    gen_format(p, r);
    if (r.chance(1, 3)) p.cfg["wr"] = static_cast<int64_t>(1 + r.below(r.chance(1, 2) ? 8 : 300));
    if (r.chance(1, 3)) p.cfg["wbuf"] = static_cast<int64_t>(1 + r.below(2));
    p.cfg["exc"] = r.chance(1, 4) ? static_cast<int64_t>(1 + r.below(3)) : 0;
    int n = 1 + static_cast<int>(r.below(7));
    bool big = r.chance(1, 6); // more than a stream buffer
    for (int i = 0; i < n; ++i) {
        Step &s = gen_rec(p, r, O_KINDS);
        if (big && r.chance(1, 2)) {
            s.a[2] = static_cast<int64_t>(20 + r.below(40));
            s.a[3] = static_cast<int64_t>(20 + r.below(40));
        }
        if (r.chance(1, 4)) p.faults.push_back({ s.id, "alloc", r.chance(1, 2) ? 1 : static_cast<int64_t>(1 + r.below(12)), r.chance(1, 2) });
    }
    int64_t bytes = big ? 20000 : 30 * n;
    switch (r.below(7)) {
    case 0: p.faults.push_back({ -1, "wnospc", static_cast<int64_t>(r.below(static_cast<uint64_t>(bytes * 2))), 0 }); break;
    case 1: p.faults.push_back({ -1, "weio", static_cast<int64_t>(r.below(p.get("wr") || p.get("wbuf") ? 30 : 3)), 0 }); break;
    case 2: p.faults.push_back({ -1, "close", static_cast<int64_t>(r.below(2)), static_cast<int64_t>(r.below(40)) }); break;
    case 3: p.faults.push_back({ -1, "open", static_cast<int64_t>(r.below(2)), 0 }); break;
    case 4: p.faults.push_back({ -1, "wnospc", static_cast<int64_t>(r.below(60)), 0 }); break;
    default: break;
    }
    if (r.chance(1, 4)) p.faults.push_back({ -1, r.chance(1, 2) ? "weintr" : "wshort", static_cast<int64_t>(r.below(4)), static_cast<int64_t>(1 + r.below(9)) });
}
// Whether the file consists of exactly these records.
static bool file_holds(const std::string &bytes, const std::vector<P> &objs, size_t n, const std::ios &fmt, std::string &why)
{
    size_t pos = 0;
    for (size_t i = 0; i < n; ++i) {
        RefRecord ref = objs[i]->reference(bytes, pos);
        char w[200];
        snprintf(w, sizeof w, "record %zu (a %zu x %zu %s of %s)", i, objs[i]->rows(), objs[i]->cols(), kind_name(objs[i]->kind), type_name(objs[i]->type));
        if (!ref.lenient) { why = std::string(w) + " is incomplete"; return false; }
        if (ref.hash != objs[i]->rounded(fmt)) { why = std::string(w) + " holds other data"; return false; }
        pos = ref.end;
    }
    while (pos < bytes.size() && isspace(static_cast<unsigned char>(bytes[pos]))) ++pos;
    if (pos < bytes.size()) { why = "there is something after the last record"; return false; }
    return true;
}
static void exec08(const Plan &p)
{
    rt::disk_reset();
    rt::disk_chunk(0, static_cast<size_t>(p.get("wr")));
    rt::disk_faults(disk_faults(p));
    size_t live0 = rt::heap_live_blocks();
    std::ostringstream fmt;
    format(fmt, p);
    std::vector<P> objs;
    std::vector<const Step *> st;
    for (auto &s : p.steps)
        if (s.op == "rec") {
            objs.emplace_back(step_obj(s));
            st.push_back(&s);
        }
    std::vector<uint64_t> before;
    for (auto &o : objs) before.push_back(o->parent_digest());
    int64_t exc = p.get("exc");
    bool threw = false, ok;
    size_t saved = 0;
    {
        std::ofstream f;
        buffer(f, p.get("wbuf"), 0);
        f.open("/simdisk/f");
        format(f, p);
        int e = RETURNED;
        try {
            if (exc) f.exceptions(exc == 1 ? std::ios::badbit : exc == 2 ? std::ios::failbit : std::ios::badbit | std::ios::failbit);
        } catch (const std::ios::failure &) {
            threw = true;
        }
        for (size_t i = 0; !threw && i < objs.size(); ++i) {
            const Fault *a = fault_of(p, st[i]->id, "alloc");
            rt::context("saving a %s of %s, %zu x %zu", kind_name(objs[i]->kind), type_name(objs[i]->type), objs[i]->rows(), objs[i]->cols());
            if (a) rt::heap_fail_at(a->at, a->arg != 0);
            e = in_library([&] { objs[i]->save(f); });
            rt::heap_fail_off();
            if (e != RETURNED) {
                threw = true;
                if (e != NO_MEMORY && !exc) rt::violate("escaped-exception", "a save threw something else than bad_alloc though no exceptions were enabled on the stream");
                break;
            }
            saved = i + 1;
            if ((st[i]->a[4] & 1) && !exc) { // a caller that checks after every record
                if (!f.good()) break;
            }
            if ((st[i]->a[4] & 2)) {
                try {
                    f.flush();
                } catch (const std::ios::failure &) {
                    threw = true;
                }
            }
        }
        try {
            f.close();
        } catch (const std::ios::failure &) {
            threw = true;
        }
        ok = f.good() && !threw;
    }
    for (size_t i = 0; i < objs.size(); ++i)
        if (objs[i]->parent_digest() != before[i]) rt::violate("operand-changed", "saving a %s changed it", kind_name(objs[i]->kind));
    std::string bytes = rt::disk_get("/simdisk/f"), why;
    bool complete = file_holds(bytes, objs, saved, fmt, why);
    if (ok && saved == objs.size() && !complete) rt::violate("unreported-failure", "the stream is good after closing the file, but %s", why.c_str());
    uint64_t fired = rt::shm->cnt[rt::K_F_WRITE_EIO] + rt::shm->cnt[rt::K_F_ENOSPC] + rt::shm->cnt[rt::K_F_OPEN] + rt::shm->cnt[rt::K_F_CLOSE] + rt::shm->cnt[rt::K_F_ALLOC_ONCE] + rt::shm->cnt[rt::K_F_ALLOC_STICKY] + rt::shm->cnt[rt::K_F_ALLOC_HUGE];
    if (!ok && !fired) rt::violate("wrong-rejection", "a save failed though nothing went wrong");
    rt::count(ok ? rt::K_P0 : threw ? rt::K_P1 : rt::K_P2);
    if (complete) rt::count(rt::K_P3);
    rt::digest(hash_str(bytes));
    rt::digest(ok * 2 + threw);
    rt::state(mix(hash_str(bytes), ok * 2 + threw));
    rt::note("%zu of %zu records, %zu bytes on disk, %s", saved, objs.size(), bytes.size(), ok ? "reported as saved" : threw ? "exception" : "stream failed");
    objs.clear();
    if (rt::heap_leaked(live0)) rt::violate("leak", "saving left memory allocated: %s", rt::heap_live_desc().c_str());
}

// ================================================================ C09 / C10
static const char *const dims[] = { "0", "1", "2", "3", "7", "4294967295", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "9223372036854775808", "2305843009213693952", "6148914691236517206", "1000000000000000000", "99999999999999999999999999", "-1", "x", "1.5", "1e3", "", "100000", "131073", "+4", "0x10", "007" };
static void gen_damage(Plan &p, Rng &r, bool hostile)
{
    gen_format(p, r);
    if (r.chance(1, 2)) p.cfg["rd"] = static_cast<int64_t>(r.chance(1, 2) ? 1 + r.below(12) : 1 + r.below(200));
    if (r.chance(1, 4)) p.cfg["rbuf"] = static_cast<int64_t>(1 + r.below(2));
    if (hostile && r.chance(1, 3)) p.cfg["exc"] = static_cast<int64_t>(1 + r.below(7));
    int n = 1 + static_cast<int>(r.below(5));
    std::vector<std::pair<int64_t, int64_t>> rec;
    for (int i = 0; i < n; ++i) {
        Step &s = gen_rec(p, r, 2);
        rec.push_back({ s.a[0], s.a[1] });
    }
    if (r.chance(1, 8)) p.cfg["ws"] = static_cast<int64_t>(1 + r.below(1000));
    int loads = n + static_cast<int>(r.below(3));
    for (int i = 0; i < loads; ++i) {
        Step &s = p.add("load", r.next());
        auto q = i < n && r.chance(7, 8) ? rec[static_cast<size_t>(i)] : std::make_pair(static_cast<int64_t>(r.below(E_TYPES)), static_cast<int64_t>(r.below(2)));
        s.a[0] = q.first;
        s.a[1] = r.chance(1, 20) ? 1 - q.second : q.second;
        s.a[2] = static_cast<int64_t>(r.below(5)); // old shape
        s.a[3] = static_cast<int64_t>(r.below(5));
        s.a[4] = static_cast<int64_t>(r.below(4)); // 1: clear the stream before, 2: reuse the previous target
        if (hostile && r.chance(1, 4)) p.faults.push_back({ s.id, "alloc", r.chance(2, 3) ? 1 : static_cast<int64_t>(1 + r.below(3)), r.chance(1, 2) });
    }
    static const char *const kinds[] = { "trunc", "bitflip", "zero", "garbage", "torn", "ins", "del", "hdr", "kind" };
    int m = r.chance(1, 6) ? 0 : r.chance(2, 3) ? 1 : 1 + static_cast<int>(r.below(4));
    for (int i = 0; i < m; ++i) {
        const char *k = kinds[hostile && r.chance(1, 2) ? 7 : r.below(9)];
        p.faults.push_back({ -2, k, static_cast<int64_t>(r.below(1000000)), static_cast<int64_t>(r.below(1000)) });
    }
    static const char *const rk[] = { "reio", "rshort", "reintr", "reio" };
    if (r.chance(1, 3)) p.faults.push_back({ -1, rk[r.below(4)], static_cast<int64_t>(r.below(p.get("rd") || p.get("rbuf") ? 25 : 2)), static_cast<int64_t>(1 + r.below(30)) });
}
static void gen09(Plan &p, Rng &r) { gen_damage(p, r, false); }
static void gen10(Plan &p, Rng &r) { gen_damage(p, r, true); }

static std::string damaged(const Plan &p)
{
    std::ostringstream fmt;
    format(fmt, p);
    std::string b, old;
    std::vector<size_t> start;
    for (auto &s : p.steps)
        if (s.op == "rec") {
            P o(step_obj(s));
            std::string t = o->record(fmt);
            if (p.get("ws")) { // other white space than the writer's
                Rng g(static_cast<uint64_t>(p.get("ws")) + s.seed);
                std::string u;
                for (char c : t)
                    if (c == ' ' || c == '\n') {
                        static const char *const w[] = { " ", "\n", "\t", "\r\n", "  ", "\n\n" };
                        u += w[g.below(6)];
                    } else
                        u += c;
                t = u;
            }
            start.push_back(b.size());
            b += t;
            Step q = s;
            q.seed ^= 0x55;
            P o2(step_obj(q));
            old += o2->record(fmt);
        }
    for (auto &f : p.faults) {
        if (f.step != -2) continue;
        size_t at = b.empty() ? 0 : static_cast<size_t>((static_cast<unsigned __int128>(static_cast<uint64_t>(f.at)) * b.size()) / 1000000);
        if (at > b.size()) at = b.size();
        size_t arg = static_cast<size_t>(f.arg);
        Rng g(static_cast<uint64_t>(f.at) * 1000 + arg);
        if (f.kind == "trunc") {
            b.resize(at);
            rt::count(rt::K_F_TRUNC);
        } else if (f.kind == "bitflip") {
            if (at < b.size()) b[at] = static_cast<char>(b[at] ^ (1 << (arg % 8)));
            rt::count(rt::K_F_BITFLIP);
        } else if (f.kind == "zero") {
            size_t len = 1 + arg % 64;
            for (size_t i = at; i < b.size() && i < at + len; ++i) b[i] = '\0';
            rt::count(rt::K_F_LOST_PAGE);
        } else if (f.kind == "garbage") {
            size_t len = 1 + arg % 32;
            static const char pool[] = "0123456789.,+-eE()VM \n\txX\xff\x80nfaINF";
            for (size_t i = at; i < b.size() && i < at + len; ++i) b[i] = arg % 2 ? pool[g.below(sizeof pool - 1)] : static_cast<char>(g.below(256));
            rt::count(rt::K_F_GARBAGE);
        } else if (f.kind == "torn") {
            b.resize(at);
            if (at < old.size()) b += old.substr(at);
            rt::count(rt::K_F_TORN);
        } else if (f.kind == "ins") {
            static const char pool[] = "0123456789.,+-eE()VM \n";
            b.insert(at, 1, pool[arg % (sizeof pool - 1)]);
            rt::count(rt::K_F_GARBAGE);
        } else if (f.kind == "del") {
            b.erase(at, 1 + arg % 8);
            rt::count(rt::K_F_GARBAGE);
        } else if (f.kind == "hdr" || f.kind == "kind") {
            // the header closest after "at"
            size_t h = std::string::npos;
            for (size_t i = at; i < b.size(); ++i)
                if (b[i] == 'V' || b[i] == 'M') { h = i; break; }
            if (h == std::string::npos) h = b.find_first_of("VM");
            if (h == std::string::npos) continue;
            if (f.kind == "kind") b[h] = "VMvmX"[arg % 5];
            else {
                size_t q = h + 1;
                auto number = [&](const char *w) {
                    while (q < b.size() && b[q] == ' ') ++q;
                    size_t e = q;
                    while (e < b.size() && !isspace(static_cast<unsigned char>(b[e]))) ++e;
                    b.replace(q, e - q, w);
                    q += strlen(w);
                };
                size_t nd = sizeof dims / sizeof *dims;
                bool m = b[h] == 'M';
                if (g.chance(1, 2) || !m) number(dims[g.below(nd)]);
                else {
                    while (q < b.size() && b[q] == ' ') ++q;
                    while (q < b.size() && !isspace(static_cast<unsigned char>(b[q]))) ++q;
                }
                if (m && g.chance(1, 2)) number(dims[g.below(nd)]);
            }
            rt::count(rt::K_F_GARBAGE);
        }
    }
    return b;
}
static const size_t memory = size_t(1) << 20; // what a single allocation may ask for here
static uint64_t load_all(const Plan &p, const std::string &bytes, bool hostile)
{
    rt::disk_reset();
    rt::disk_chunk(static_cast<size_t>(p.get("rd")), 0);
    rt::disk_put("/simdisk/f", bytes);
    rt::disk_faults(disk_faults(p));
    rt::heap_set_limit(memory);
    size_t live0 = rt::heap_live_blocks();
    uint64_t h = 0;
    std::ifstream f;
    buffer(f, p.get("rbuf"), 0);
    f.open("/simdisk/f");
    int64_t exc = hostile ? p.get("exc") : 0;
    if (exc) {
        std::ios::iostate m = std::ios::goodbit;
        if (exc & 1) m |= std::ios::failbit;
        if (exc & 2) m |= std::ios::badbit;
        if (exc & 4) m |= std::ios::eofbit;
        f.exceptions(m);
    }
    size_t pos = 0;
    bool known = true; // the read position
    std::vector<P> keep;
    P prev;
    for (auto &s : p.steps) {
        if (s.op != "load") continue;
        int type = static_cast<int>(static_cast<uint64_t>(s.a[0]) % E_TYPES), kind = s.a[1] & 1 ? O_MATRIX : O_VECTOR;
        P o;
        if ((s.a[4] & 2) && prev && prev->type == type && prev->kind == kind) o = std::move(prev);
        else o.reset(make_obj(type, kind, static_cast<size_t>(s.a[2]) % 8, static_cast<size_t>(s.a[3]) % 8, s.seed, 0));
        if (!f.good()) {
            if (!hostile) break; // (where reading goes on after a failure is not specified)
            if (s.a[4] & 1) {
                f.clear();
                known = false;
            }
        }
        bool was_good = f.good();
        uint64_t before = o->digest();
        const Fault *a = hostile ? fault_of(p, s.id, "alloc") : nullptr;
        rt::context("loading a %s of %s at byte %zu of %zu", kind_name(kind), type_name(type), pos, bytes.size());
        uint64_t fired0 = rt::shm->cnt[rt::K_F_ALLOC_ONCE] + rt::shm->cnt[rt::K_F_ALLOC_STICKY];
        if (a) rt::heap_fail_at(a->at, a->arg != 0);
        uint64_t e0 = rt::events();
        bool threw = false, nomem = false;
        try {
            o->load(f);
        } catch (const std::bad_alloc &) {
            threw = nomem = true;
            rt::count(rt::K_THROW_ALLOC);
        } catch (const std::ios::failure &e) {
            threw = true;
            rt::count(rt::K_THROW_OTHER);
            if (!exc) rt::violate("escaped-exception", "a load threw ios_base::failure though exceptions are not enabled: %s", e.what());
        } catch (const std::exception &e) {
            rt::violate("escaped-exception", "a load threw %s", e.what());
        }
        rt::in_lib = 0;
        rt::heap_fail_off();
        rt::count(rt::K_OPS);
        bool oom = rt::shm->cnt[rt::K_F_ALLOC_ONCE] + rt::shm->cnt[rt::K_F_ALLOC_STICKY] != fired0;
        bool ok = f.good() && !threw;
        uint64_t work = rt::events() - e0;
        h = mix(h, (ok ? 1u : 0u) | (threw ? 2u : 0u) | (nomem ? 4u : 0u));
        o->check("the target of a load");
        h = mix(h, o->elements() <= 100000 ? o->digest() : o->elements());
        size_t delivered = static_cast<size_t>(rt::disk_delivered());
        std::string got = bytes.substr(0, delivered);
        if (known && was_good) {
            RefRecord ref = o->reference(got, pos);
            unsigned __int128 n = static_cast<unsigned __int128>(ref.rows) * (kind == O_VECTOR ? 1 : ref.cols);
            size_t el = type == E_CD ? 16 : type == E_DOUBLE || type == E_LONG || type == E_CF ? 8 : 4;
            bool fits = n * el <= memory;
            char what[300];
            snprintf(what, sizeof what, "loading a %s of %s from \"%s\"", kind_name(kind), type_name(type), got.substr(pos, 60).c_str());
            if (!hostile) {
                if (ref.strict && fits && !ok) rt::violate("wrong-rejection", "%s failed though the record is complete", what);
                if (ok && !ref.lenient) rt::violate("unreported-failure", "%s succeeded though the record is not complete", what);
                if (ok && ref.hash != o->digest()) rt::violate("wrong-value", "%s gave other data than the record states (%zu x %zu)", what, o->rows(), o->cols());
                if (ok) rt::count(rt::K_P0);
                else if (ref.header) rt::count(rt::K_P1);
                else rt::count(rt::K_P2);
            } else {
                if (!ref.header && o->digest() != before) rt::violate("operand-changed", "%s changed the target though the header is not valid", what);
                if (ref.header && !ref.negative && !fits && ok) rt::violate("unreported-failure", "%s succeeded though nothing can hold that much", what);
                uint64_t can = fits ? static_cast<uint64_t>(n) : 0;
                if (work > 4000000 + 200 * (can + bytes.size())) rt::violate("hang", "%s took %" PRIu64 " steps", what, work);
                if (ref.header && !fits) rt::count(rt::K_P3);
                if (!ref.header) rt::count(rt::K_P2);
            }
            if (ok) pos = ref.end;
            else known = false;
        }
        if (hostile) {
            if (!was_good && o->digest() != before) rt::violate("operand-changed", "a load from a stream that had already failed changed its target");
            if (!was_good) rt::count(rt::K_P4);
            if (nomem && !oom && !rt::shm->cnt[rt::K_F_ALLOC_HUGE] && o->elements() < 100000) {
                // a size that cannot be represented is reported without asking for memory
                rt::count(rt::K_P5);
            }
            if (o->elements() <= 20000) o->use(s.seed);
        }
        rt::state(mix(mix(o->elements() <= 1000 ? o->digest() : o->elements(), ok), type * 2 + kind));
        if (prev) keep.push_back(std::move(prev));
        prev = std::move(o);
    }
    if (hostile && prev) { // it can be loaded again
        rt::heap_set_limit(size_t(64) << 20);
        std::string good = prev->is_vector() ? "V 2\n1 2\n" : "M 1 2\n1 2\n";
        rt::disk_put("/simdisk/g", good);
        rt::disk_faults({});
        rt::disk_chunk(0, 0);
        std::ifstream g("/simdisk/g");
        prev->load(g);
        if (!g.good() || prev->elements() != 2) rt::violate("no-recovery", "the target of a failed load cannot be loaded from an intact file afterwards");
        h = mix(h, prev->digest());
    }
    prev.reset();
    keep.clear();
    if (f.is_open()) {
        f.exceptions(std::ios::goodbit);
        f.close();
    }
    if (rt::heap_leaked(live0)) rt::violate("leak", "loads left memory allocated: %s", rt::heap_live_desc().c_str());
    return h;
}
static void exec_damage(const Plan &p, bool hostile)
{
    rt::set_event_cap(60000000);
    std::string bytes = damaged(p);
    uint64_t h;
    if (hostile) {
        uint64_t h2;
        rt::fork_eval([&](void *b) {
            rt::heap_poison(p.seed ^ 0x123456);
            rt::poison_stack(p.seed ^ 0x123456);
            *static_cast<uint64_t *>(b) = load_all(p, bytes, true);
        }, &h2, sizeof h2);
        h = load_all(p, bytes, true);
        if (h != h2) rt::violate("uninitialised", "the outcome of loads depends on what memory contained before");
    } else
        h = load_all(p, bytes, false);
    rt::digest(h);
    rt::note("%zu bytes: \"%s\"", bytes.size(), bytes.substr(0, 60).c_str());
}
static void exec09(const Plan &p) { exec_damage(p, false); }
static void exec10(const Plan &p) { exec_damage(p, true); }

// ================================================================ C11
struct Sink : std::streambuf {
    std::string got;
    int64_t limit = -1; // bytes that fit, -1: all
    int mode = 0;       // 0: full from then on, 1: a single refusal, 2: throws
    bool refused = false;
    size_t room() const { return limit < 0 || (mode == 1 && refused) ? ~size_t(0) : static_cast<size_t>(limit) - std::min(got.size(), static_cast<size_t>(limit)); }
    void refuse()
    {
        if (!refused) rt::count(rt::K_F_SINK);
        refused = true;
        if (mode == 2) throw std::runtime_error("sink");
    }
    int overflow(int c) override
    {
        rt::OutScope o;
        if (c == EOF) return 0;
        if (room() == 0) {
            refuse();
            return EOF;
        }
        got += static_cast<char>(c);
        return c;
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        rt::OutScope o;
        size_t m = std::min(room(), static_cast<size_t>(n));
        got.append(s, m);
        if (m < static_cast<size_t>(n)) refuse();
        return static_cast<std::streamsize>(m);
    }
};
static void gen11(Plan &p, Rng &r)
{
    int n = 1 + static_cast<int>(r.below(4));
    for (int i = 0; i < n; ++i) {
        Step &s = gen_rec(p, r, O_KINDS);
        s.op = "print";
        if (r.chance(1, 6)) s.a[1] = static_cast<int64_t>(O_KINDS + r.below(3));
        // a[5]: formatting: precision + 64 * (flags) ...
        s.a[5] = static_cast<int64_t>(r.chance(1, 2) ? 6 : r.below(20)) + 64 * static_cast<int64_t>(r.chance(1, 2) ? 0 : r.below(64));
        int k = static_cast<int>(r.below(4));
        for (int j = 0; j < k; ++j) {
            static const char *const kinds[] = { "full", "once", "throws", "full-exc", "throws-exc", "once-exc" };
            p.faults.push_back({ s.id, kinds[r.below(6)], static_cast<int64_t>(r.below(1000000)), 0 });
        }
    }
}
struct FmtState {
    std::ios::fmtflags fl;
    std::streamsize prec, width;
    char fill;
    std::ios::iostate exc;
    explicit FmtState(std::ostream &o) : fl(o.flags()), prec(o.precision()), width(o.width()), fill(o.fill()), exc(o.exceptions()) {}
    bool same(const FmtState &b, bool w) const { return fl == b.fl && prec == b.prec && (!w || width == b.width) && fill == b.fill && exc == b.exc; }
};
static void exec11(const Plan &p)
{
    const std::locale &comma = test_locale(3), &grouped = test_locale(1);
    size_t live0 = rt::heap_live_blocks();
    for (auto &s : p.steps) {
        if (s.op != "print") continue;
        int kind = static_cast<int>(static_cast<uint64_t>(s.a[1]) % (O_KINDS + 3));
        P o(kind < O_KINDS ? step_obj(s) : kind == O_KINDS ? make_range(s.seed) : make_model(s.seed, kind == O_KINDS + 1));
        const char *kn = kind < O_KINDS ? kind_name(kind) : kind == O_KINDS ? "range" : "model";
        uint64_t fmtc = static_cast<uint64_t>(s.a[5]);
        auto setup = [&](std::ostream &os) {
            os.precision(static_cast<std::streamsize>(fmtc % 64));
            uint64_t m = fmtc / 64;
            if ((m & 3) == 1) os.setf(std::ios::scientific, std::ios::floatfield);
            if ((m & 3) == 2) os.setf(std::ios::fixed, std::ios::floatfield);
            if (m & 4) os.setf(std::ios::showpos);
            if (m & 8) os.setf(std::ios::left, std::ios::adjustfield);
            if (m & 16) os.fill('*');
            if (m & 32) os.imbue(m & 4 ? grouped : comma);
        };
        uint64_t before = o->parent_digest();
        Sink full;
        std::ostream os(&full);
        setup(os);
        FmtState st(os);
        rt::context("printing a %s of %s, %zu x %zu", kn, type_name(o->type), o->rows(), o->cols());
        o->print(os);
        rt::count(rt::K_OPS);
        if (!os.good()) rt::violate("wrong-rejection", "printing a %s failed though the sink took everything", kn);
        if (!FmtState(os).same(st, true)) rt::violate("process-state", "printing a %s changed the formatting of the stream", kn);
        if (o->parent_digest() != before) rt::violate("operand-changed", "printing a %s changed it", kn);
        std::string T = full.got, want = o->text(os);
        if (T != want) rt::violate("wrong-value", "printing a %zu x %zu %s of %s gave \"%s\" instead of \"%s\"", o->rows(), o->cols(), kn, type_name(o->type), T.substr(0, 300).c_str(), want.substr(0, 300).c_str());
        rt::digest(hash_str(T));
        rt::state(hash_str(T));
        // sinks that take only a part
        for (auto &f : p.faults) {
            if (f.step != s.id) continue;
            Sink part;
            part.limit = static_cast<int64_t>((static_cast<unsigned __int128>(static_cast<uint64_t>(f.at)) * (T.size() + 1)) / 1000000);
            part.mode = f.kind.find("once") == 0 ? 1 : f.kind.find("throws") == 0 ? 2 : 0;
            bool exc = f.kind.find("-exc") != std::string::npos, threw = false;
            std::ostream q(&part);
            setup(q);
            if (exc) q.exceptions(std::ios::badbit | std::ios::failbit);
            FmtState qs(q);
            try {
                o->print(q);
            } catch (const std::ios::failure &) {
                threw = true;
                if (!exc) rt::violate("escaped-exception", "printing a %s threw though exceptions are not enabled", kn);
            } catch (const std::runtime_error &) {
                threw = true;
                if (!exc) rt::violate("escaped-exception", "printing a %s threw though exceptions are not enabled", kn);
            }
            rt::in_lib = 0;
            rt::count(rt::K_OPS);
            if (exc && part.refused) rt::count(rt::K_F_SINK_EXC);
            bool short_ = static_cast<size_t>(part.limit) < T.size();
            if (part.got != T.substr(0, part.got.size())) rt::violate("wrong-value", "a sink that took only %d bytes of a %s received \"%s\", which is not a prefix of \"%s\"", static_cast<int>(part.limit), kn, part.got.substr(0, 200).c_str(), T.substr(0, 200).c_str());
            if (short_ && !q.fail()) rt::violate("unreported-failure", "the sink took %d of %zu bytes of a %s but the stream is not marked failed", static_cast<int>(part.got.size()), T.size(), kn);
            if (short_ && exc && !threw) rt::violate("unreported-failure", "the sink took %d of %zu bytes of a %s but the enabled exception was not thrown", static_cast<int>(part.got.size()), T.size(), kn);
            if (!short_ && (q.fail() || threw || part.got != T)) rt::violate("wrong-rejection", "printing a %s failed though everything fits", kn);
            if (!FmtState(q).same(qs, false)) rt::violate("process-state", "a failed print of a %s changed the formatting of the stream", kn);
            if (o->parent_digest() != before) rt::violate("operand-changed", "a failed print of a %s changed it", kn);
            rt::log(mix(part.got.size(), q.fail() + 2 * threw));
        }
        // again, elsewhere
        Sink again;
        std::ostream as(&again);
        setup(as);
        o->print(as);
        if (again.got != T || !as.good()) rt::violate("history-dependent", "printing the same %s again gave \"%s\" instead of \"%s\"", kn, again.got.substr(0, 200).c_str(), T.substr(0, 200).c_str());
        if (kind < O_KINDS) {
            rt::context("rendering a %s of %s, %zu x %zu", kn, type_name(o->type), o->rows(), o->cols());
            for (int k = 0; k < 2; ++k) {
                std::string d = o->dump("name"), m = o->matlab("name");
                if (d != o->dump_model("name")) rt::violate("wrong-value", "dump of a %s of %s gave \"%s\" instead of \"%s\"", kn, type_name(o->type), d.substr(0, 200).c_str(), o->dump_model("name").substr(0, 200).c_str());
                if (m != o->matlab_model("name")) rt::violate("wrong-value", "to_matlab of a %s of %s gave \"%s\" instead of \"%s\"", kn, type_name(o->type), m.substr(0, 200).c_str(), o->matlab_model("name").substr(0, 200).c_str());
                rt::digest(hash_str(m));
            }
            if (o->parent_digest() != before) rt::violate("operand-changed", "rendering a %s changed it", kn);
        }
        rt::note("%zu bytes: \"%s\"", T.size(), T.substr(0, 60).c_str());
    }
    if (rt::heap_leaked(live0)) rt::violate("leak", "printing left memory allocated: %s", rt::heap_live_desc().c_str());
}
static const Scenario s7 = { "C07", gen07, exec07 }, s8 = { "C08", gen08, exec08 }, s9 = { "C09", gen09, exec09 }, s10 = { "C10", gen10, exec10 }, s11 = { "C11", gen11, exec11 };
const Scenario *const scenarios[] = { &s7, &s8, &s9, &s10, &s11, nullptr };
