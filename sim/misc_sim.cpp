// C13: discrete simulations that are checkpointed, crash and resume.
#include "misc.hpp"
#ifdef VERIF_DROPPED // does not compile against the present tree
void gen13(Plan &, Rng &) {}
void exec13(const Plan &) { rt::harness_error("not built"); }
#else

// step: piece  length  checkpoint?  -  -  -  -
// cfg: n q p (dimensions), len (inputs), dur (percent of the inputs' duration), type
void gen13(Plan &p, Rng &r)
{
    p.cfg["type"] = r.chance(1, 4);
    p.cfg["n"] = static_cast<int64_t>(1 + r.below(4));
    p.cfg["q"] = static_cast<int64_t>(1 + r.below(3));
    p.cfg["p"] = static_cast<int64_t>(1 + r.below(3));
    int64_t len = static_cast<int64_t>(r.chance(1, 12) ? r.below(2) : r.chance(1, 6) ? 40 + r.below(200) : 2 + r.below(30));
    p.cfg["len"] = len;
    static const int64_t durs[] = { 100, 100, 100, 150, 50, 0, 33, 1000 };
    p.cfg["dur"] = durs[r.below(8)];
    if (r.chance(1, 16)) p.cfg["odd"] = static_cast<int64_t>(1 + r.below(5)); // a duration out of the ordinary
    p.cfg["style"] = static_cast<int64_t>(r.below(6));
    p.cfg["input"] = static_cast<int64_t>(r.chance(1, 2) ? 0 : 1 + r.below(5));
    if (r.chance(1, 3)) p.cfg["rd"] = static_cast<int64_t>(1 + r.below(40));
    if (r.chance(1, 2)) p.cfg["wr"] = static_cast<int64_t>(1 + r.below(40));
    int n = 1 + static_cast<int>(r.below(8));
    for (int i = 0; i < n; ++i) {
        Step &s = p.add("piece", r.next());
        s.a[0] = static_cast<int64_t>(1 + r.below(r.chance(1, 2) ? 4 : 12));
        s.a[1] = r.chance(5, 6); // checkpoint afterwards
        if (r.chance(1, 6)) p.faults.push_back({ s.id, "alloc", static_cast<int64_t>(1 + r.below(20)), r.chance(1, 3) });
        if (!s.a[1]) continue;
        switch (r.below(8)) {
        case 0: case 1: case 2: p.faults.push_back({ s.id, "crash", static_cast<int64_t>(1 + r.below(p.get("wr") ? 12 : 3)), static_cast<int64_t>(r.below(60)) }); break;
        case 3: p.faults.push_back({ s.id, "wnospc", static_cast<int64_t>(r.below(150)), 0 }); break;
        case 4: p.faults.push_back({ s.id, "weio", static_cast<int64_t>(r.below(p.get("wr") ? 10 : 2)), 0 }); break;
        case 5: p.faults.push_back({ s.id, "close", 0, static_cast<int64_t>(r.below(30)) }); break;
        default: break;
        }
        if (r.chance(1, 3)) {
            static const char *const k[] = { "lost", "cut", "reio" };
            p.faults.push_back({ s.id, k[r.below(3)], static_cast<int64_t>(r.below(1000000)), static_cast<int64_t>(1 + r.below(40)) });
        }
    }
}
template <class T>
struct Sim {
    typedef malg::Vector<T> V;
    typedef malg::control::DiscreteStateSpace<T> DS;
    const Plan &p;
    Rng g;
    DS *sys;
    std::vector<V> *u;
    V *x0;
    size_t n, q, po, len, want;
    T ts, dur;
    std::vector<std::vector<T>> X, Y; // the whole run
    explicit Sim(const Plan &p_) : p(p_), g(p_.seed) {}

    T coef()
    {
        switch (p.get("style")) {
        case 0: return static_cast<T>(g.range(-4, 4)) / static_cast<T>(8);
        case 1: return static_cast<T>(g.unit() * 2 - 1) / static_cast<T>(n);
        case 2: return static_cast<T>(g.range(-100, 100)) / static_cast<T>(300);
        case 3: return g.chance(1, 2) ? static_cast<T>(0) : static_cast<T>(g.unit() - 0.5);
        default: return static_cast<T>(g.unit() * 2 - 1);
        }
    }
    V mk(size_t k)
    {
        V v(k);
        for (size_t i = 0; i < k; ++i) v[i] = coef() * static_cast<T>(1 + g.below(3));
        return v;
    }
    malg::Matrix<T> mkm(size_t r, size_t c, T scale)
    {
        malg::Matrix<T> m(r, c, T(0));
        for (size_t i = 0; i < m.size(); ++i) m[i] = coef() * scale;
        return m;
    }
    static std::vector<T> vec(const V &v) { return std::vector<T>(v.data(), v.data() + v.size()); }
    static uint64_t dig(const V &v)
    {
        uint64_t h = v.size();
        for (size_t i = 0; i < v.size(); ++i) h = mix(h, bits(v.data()[i]));
        return h;
    }
    static uint64_t dig(const malg::Matrix<T> &v)
    {
        uint64_t h = mix(v.rows(), v.cols());
        for (size_t i = 0; i < v.size(); ++i) h = mix(h, bits(v.data()[i]));
        return h;
    }
    uint64_t operands()
    {
        uint64_t h = mix(mix(dig(sys->A), dig(sys->B)), mix(dig(sys->C), dig(sys->D)));
        h = mix(h, bits(sys->sample_time));
        for (auto &v : *u) h = mix(h, dig(v));
        return mix(h, dig(*x0));
    }
    static bool same(const std::vector<T> &a, const std::vector<T> &b)
    {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i)
            if (bits(a[i]) != bits(b[i])) return false;
        return true;
    }
    void setup()
    {
        n = static_cast<size_t>(p.get("n", 2)) % 8;
        q = static_cast<size_t>(p.get("q", 1)) % 8;
        po = static_cast<size_t>(p.get("p", 1)) % 8;
        if (!n) n = 1;
        if (!q) q = 1;
        if (!po) po = 1;
        len = static_cast<size_t>(p.get("len", 5)) % 400;
        static const T tss[] = { static_cast<T>(0.5), static_cast<T>(0.25), static_cast<T>(0.1), static_cast<T>(1e-3), static_cast<T>(1) / 3, 2 };
        ts = tss[g.below(6)];
        size_t whole = len * static_cast<size_t>(p.get("dur", 100)) / 100;
        // away from whole numbers of periods, where rounding decides, unless periods are exact
        bool exact = (ts == static_cast<T>(0.5) || ts == static_cast<T>(0.25) || ts == static_cast<T>(2)) && g.chance(1, 2);
        dur = ts * static_cast<T>(whole) + (exact ? static_cast<T>(0) : ts * static_cast<T>(0.5));
        want = std::min(len, whole);
        switch (p.get("odd")) {
        case 1: dur = std::numeric_limits<T>::infinity(); want = len; break;
        case 2: dur = std::numeric_limits<T>::max() / 4; want = len; break;
        case 3: dur = -dur; want = 0; break;
        case 4: dur = -std::numeric_limits<T>::infinity(); want = 0; break;
        case 5: dur = static_cast<T>(0); want = 0; break;
        default: break;
        }
        rt::LibScope l;
        sys = new DS(mkm(n, n, 1), mkm(n, q, 1), mkm(po, n, 1), mkm(po, q, 1), ts);
        u = new std::vector<V>();
        // Slow models: a state that hardly moves, or one that settles.
        if (p.get("style") >= 4) {
            static const double slow[] = { 1e-12, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-4, 0 };
            T eps = static_cast<T>(slow[g.below(8)]), keep = g.chance(1, 2) ? static_cast<T>(1) : static_cast<T>(1) / 4;
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < n; ++j) sys->A[i * n + j] = (i == j ? keep : static_cast<T>(0)) + eps * sys->A[i * n + j];
            if (g.chance(1, 2))
                for (size_t i = 0; i < sys->B.size(); ++i) sys->B[i] = sys->B[i] * eps;
        }
        for (size_t i = 0; i < len; ++i) {
            V w(mk(q));
            switch (p.get("input")) {
            case 1: if (i) w = u->back(); break;                            // constant
            case 2: w = V(q, static_cast<T>(0)); break;                     // none
            case 3: if (i && !g.chance(1, 6)) w = u->back(); break;         // steps
            case 4: if (i) w = V(q, static_cast<T>(0)); break;              // an impulse
            case 5: if (i) { w = u->back(); w[g.below(q)] += static_cast<T>(1e-9); } break; // a slow ramp
            default: break;
            }
            u->push_back(w);
        }
        x0 = new V(mk(n));
        if (g.chance(1, 12)) *x0 = V(n, static_cast<T>(0));
    }
    void cleanup()
    {
        rt::LibScope l;
        delete sys;
        delete u;
        delete x0;
    }
    // One call of simulate() on inputs [from, from + count) starting in x.
    bool simulate(size_t from, size_t count, T duration, const std::vector<T> &x, std::vector<T> &t, std::vector<std::vector<T>> &xs, std::vector<std::vector<T>> &ys)
    {
        std::tuple<std::vector<T>, std::vector<V>, std::vector<V>> *res = nullptr;
        std::vector<V> *part = nullptr;
        V *init = nullptr;
        int e = in_library([&] {
            part = new std::vector<V>(u->begin() + static_cast<long>(from), u->begin() + static_cast<long>(from + count));
            init = new V(x.size());
            for (size_t i = 0; i < x.size(); ++i) (*init)[i] = x[i];
            res = new std::tuple<std::vector<T>, std::vector<V>, std::vector<V>>(malg::control::simulate<T>(*sys, *part, duration, *init));
        });
        if (e != RETURNED && e != NO_MEMORY) rt::violate("wrong-rejection", "simulate() %s", ended_name(e));
        if (res) {
            t = std::get<0>(*res);
            for (auto &v : std::get<1>(*res)) {
                consistent(v, "a simulated state");
                xs.push_back(vec(v));
            }
            for (auto &v : std::get<2>(*res)) {
                consistent(v, "a simulated output");
                ys.push_back(vec(v));
            }
        }
        if (init && !same(vec(*init), x)) rt::violate("operand-changed", "simulate() changed its initial state");
        {
            rt::LibScope l;
            delete res;
            delete part;
            delete init;
        }
        return e == RETURNED;
    }
    void check_times(const std::vector<T> &t)
    {
        double eps = std::is_same_v<T, float> ? 1e-4 : 1e-9;
        for (size_t k = 0; k < t.size(); ++k)
            if (!(std::fabs(static_cast<double>(t[k]) - static_cast<double>(k) * static_cast<double>(ts)) <= eps * (static_cast<double>(ts) + static_cast<double>(k) * static_cast<double>(ts))))
                rt::violate("wrong-value", "time stamp %zu is %.17g with a sample time of %.17g", k, static_cast<double>(t[k]), static_cast<double>(ts));
    }
    void model()
    {
        // the same trajectory from the equations, element by element
        double eps = std::is_same_v<T, float> ? 1e-4 : 1e-11;
        auto mul = [](const malg::Matrix<T> &A, const std::vector<T> &x, const malg::Matrix<T> &B, const V &w, size_t r, double &scale) {
            double s = 0;
            scale = 1e-300;
            for (size_t c = 0; c < x.size(); ++c) {
                double v = static_cast<double>(A.data()[r * x.size() + c]) * static_cast<double>(x[c]);
                s += v;
                scale += std::fabs(v);
            }
            for (size_t c = 0; c < w.size(); ++c) {
                double v = static_cast<double>(B.data()[r * w.size() + c]) * static_cast<double>(w.data()[c]);
                s += v;
                scale += std::fabs(v);
            }
            return s;
        };
        for (size_t k = 0; k < want; ++k) {
            double sc;
            for (size_t r = 0; r < n; ++r) {
                double v = mul(sys->A, X[k], sys->B, (*u)[k], r, sc);
                if (!(std::fabs(v - static_cast<double>(X[k + 1][r])) <= eps * sc + 1e-30)) rt::violate("wrong-value", "state %zu, component %zu is %.17g instead of %.17g", k + 1, r, static_cast<double>(X[k + 1][r]), v);
            }
            for (size_t r = 0; r < po; ++r) {
                double v = mul(sys->C, X[k], sys->D, (*u)[k], r, sc);
                if (!(std::fabs(v - static_cast<double>(Y[k][r])) <= eps * sc + 1e-30)) rt::violate("wrong-value", "output %zu, component %zu is %.17g instead of %.17g", k, r, static_cast<double>(Y[k][r]), v);
            }
        }
    }
    // ------------------------------------------------------------ checkpoints
    enum { MAGIC = 716253 };
    static std::string slot_path(int s) { return s ? "/simdisk/b" : "/simdisk/a"; }
    // index, state, outputs so far, end mark
    bool save(int slot, size_t k, const std::vector<T> &x, const std::vector<std::vector<T>> &ys)
    {
        malg::Vector<int> *head, *mark;
        V *st;
        malg::Matrix<T> *out;
        {
            rt::LibScope l;
            head = new malg::Vector<int>({ static_cast<int>(k), static_cast<int>(x.size()) });
            mark = new malg::Vector<int>({ static_cast<int>(MAGIC), static_cast<int>(k) });
            st = new V(x.size());
            for (size_t i = 0; i < x.size(); ++i) (*st)[i] = x[i];
            out = new malg::Matrix<T>(ys.size(), po, T(0));
            for (size_t i = 0; i < ys.size(); ++i)
                for (size_t j = 0; j < po; ++j) (*out)(i, j) = ys[i][j];
        }
        bool ok;
        {
            std::ofstream f;
            f.open(slot_path(slot));
            f.precision(17);
            int e = in_library([&] { f << *head << *st << *out << *mark; });
            f.close();
            ok = e == RETURNED && f.good();
        }
        rt::LibScope l;
        delete head;
        delete mark;
        delete st;
        delete out;
        return ok;
    }
    bool load(int slot, size_t &k, std::vector<T> &x, std::vector<std::vector<T>> &ys)
    {
        malg::Vector<int> *head, *mark;
        V *st;
        malg::Matrix<T> *out;
        {
            rt::LibScope l;
            head = new malg::Vector<int>();
            mark = new malg::Vector<int>(3, 9);
            st = new V(2, T(1));
            out = new malg::Matrix<T>(1, 2, T(7));
        }
        bool ok;
        {
            std::ifstream f(slot_path(slot));
            int e = in_library([&] { f >> *head >> *st >> *out >> *mark; });
            ok = e == RETURNED && f.good();
            if (ok) ok = head->size() == 2 && mark->size() == 2 && mark->data()[0] == MAGIC && mark->data()[1] == head->data()[0];
        }
        if (ok) {
            k = static_cast<size_t>(head->data()[0]);
            x = vec(*st);
            ys.clear();
            for (size_t i = 0; i < out->rows(); ++i) ys.push_back(std::vector<T>(out->data() + i * out->cols(), out->data() + (i + 1) * out->cols()));
            rt::count(rt::K_P0);
        } else
            rt::count(rt::K_P1);
        rt::LibScope l;
        delete head;
        delete mark;
        delete st;
        delete out;
        return ok;
    }
    void run()
    {
        rt::disk_reset();
        rt::disk_chunk(static_cast<size_t>(p.get("rd")), static_cast<size_t>(p.get("wr")));
        size_t live0 = rt::heap_live_blocks();
        setup();
        size_t live1 = rt::heap_live_blocks();
        uint64_t ops = operands();
        std::vector<T> t;
        rt::context("simulate() over %zu inputs", len);
        if (!simulate(0, len, dur, vec(*x0), t, X, Y)) rt::violate("wrong-rejection", "simulate() ran out of memory");
        if (X.size() != want + 1 || Y.size() != want || t.size() != want + 1)
            rt::violate("wrong-value", "%zu inputs and a duration of %.17g (sample time %.17g) gave %zu states, %zu outputs and %zu time stamps instead of %zu, %zu and %zu", len, static_cast<double>(dur), static_cast<double>(ts), X.size(), Y.size(), t.size(), want + 1, want, want + 1);
        check_times(t);
        if (!same(X[0], vec(*x0))) rt::violate("wrong-value", "the first state is not the initial state");
        model();
        for (auto &x : X)
            for (auto &e : x) rt::digest(bits(e));
        for (auto &x : Y)
            for (auto &e : x) rt::digest(bits(e));
        // step by step
        {
            rt::context("simulate_step() over %zu inputs", want);
            rt::heap_poison(p.seed + 5);
            V *x;
            { rt::LibScope l; x = new V(*x0); }
            for (size_t k = 0; k < want; ++k) {
                std::vector<T> nx, ny;
                rt::LibScope l;
                auto r = malg::control::simulate_step(*sys, *x, (*u)[k]);
                *x = r.first;
                rt::OutScope o;
                if (!same(vec(r.first), X[k + 1]) || !same(vec(r.second), Y[k])) rt::violate("wrong-value", "step %zu of simulate_step() differs from simulate()", k);
            }
            rt::LibScope l;
            delete x;
        }
        // in pieces, with checkpoints, failures and crashes
        size_t k = 0;
        std::vector<T> x = vec(*x0);
        std::vector<std::vector<T>> ys;
        int slot = 0, good_slot = -1;
        size_t good_k = 0;
        size_t lives = 1;
        auto restart = [&](const char *why) {
            ++lives;
            rt::heap_poison(p.seed + lives);
            k = 0;
            x = vec(*x0);
            ys.clear();
            int best = -1;
            for (int s = 0; s < 2; ++s) {
                size_t sk;
                std::vector<T> sx;
                std::vector<std::vector<T>> sy;
                rt::context("loading a checkpoint after %s", why);
                if (!load(s, sk, sx, sy)) continue;
                if (sk > want || sk >= X.size() || !same(sx, X[sk]) || sy.size() != sk) rt::violate("wrong-value", "a checkpoint loads but does not hold the state at step %zu", sk);
                for (size_t i = 0; i < sk; ++i)
                    if (!same(sy[i], Y[i])) rt::violate("wrong-value", "a checkpoint loads but output %zu in it differs from what was computed", i);
                if (best < 0 || sk > k) {
                    best = s;
                    k = sk;
                    x = sx;
                    ys = sy;
                }
            }
            slot = best < 0 ? 0 : 1 - best;
            return best;
        };
        size_t pieces = 0;
        for (int round = 0; round < 2; ++round)
            for (auto &s : p.steps) {
                if (s.op != "piece" || k >= want) continue;
                size_t cnt = std::min(want - k, 1 + static_cast<size_t>(s.a[0]) % 64);
                std::vector<T> pt;
                std::vector<std::vector<T>> px, py;
                const Fault *a = round ? nullptr : fault_of(p, s.id, "alloc");
                rt::context("simulate() from step %zu over %zu inputs", k, cnt);
                if (a) rt::heap_fail_at(a->at, a->arg != 0);
                bool ok = simulate(k, cnt, ts * static_cast<T>(cnt) + ts * static_cast<T>(0.5), x, pt, px, py);
                rt::heap_fail_off();
                ++pieces;
                if (!ok) { // the program ends here; another one takes over
                    int b = restart("a failed allocation");
                    if (good_slot >= 0 && k < good_k) rt::violate("wrong-rejection", "the completed checkpoint of step %zu was not found again", good_k);
                    good_slot = b;
                    good_k = k;
                    continue;
                }
                if (px.size() != cnt + 1 || py.size() != cnt) rt::violate("wrong-value", "a piece of %zu steps gave %zu states and %zu outputs", cnt, px.size(), py.size());
                check_times(pt);
                for (size_t i = 0; i <= cnt; ++i)
                    if (!same(px[i], X[k + i])) rt::violate("wrong-value", "resumed at step %zu, state %zu differs from the uninterrupted run", k, k + i);
                for (size_t i = 0; i < cnt; ++i)
                    if (!same(py[i], Y[k + i])) rt::violate("wrong-value", "resumed at step %zu, output %zu differs from the uninterrupted run", k, k + i);
                k += cnt;
                x = px.back();
                for (auto &y : py) ys.push_back(y);
                rt::state(mix(mix(k, p.get("n")), bits(x[0])));
                if (!s.a[1]) continue;
                std::vector<rt::DiskFault> df;
                if (!round)
                    for (auto &f : p.faults)
                        if (f.step == s.id && (f.kind == "wnospc" || f.kind == "weio" || f.kind == "close")) df.push_back({ f.kind, f.at, f.arg });
                rt::disk_faults(df);
                const Fault *c = round ? nullptr : fault_of(p, s.id, "crash");
                rt::disk_crash_at(c ? c->at : 0, c ? c->arg : 0);
                rt::context("saving a checkpoint at step %zu", k);
                bool saved = save(slot, k, x, ys);
                bool crashed = rt::disk_crashed();
                const Fault *cut = round ? nullptr : fault_of(p, s.id, "cut"), *lost = round ? nullptr : fault_of(p, s.id, "lost"), *reio = round ? nullptr : fault_of(p, s.id, "reio");
                if (!crashed && saved) {
                    good_slot = slot;
                    good_k = k;
                    slot = 1 - slot;
                    if (!reio && !(cut && lost)) continue;
                    // a crash later on: everything saved is there
                    rt::disk_faults(reio ? std::vector<rt::DiskFault>{ { "reio", static_cast<int64_t>(static_cast<uint64_t>(reio->at) % 6), 0 } } : std::vector<rt::DiskFault>());
                    int b = restart("a crash");
                    if (!rt::disk_read_failed() && k < good_k) rt::violate("wrong-rejection", "the last completed checkpoint (step %zu) was not found again", good_k);
                    rt::disk_faults({});
                    good_slot = b;
                    good_k = k;
                    continue;
                }
                if (!crashed && !saved) continue; // the caller knows; it goes on with what it has
                // power loss while writing: what was not durable may also be cut or partly zero
                rt::disk_reboot();
                std::string path = slot_path(slot), d = rt::disk_get(path);
                if (!d.empty() && cut) {
                    d.resize(static_cast<size_t>(static_cast<unsigned __int128>(static_cast<uint64_t>(cut->at)) * d.size() / 1000000));
                    rt::disk_put(path, d);
                    rt::count(rt::K_F_TORN);
                }
                if (!d.empty() && lost) {
                    size_t at = static_cast<size_t>(static_cast<unsigned __int128>(static_cast<uint64_t>(lost->at)) * d.size() / 1000000);
                    for (size_t i = at; i < d.size() && i < at + static_cast<size_t>(lost->arg); ++i) d[i] = '\0';
                    rt::disk_put(path, d);
                    rt::count(rt::K_F_LOST_PAGE);
                }
                rt::disk_faults(reio ? std::vector<rt::DiskFault>{ { "reio", static_cast<int64_t>(static_cast<uint64_t>(reio->at) % 6), 0 } } : std::vector<rt::DiskFault>());
                size_t k_before = k;
                int b = restart("a crash");
                if (!rt::disk_read_failed() && good_slot >= 0 && k < good_k) rt::violate("wrong-rejection", "after a crash at step %zu the completed checkpoint of step %zu was not found again", k_before, good_k);
                rt::disk_faults({});
                good_slot = b;
                good_k = k;
            }
        if (operands() != ops) rt::violate("operand-changed", "simulating changed the model, the inputs or the initial state");
        if (rt::heap_leaked(live1)) rt::violate("leak", "simulating left memory allocated: %s", rt::heap_live_desc().c_str());
        rt::note("%zu states of %zu components, %zu of %zu steps wanted, %zu pieces, %zu lives", X.size(), n, k, want, pieces, lives);
        cleanup();
        if (rt::heap_leaked(live0)) rt::violate("leak", "a model left memory allocated: %s", rt::heap_live_desc().c_str());
    }
};
void exec13(const Plan &p)
{
    if (p.get("type")) Sim<float>(p).run();
    else Sim<double>(p).run();
}
#endif
