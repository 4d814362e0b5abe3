// C15: threads that write through disjoint windows of one matrix.
#include "misc.hpp"
#ifdef VERIF_DROPPED // does not compile against the present tree
void gen15(Plan &, Rng &) {}
void exec15(const Plan &) { rt::harness_error("not built"); }
#else

// step: op  thread  -  -  -  -  -
static const char *const share_ops[] = { "write", "at", "linear", "view", "subview", "assign", "assign_view", "iadd", "isub", "imul", "idiv", "swap_rows", "swap_cols", "read", "list", "parent", "imatmul", "aggregate", "parent_swap" };
enum { N_OPS = sizeof share_ops / sizeof *share_ops };
void gen15(Plan &p, Rng &r)
{
    int threads = 2 + static_cast<int>(r.below(3));
    p.cfg["threads"] = threads;
    p.cfg["type"] = static_cast<int64_t>(r.below(5));
    p.cfg["rows"] = static_cast<int64_t>(1 + r.below(r.chance(1, 10) ? 40 : 7));
    p.cfg["cols"] = static_cast<int64_t>(1 + r.below(r.chance(1, 10) ? 40 : 7));
    p.cfg["layout"] = static_cast<int64_t>(r.below(9));
    if (r.chance(1, 4)) p.cfg["nest"] = 1; // the windows are views of views
    p.cfg["reuse"] = r.chance(1, 2); // one view object per thread, or a new one per operation
    std::vector<int> pool;
    if (r.chance(1, 2))
        for (int i = 0; i < 3; ++i) pool.push_back(static_cast<int>(r.below(N_OPS)));
    int n = threads + static_cast<int>(r.below(p.get("tier") ? 30 : 14));
    for (int i = 0; i < n; ++i) {
        int k = !pool.empty() && r.chance(2, 3) ? pool[r.below(pool.size())] : static_cast<int>(r.below(N_OPS));
        Step &s = p.add(share_ops[k], r.next());
        s.a[0] = i < threads ? i : static_cast<int64_t>(r.below(static_cast<uint64_t>(threads)));
        if (r.chance(1, 12)) p.faults.push_back({ s.id, "alloc", static_cast<int64_t>(1 + r.below(3)), r.chance(1, 3) });
    }
    gen_switches(p, r, threads);
}
struct Win { // empty windows are not used
    size_t r0, r1, c0, c1;
    bool cof;    // all but a row and a column
    size_t p, q;
    size_t sr = 1, sc = 1; // every sr-th row, every sc-th column
    bool strided() const { return sr > 1 || sc > 1; }
    size_t rows(size_t R) const { return cof ? R - 1 : (r1 - r0 + sr - 1) / sr; }
    size_t cols(size_t C) const { return cof ? C - 1 : (c1 - c0 + sc - 1) / sc; }
    size_t row(size_t a) const { return r0 + a * sr; }
    size_t col(size_t b) const { return c0 + b * sc; }
    size_t pos(size_t a, size_t b, size_t C) const { return cof ? (a + (a >= p)) * C + b + (b >= q) : row(a) * C + col(b); }
};
template <class T>
struct Share {
    typedef malg::Matrix<T> M;
    typedef malg::Vector<T> V;
    typedef malg::View<M> W;
    typedef malg::View<W> WW;
    typedef malg::CofactorView<M> CV;
    typedef malg::CofactorView<W> CW;
    const Plan &p;
    size_t R, C, n;
    M *m = nullptr;
    std::vector<std::vector<const Step *>> prog;
    std::vector<Win> win;
    std::vector<bool> has;
    explicit Share(const Plan &p_) : p(p_) {}
    static T num(Rng &g)
    {
        if constexpr (malg::is_complex_v<T>) return T(static_cast<double>(g.range(-5, 5)), static_cast<double>(g.range(-5, 5)));
        else return static_cast<T>(g.range(-5, 5));
    }
    static bool small(const std::vector<T> &x)
    {
        double lim = std::is_same_v<T, signed char> ? 10 : std::is_same_v<T, short> ? 1000 : 1e5;
        for (auto &e : x)
            if (std::abs(e) > lim) return false;
        return true;
    }
    // Runs the program of one thread on the matrix; model is its window's contents.
    void body(size_t t, std::vector<T> &model, uint64_t &h)
    {
        const Win w = win[t];
        size_t r = w.rows(R), c = w.cols(C);
        const bool nest = p.get("nest") != 0;
        W *keep = nullptr, *outer = nullptr;
        WW *keep2 = nullptr;
        CV *keepc = nullptr;
        CW *keepc2 = nullptr;
        const malg::Range all{ 0, ~size_t(0) };
        malg::Range rr{ w.r0, w.r1 }, cr{ w.c0, w.c1 };
        if (p.get("reuse") && !w.strided()) {
            rt::LibScope l;
            if (nest) outer = new W(m, w.cof ? all : malg::Range{ w.r0, R }, w.cof ? all : malg::Range{ 0, w.c1 });
            if (w.cof && nest) keepc2 = new CW(outer, w.p, w.q);
            else if (w.cof) keepc = new CV(m, w.p, w.q);
            else if (nest) keep2 = new WW(outer, malg::Range{ 0, w.r1 - w.r0 }, malg::Range{ w.c0, w.c1 });
            else keep = new W(m, rr, cr);
        }
        for (const Step *s : prog[t]) {
            Rng g(s->seed);
            size_t i = g.below(r), j = g.below(c), i2 = g.below(r), j2 = g.below(c);
            T x = num(g);
            std::string op = s->op;
            std::vector<T> other(r * c), next = model;
            for (auto &e : other) e = num(g);
            std::vector<T> sq(c * c);
            for (auto &e : sq) e = static_cast<T>(g.range(-1, 1));
            const Fault *f = fault_of(p, s->id, "alloc");
            rt::heap_fail_off();
            rt::context("%s by thread %zu on its %zu x %zu window of a %zu x %zu matrix", op.c_str(), t, r, c, R, C);
            auto view = [&](auto &&fn) {
                if (keep) fn(*keep);
                else if (keep2) fn(*keep2);
                else if (keepc) fn(*keepc);
                else if (keepc2) fn(*keepc2);
                else if (w.cof && nest) {
                    W o(m, all, all);
                    CW v(&o, w.p, w.q);
                    fn(v);
                } else if (w.cof) {
                    CV v(m, w.p, w.q);
                    fn(v);
                } else if (nest) {
                    W o(m, malg::Range{ w.r0, R }, malg::Range{ 0, w.c1 });
                    WW v(&o, malg::Range{ 0, w.r1 - w.r0 }, malg::Range{ w.c0, w.c1 });
                    fn(v);
                } else {
                    W v(m, rr, cr);
                    fn(v);
                }
            };
            T sum{}, got{};
            bool read_only = false;
            if (op == "parent_swap" && w.cof) op = "swap_rows";
            if (w.strided() && op != "parent" && op != "read" && op != "parent_swap") // every n-th line only: one of them, or two
                op = op == "swap_rows" || op == "swap_cols" ? "parent_swap" : op == "assign" || op == "assign_view" ? "line_assign" : op == "iadd" || op == "aggregate" ? "line_iadd" : op == "imul" || op == "imatmul" ? "line_imul" : "line_write";
            const bool by_row = w.sr > 1;
            auto line = [&](auto &&fn) {
                W v(m, by_row ? malg::Range{ w.row(i), w.row(i) + 1 } : malg::Range{ w.r0, w.r1 }, by_row ? malg::Range{ w.c0, w.c1 } : malg::Range{ w.col(j), w.col(j) + 1 });
                fn(v);
            };
            const size_t ln = by_row ? c : r;
            auto on_line = [&](size_t k) { return by_row ? i * c + k : k * c + j; };
            if (f) rt::heap_fail_at(f->at, f->arg != 0);
            int e = RETURNED;
            if (op == "write" || op == "view") {
                e = in_library([&] { view([&](auto &v) { v(i, j) = x; }); });
                next[i * c + j] = x;
            } else if (op == "at") {
                e = in_library([&] { view([&](auto &v) { v.at(i, j) = x; }); });
                next[i * c + j] = x;
            } else if (op == "linear") {
                e = in_library([&] { view([&](auto &v) { v[i * c + j] = x; }); });
                next[i * c + j] = x;
            } else if (op == "parent") {
                int k = static_cast<int>(g.below(3));
                e = in_library([&] {
                    if (k == 0) (*m)(w.pos(i, j, C) / C, w.pos(i, j, C) % C) = x;
                    else if (k == 1) m->at(w.pos(i, j, C) / C, w.pos(i, j, C) % C) = x;
                    else (*m)[w.pos(i, j, C)] = x;
                });
                next[i * c + j] = x;
            } else if (op == "parent_swap") { // of the matrix itself
                bool rows = w.sr > 1 ? true : w.sc > 1 ? false : g.chance(1, 2);
                if (rows) {
                    e = in_library([&] { malg::utility::swap_rows(*m, w.row(i), w.row(i2), w.c0, w.c1); });
                    for (size_t k = 0; k < c; ++k) std::swap(next[i * c + k], next[i2 * c + k]);
                } else {
                    e = in_library([&] { malg::utility::swap_cols(*m, w.col(j), w.col(j2), w.r0, w.r1); });
                    for (size_t k = 0; k < r; ++k) std::swap(next[k * c + j], next[k * c + j2]);
                }
            } else if (op == "line_write") {
                const size_t k = by_row ? j : i;
                e = in_library([&] { line([&](W &v) { v[k] = x; }); });
                next[i * c + j] = x;
            } else if (op == "line_assign" || op == "line_iadd") {
                if (op == "line_iadd" && !small(model)) continue;
                other.resize(ln);
                e = in_library([&] { M q(by_row ? 1 : ln, by_row ? ln : 1, other); line([&](W &v) { if (op == "line_iadd") v += q; else v = q; }); });
                for (size_t k = 0; k < ln; ++k) next[on_line(k)] = op == "line_iadd" ? static_cast<T>(next[on_line(k)] + other[k]) : other[k];
            } else if (op == "line_imul") {
                if (!small(model)) continue;
                T y = static_cast<T>(g.range(-2, 2));
                e = in_library([&] { line([&](W &v) { v *= y; }); });
                for (size_t k = 0; k < ln; ++k) next[on_line(k)] = static_cast<T>(next[on_line(k)] * y);
            } else if (op == "subview") {
                e = in_library([&] { view([&](auto &v) { malg::View<std::decay_t<decltype(v)>> q(&v, malg::Range{ i, i + 1 }, malg::Range{ j, j + 1 }); q(0, 0) = x; }); });
                next[i * c + j] = x;
            } else if (op == "assign") {
                e = in_library([&] { M q(r, c, other); view([&](auto &v) { v = q; }); });
                next = other;
            } else if (op == "assign_view") {
                e = in_library([&] {
                    M q(r, c, other);
                    W src(&q, malg::Range{ 0, r }, malg::Range{ 0, c });
                    view([&](auto &v) { v = src; });
                });
                next = other;
            } else if (op == "iadd" || op == "isub") {
                if (!small(model)) continue;
                e = in_library([&] { M q(r, c, other); view([&](auto &v) { if (op == "iadd") v += q; else v -= q; }); });
                for (size_t k = 0; k < next.size(); ++k) next[k] = op == "iadd" ? static_cast<T>(next[k] + other[k]) : static_cast<T>(next[k] - other[k]);
            } else if (op == "imul") {
                if (!small(model)) continue;
                T y = static_cast<T>(g.range(-2, 2));
                e = in_library([&] { view([&](auto &v) { v *= y; }); });
                for (auto &q : next) q = static_cast<T>(q * y);
            } else if (op == "idiv") {
                T y = static_cast<T>(g.chance(1, 2) ? 2 : -1);
                e = in_library([&] { view([&](auto &v) { v /= y; }); });
                for (auto &q : next) q = static_cast<T>(q / y);
            } else if (op == "imatmul") {
                // the window times a square matrix
                if (!small(model)) continue;
                std::vector<T> pr(r * c, T(0));
                for (size_t a = 0; a < r; ++a)
                    for (size_t b = 0; b < c; ++b)
                        for (size_t k = 0; k < c; ++k) pr[a * c + b] = static_cast<T>(pr[a * c + b] + model[a * c + k] * sq[k * c + b]);
                if (r != c) continue;
                e = in_library([&] { M q(c, c, sq); view([&](auto &v) { v *= q; }); });
                next = pr;
            } else if (op == "swap_rows") {
                e = in_library([&] { view([&](auto &v) { malg::utility::swap_rows(v, i, i2); }); });
                for (size_t k = 0; k < c; ++k) std::swap(next[i * c + k], next[i2 * c + k]);
            } else if (op == "swap_cols") {
                e = in_library([&] { view([&](auto &v) { malg::utility::swap_cols(v, j, j2); }); });
                for (size_t k = 0; k < r; ++k) std::swap(next[k * c + j], next[k * c + j2]);
            } else if (op == "list") {
                if (r != 1 || c != 2 || w.cof) continue;
                T y = num(g);
                e = in_library([&] { view([&](auto &v) { if constexpr (!std::is_same_v<std::decay_t<decltype(v)>, CV> && !std::is_same_v<std::decay_t<decltype(v)>, CW>) v = { { x, y } }; }); });
                next[0] = x;
                next[1] = y;
            } else if (op == "aggregate") {
                read_only = true;
                if (!small(model)) continue;
                e = in_library([&] { view([&](auto &v) { M q = v + v; for (size_t k = 0; k < q.size(); ++k) sum = static_cast<T>(sum + q[k]); }); });
                T ws{};
                for (auto &q : model) ws = static_cast<T>(ws + static_cast<T>(q + q));
                if (e == RETURNED && !(sum == ws)) rt::violate("interference", "an operation on a thread's own window gave another result while other threads wrote elsewhere");
            } else { // read
                read_only = true;
                e = in_library([&] {
                    if (w.strided()) got = std::as_const(*m)(w.row(i), w.col(j));
                    else view([&](auto &v) { got = std::as_const(v)(i, j); });
                });
                if (e == RETURNED && !(got == model[i * c + j])) rt::violate("interference", "a thread read another value from its own window than it had written");
            }
            rt::heap_fail_off();
            if (e == RETURNED) model = next;
            else if (e != NO_MEMORY) rt::violate("wrong-rejection", "%s on a window %s", op.c_str(), ended_name(e));
            else if (!f) rt::violate("wrong-rejection", "%s on a window ran out of memory", op.c_str());
            // its own elements, now
            bool resync = e == NO_MEMORY && !read_only;
            for (size_t a = 0; a < r; ++a)
                for (size_t b = 0; b < c; ++b) {
                    T v = m->data()[w.pos(a, b, C)];
                    if (resync) {
                        if (!(v == model[a * c + b]) && !(v == next[a * c + b])) rt::violate("wrong-value", "a failed %s left something that is neither old nor new in an element", op.c_str());
                        model[a * c + b] = v;
                    } else if (!(v == model[a * c + b]))
                        rt::violate("interference", "after %s an element of the thread's own window is not what it wrote", op.c_str());
                }
            h = mix(h, static_cast<uint64_t>(e));
            for (auto &v : model) h = mix(h, bits(v));
        }
        rt::LibScope l;
        delete keep;
        delete keep2;
        delete keepc;
        delete keepc2;
        delete outer;
    }
    void run()
    {
        size_t live0 = rt::heap_live_blocks();
        n = static_cast<size_t>(std::min<int64_t>(6, std::max<int64_t>(1, p.get("threads", 2))));
        R = std::max<size_t>(1, static_cast<size_t>(p.get("rows", 3)) % 64);
        C = std::max<size_t>(1, static_cast<size_t>(p.get("cols", 3)) % 64);
        Rng g(p.seed);
        // disjoint windows
        win.resize(n);
        size_t cp = g.below(64), cq = g.below(64);
        has.assign(n, true);
        for (size_t t = 0; t < n; ++t) {
            Win &w = win[t];
            w = { 0, R, 0, C, false, 0, 0 };
            switch (p.get("layout")) {
            case 0: w.r0 = t * R / n; w.r1 = (t + 1) * R / n; break;                  // blocks of rows
            case 1: w.c0 = t * C / n; w.c1 = (t + 1) * C / n; break;                  // blocks of columns
            case 2: w.r0 = t; w.r1 = t + 1; break;                                    // single rows
            case 3: w.c0 = t; w.c1 = t + 1; break;                                    // single columns
            case 4: { size_t k = t; w.r0 = k / C; w.r1 = w.r0 + 1; w.c0 = k % C; w.c1 = w.c0 + 1; break; } // single elements
            case 7: w.c0 = t; w.sc = n; break;                                        // every n-th column
            case 8: w.r0 = t; w.sr = n; break;                                        // every n-th row
            case 6: { // all but a row and a column, and that row and that column
                if (R < 2 || C < 2) { w.r1 = 0; break; }
                w.p = cp % R;
                w.q = cq % C;
                if (t == 0) w.cof = true;
                else if (t == 1) w.r0 = w.p, w.r1 = w.p + 1;
                else if (t == 2) w.r1 = w.p, w.c0 = w.q, w.c1 = w.q + 1;
                else w.r0 = t == 3 ? w.p + 1 : R, w.c0 = w.q, w.c1 = w.q + 1;
                break;
            }
            default: { // quadrants
                size_t a = (R + 1) / 2, b = (C + 1) / 2;
                if (t > 3) { w.r1 = 0; break; }
                w.r0 = t & 1 ? a : 0; w.r1 = t & 1 ? R : a;
                w.c0 = t & 2 ? b : 0; w.c1 = t & 2 ? C : b;
            }
            }
            if (w.r0 >= w.r1 || w.c0 >= w.c1 || w.r1 > R || w.c1 > C) has[t] = false;
        }
        prog.resize(n);
        for (auto &s : p.steps)
            if (static_cast<size_t>(s.a[0]) < n && has[static_cast<size_t>(s.a[0])]) prog[static_cast<size_t>(s.a[0])].push_back(&s);
        std::vector<T> init(R * C);
        for (auto &e : init) e = num(g);
        m = static_cast<M *>(rt::arena_alloc(sizeof(M)));
        {
            rt::LibScope l;
            new (m) M(R, C, init);
        }
        std::vector<std::vector<T>> model(n);
        for (size_t t = 0; t < n; ++t)
            if (has[t])
                for (size_t a = 0; a < win[t].rows(R); ++a)
                    for (size_t b = 0; b < win[t].cols(C); ++b) model[t].push_back(init[win[t].pos(a, b, C)]);
        // one after the other: what each thread computes alone
        struct Alone { uint64_t h, ev; };
        std::vector<Alone> alone(n);
        uint64_t total = 0;
        for (size_t t = 0; t < n; ++t) {
            if (!has[t]) continue;
            rt::fork_eval([&](void *b) {
                Alone *a = static_cast<Alone *>(b);
                std::vector<T> mine = model[t];
                uint64_t e0 = rt::events();
                a->h = 0;
                body(t, mine, a->h);
                a->ev = rt::events() - e0;
            }, &alone[t], sizeof(Alone));
            total += alone[t].ev;
        }
        std::vector<uint64_t> h(n, 0);
        std::vector<std::function<void()>> bodies;
        for (size_t t = 0; t < n; ++t)
            bodies.push_back([&, t] {
                if (has[t]) body(t, model[t], h[t]);
            });
        rt::run_threads(bodies, scale(p, total), true);
        std::vector<T> fin = init;
        for (size_t t = 0; t < n; ++t) {
            if (!has[t]) continue;
            if (h[t] != alone[t].h) rt::violate("interference", "thread %zu got other results than it gets alone", t);
            size_t k = 0;
            for (size_t a = 0; a < win[t].rows(R); ++a)
                for (size_t b = 0; b < win[t].cols(C); ++b) fin[win[t].pos(a, b, C)] = model[t][k++];
            rt::digest(h[t]);
        }
        consistent(*m, "the shared matrix");
        if (m->rows() != R || m->cols() != C) rt::violate("wrong-value", "the shared matrix changed its shape");
        for (size_t i = 0; i < R * C; ++i)
            if (!(m->data()[i] == fin[i])) rt::violate("interference", "element (%zu, %zu) of the shared matrix is not what the writes of its owner give", i / C, i % C);
        uint64_t hh = 0;
        for (auto &e : fin) hh = mix(hh, bits(e));
        rt::state(hh);
        rt::note("%zu threads, %zu x %zu, layout %d, %zu operations", n, R, C, static_cast<int>(p.get("layout")), p.steps.size());
        {
            rt::LibScope l;
            m->~M();
        }
        if (rt::heap_leaked(live0)) rt::violate("leak", "memory is left allocated: %s", rt::heap_live_desc().c_str());
    }
};
void exec15(const Plan &p)
{
    switch (p.get("type")) {
    case 1: Share<int>(p).run(); break;
    case 2: Share<cd>(p).run(); break;
    case 3: Share<signed char>(p).run(); break;
    case 4: Share<short>(p).run(); break;
    default: Share<double>(p).run();
    }
}
#endif
