// Histories of operations on a pool of matrices, vectors and views, compared
// after every step with a plain model (C05, C06, and parts of C03 and C04).
#pragma once
#include "lib.hpp"
#include <algorithm>
#include <functional>
#include <memory>
#include <sstream>
#include <variant>

// ---------------------------------------------------------------- model
template <class T>
struct MM {
    size_t r = 0, c = 0;
    std::vector<T> e;
    MM() {}
    MM(size_t r_, size_t c_, T v = T(0)) : r(r_), c(c_), e(r_ * c_, v) {}
    T &at(size_t i, size_t j) { return e[i * c + j]; }
    const T &at(size_t i, size_t j) const { return e[i * c + j]; }
};
// The elements of a parent matrix that a view shows.
struct Window {
    size_t r = 0, c = 0;
    std::vector<std::pair<size_t, size_t>> pos; // row major
    bool defined = true;                        // false: the excluded row or column does not exist at the moment
    std::pair<size_t, size_t> at(size_t i, size_t j) const { return pos[i * c + j]; }
};

template <class T>
struct World {
    typedef std::conditional_t<std::is_same_v<T, int>, double, int> T2; // the other element type
    typedef malg::Matrix<T> M;
    typedef malg::Vector<T> V;
    typedef malg::View<M> W0;
    typedef malg::View<const M> W1;
    typedef malg::CofactorView<M> W2;
    typedef malg::View<W0> W3;
    typedef malg::CofactorView<W0> W4;
    typedef malg::View<W2> W5;
    typedef malg::View<W1> W6;
    typedef malg::CofactorView<const M> W7;
    typedef std::variant<W0 *, W1 *, W2 *, W3 *, W4 *, W5 *, W6 *, W7 *> AnyView;

    enum { NM = 4, NV = 4, NW = 4 };
    M *m[NM];
    V *v[NV];
    malg::Matrix<T2> *om;
    malg::Vector<T2> *ov;
    MM<T> mm[NM];
    std::vector<T> vm[NV];
    MM<T2> omm;
    std::vector<T2> ovm;
    struct ViewSlot {
        int kind = -1, parent = 0;
        size_t p[6] = { 0, 0, 0, 0, 0, 0 };
        AnyView w;
        void *inner = nullptr;
        bool dynamic = true;
    } vs[NW];
    void *vmem[NW][2];
    void (*vkill[NW][2])(void *) = {};
    const Plan &plan;
    Rng g{ 0 };
    const Fault *fault = nullptr;
    bool fired = false;
    const char *opname = "";
    int stepid = 0;
    bool skipped = false, big = false, special = false;
    size_t performed = 0;

    static constexpr bool is_int = std::is_same_v<T, int>;
    static constexpr bool is_cd = std::is_same_v<T, cd>;

    explicit World(const Plan &p) : plan(p)
    {
        big = p.get("big") != 0;
        special = p.get("special") != 0;
        for (auto &x : m) x = new (rt::arena_alloc(sizeof(M))) M();
        for (auto &x : v) x = new (rt::arena_alloc(sizeof(V))) V();
        om = new (rt::arena_alloc(sizeof(malg::Matrix<T2>))) malg::Matrix<T2>();
        ov = new (rt::arena_alloc(sizeof(malg::Vector<T2>))) malg::Vector<T2>();
        for (auto &x : vmem)
            for (auto &y : x) y = rt::arena_alloc(1024);
    }

    // ------------------------------------------------------------ helpers
    double special_value()
    {
        switch (g.below(9)) {
        case 0: return -0.;
        case 1: return std::numeric_limits<double>::quiet_NaN();
        case 2: return -std::numeric_limits<double>::infinity();
        case 3: return std::numeric_limits<double>::denorm_min() * static_cast<double>(1 + g.below(9));
        case 4: return std::numeric_limits<double>::max();
        case 5: return std::numeric_limits<double>::infinity();
        case 6: return 1. + static_cast<double>(g.range(-3, 3)) * std::numeric_limits<double>::epsilon();
        case 7: return -std::numeric_limits<double>::min();
        default: return 0.;
        }
    }
    T value()
    {
        if (special && g.chance(1, 2)) { // moved around, never calculated with
            if constexpr (is_int) return g.chance(1, 2) ? std::numeric_limits<int>::min() + static_cast<int>(g.below(2)) : std::numeric_limits<int>::max() - static_cast<int>(g.below(2));
            else if constexpr (is_cd) {
                double re = special_value();
                return cd(re, g.chance(1, 2) ? special_value() : re);
            } else return special_value();
        }
        if constexpr (is_cd) return cd(static_cast<double>(g.range(-9, 9)), static_cast<double>(g.range(-9, 9)));
        else return static_cast<T>(g.range(-9, 9));
    }
    static double mag(const T &x)
    {
        if constexpr (is_cd) return std::max(std::fabs(x.real()), std::fabs(x.imag()));
        else return std::fabs(static_cast<double>(x));
    }
    size_t dim() { return g.chance(1, 7) ? 0 : 1 + g.below(big ? (g.chance(1, 4) ? 80 : 24) : g.chance(1, 8) ? 9 : 5); }
    bool same(const T &a, const T &b) const { return bits(a) == bits(b) || (!special && a == b); }
    [[noreturn]] void bad(const char *cls, const std::string &what)
    {
        rt::violate(cls, "step %d (%s): %s", stepid, opname, what.c_str());
    }
    static std::string shape(size_t r, size_t c) { return std::to_string(r) + " x " + std::to_string(c); }
    // Runs f as one library operation, with the fault of this step.
    template <class F>
    int run(F &&f)
    {
        if (fault) rt::heap_fail_at(fault->at, fault->arg != 0);
        int e = in_library(f);
        fired = fault && rt::heap_fired() > 0;
        rt::heap_fail_off();
        rt::log(static_cast<uint64_t>(e));
        ++performed;
        return e;
    }
    // What may happen: reject = the operands do not fit; huge = cannot be stored.
    // Returns true if the operation took effect.
    template <class F>
    bool op(bool reject, bool huge, F &&f)
    {
        int e = run(f);
        if (e == RETURNED) {
            if (reject) bad("not-rejected", "operands that do not fit were accepted");
            if (huge) bad("wrong-result", "a result that cannot be stored was produced");
            return true;
        }
        if (e == REJECTED) {
            if (!reject && !huge) bad("wrong-rejection", "proper operands were rejected");
        } else if (e == NO_MEMORY) {
            if (!fired && !huge) bad("wrong-rejection", "std::bad_alloc although memory was available");
        } else
            bad("wrong-rejection", "an unexpected kind of exception");
        return false;
    }
    // Sizes that overflow or exceed any memory.
    bool huge_dims(size_t &r, size_t &c)
    {
        if (!g.chance(1, 12)) return false;
        static const size_t h[] = { size_t(1) << 62, size_t(1) << 61, size_t(1) << 63, size_t(1) << 33, ~size_t(0), (~size_t(0)) / 2 + 1 };
        r = h[g.below(6)];
        c = g.chance(1, 2) ? (size_t(1) << g.below(40)) : h[g.below(6)];
        if (g.chance(1, 2)) std::swap(r, c);
        if (c == 0) c = 1;
        return true;
    }

    // ------------------------------------------------------------ views
    static Window sub(const Window &p, size_t r0, size_t r1, size_t c0, size_t c1)
    {
        Window w;
        size_t re = std::min(r1, p.r), ce = std::min(c1, p.c);
        w.r = re > r0 ? re - r0 : 0;
        w.c = ce > c0 ? ce - c0 : 0;
        w.defined = p.defined;
        for (size_t i = 0; i < w.r; ++i)
            for (size_t j = 0; j < w.c; ++j) w.pos.push_back(p.at(r0 + i, c0 + j));
        return w;
    }
    static Window cof(const Window &p, size_t er, size_t ec)
    {
        Window w;
        w.defined = p.defined && er < p.r && ec < p.c;
        if (!w.defined) return w;
        w.r = p.r - 1;
        w.c = p.c - 1;
        for (size_t i = 0; i < p.r; ++i)
            for (size_t j = 0; j < p.c; ++j)
                if (i != er && j != ec) w.pos.push_back(p.at(i, j));
        return w;
    }
    Window full(int k) const
    {
        Window w;
        w.r = mm[k].r;
        w.c = mm[k].c;
        for (size_t i = 0; i < w.r; ++i)
            for (size_t j = 0; j < w.c; ++j) w.pos.push_back({ i, j });
        return w;
    }
    Window window(const ViewSlot &s) const
    {
        Window f = full(s.parent);
        const size_t *p = s.p;
        switch (s.kind) {
        case 0: case 1: return sub(f, p[0], p[1], p[2], p[3]);
        case 2: case 7: return cof(f, p[0], p[1]);
        case 3: case 6: {
            Window i = sub(f, p[0], p[1], p[2], p[3]);
            return sub(i, p[4], ~size_t(0), p[5], ~size_t(0));
        }
        case 4: {
            Window i = sub(f, p[0], p[1], p[2], p[3]);
            return cof(i, p[4], p[5]);
        }
        case 5: {
            Window i = cof(f, p[0], p[1]);
            return sub(i, p[2], p[3], p[4], p[5]);
        }
        }
        return Window();
    }
    bool writable(const ViewSlot &s) const { return s.kind == 0 || (s.kind >= 2 && s.kind <= 5); }
    MM<T> content(int parent, const Window &w) const
    {
        MM<T> x(w.r, w.c);
        for (size_t i = 0; i < w.r; ++i)
            for (size_t j = 0; j < w.c; ++j) x.at(i, j) = mm[parent].at(w.at(i, j).first, w.at(i, j).second);
        return x;
    }
    // An operand: a matrix slot (k < NM) or a view slot (k >= NM).
    struct Opd {
        int parent = 0;
        int view = -1;
        Window w;
        MM<T> x;
    };
    bool operand(int64_t a, Opd &o, bool write = false)
    {
        size_t k = static_cast<size_t>(a) % (NM + NW);
        if (k < NM) {
            o.parent = static_cast<int>(k);
            o.w = full(o.parent);
            o.x = mm[k];
            return true;
        }
        ViewSlot &s = vs[k - NM];
        if (s.kind < 0 || (write && !writable(s))) {
            o.parent = static_cast<int>(k - NM);
            o.w = full(o.parent);
            o.x = mm[k - NM];
            return true;
        }
        o.w = window(s);
        if (!o.w.defined) return false;
        o.parent = s.parent;
        o.view = static_cast<int>(k - NM);
        o.x = content(o.parent, o.w);
        return true;
    }
    // Calls f with the operand as MatrixBase<T> or MatrixBase<const T>.
    template <class F>
    void with(const Opd &o, F &&f)
    {
        if (o.view < 0) {
            f(static_cast<malg::MatrixBase<T> &>(*m[o.parent]));
            return;
        }
        std::visit([&](auto *p) {
            typedef std::remove_pointer_t<decltype(p)> P;
            typedef typename P::T E;
            f(static_cast<malg::MatrixBase<E> &>(*p));
        }, vs[o.view].w);
    }
    template <class F>
    void with_w(const Opd &o, F &&f) // writable operands only
    {
        with(o, [&](auto &b) {
            typedef std::remove_reference_t<decltype(b)> B;
            if constexpr (std::is_same_v<B, malg::MatrixBase<T>>) f(b);
        });
    }
    void store(const Opd &o, const MM<T> &x)
    {
        for (size_t i = 0; i < o.w.r; ++i)
            for (size_t j = 0; j < o.w.c; ++j) mm[o.parent].at(o.w.at(i, j).first, o.w.at(i, j).second) = x.at(i, j);
    }
    static bool safe_alias(const Opd &a, const Opd &b)
    {
        if (a.parent != b.parent) return true;
        if (a.w.r == b.w.r && a.w.c == b.w.c && a.w.pos == b.w.pos) return true;
        for (auto &p : a.w.pos)
            if (std::find(b.w.pos.begin(), b.w.pos.end(), p) != b.w.pos.end()) return false;
        return true;
    }

    // ------------------------------------------------------------ verification
#define EXPECT(ok, obj, k, what) do { if (!(ok)) { rt::OutScope out_; bad("wrong-value", std::string(obj) + " " + std::to_string(k) + ": " + (what)); } } while (0)
    void verify()
    {
        rt::LibScope l;
        for (int k = 0; k < NM; ++k) {
            M &x = *m[k];
            const M &cx = x;
            const MM<T> &y = mm[k];
            { rt::OutScope o; consistent(cx, "matrix"); }
            EXPECT(cx.rows() == y.r && cx.cols() == y.c, "matrix", k, "is " + shape(cx.rows(), cx.cols()) + " instead of " + shape(y.r, y.c));
            EXPECT(cx.size() == y.e.size() && cx.empty() == y.e.empty(), "matrix", k, "size() or empty() wrong");
            for (size_t i = 0; i < y.r; ++i)
                for (size_t j = 0; j < y.c; ++j) {
                    const T &z = y.at(i, j);
                    size_t q = i * y.c + j;
                    if (!(same(cx(i, j), z) && same(cx.at(i, j), z) && same(x(i, j), z) && same(x.at(i, j), z) && same(cx[q], z) && same(x[q], z) && same(cx.data()[q], z) && same(*(cx.begin() + q), z)))
                        EXPECT(false, "matrix", k, "element (" + std::to_string(i) + ", " + std::to_string(j) + ") of " + shape(y.r, y.c) + " is wrong");
                }
            EXPECT(static_cast<size_t>(cx.end() - cx.begin()) == y.e.size(), "matrix", k, "iteration covers other than its elements");
        }
        for (int k = 0; k < NV; ++k) {
            V &x = *v[k];
            const V &cx = x;
            { rt::OutScope o; consistent(cx, "vector"); }
            EXPECT(cx.size() == vm[k].size() && cx.empty() == vm[k].empty(), "vector", k, "has " + std::to_string(cx.size()) + " elements instead of " + std::to_string(vm[k].size()));
            for (size_t i = 0; i < vm[k].size(); ++i)
                if (!(same(cx[i], vm[k][i]) && same(x[i], vm[k][i]) && same(cx.data()[i], vm[k][i]) && same(*(cx.cbegin() + i), vm[k][i]))) EXPECT(false, "vector", k, "element " + std::to_string(i) + " is wrong");
            EXPECT(static_cast<size_t>(cx.end() - cx.begin()) == vm[k].size(), "vector", k, "iteration covers other than its elements");
        }
        EXPECT(om->rows() == omm.r && om->cols() == omm.c, "other matrix", 0, "shape");
        for (size_t i = 0; i < omm.e.size(); ++i) EXPECT((*om)[i] == omm.e[i], "other matrix", 0, "element");
        EXPECT(ov->size() == ovm.size(), "other vector", 0, "size");
        for (size_t i = 0; i < ovm.size(); ++i) EXPECT((*ov)[i] == ovm[i], "other vector", 0, "element");
        for (int k = 0; k < NW; ++k) {
            ViewSlot &s = vs[k];
            if (s.kind < 0) continue;
            Window w = window(s);
            if (!w.defined) continue;
            std::visit([&](auto *p) {
                auto &x = *p;
                const auto &cx = *p;
                EXPECT(cx.rows() == w.r && cx.cols() == w.c, "view", k, "is " + shape(cx.rows(), cx.cols()) + " instead of " + shape(w.r, w.c) + " over a matrix of " + shape(mm[s.parent].r, mm[s.parent].c));
                EXPECT(cx.size() == w.r * w.c && cx.empty() == (w.r * w.c == 0), "view", k, "size() or empty() wrong");
                for (size_t i = 0; i < w.r; ++i)
                    for (size_t j = 0; j < w.c; ++j) {
                        const T &z = mm[s.parent].at(w.at(i, j).first, w.at(i, j).second);
                        size_t q = i * w.c + j;
                        if (!(same(cx(i, j), z) && same(cx.at(i, j), z) && same(x(i, j), z) && same(x.at(i, j), z) && same(cx[q], z) && same(x[q], z)))
                            EXPECT(false, "view", k, "element (" + std::to_string(i) + ", " + std::to_string(j) + ") of " + shape(w.r, w.c) + " differs from its matrix");
                    }
            }, s.w);
        }
    }
    uint64_t state_hash() const
    {
        uint64_t h = 1;
        for (auto &x : mm) {
            h = mix(h, x.r * 1000 + x.c);
            for (auto &e : x.e) h = mix(h, bits(e));
        }
        for (auto &x : vm) {
            h = mix(h, x.size());
            for (auto &e : x) h = mix(h, bits(e));
        }
        for (auto &s : vs) h = mix(h, static_cast<uint64_t>(s.kind * 10 + s.parent));
        return h;
    }
    // A multi-step operation that ran out of memory half way: take over what is there.
    void resync(int k)
    {
        M &x = *m[k];
        consistent(x, "matrix");
        mm[k] = MM<T>(x.rows(), x.cols());
        for (size_t i = 0; i < mm[k].e.size(); ++i) mm[k].e[i] = x.data()[i];
    }

    // ------------------------------------------------------------ matrices
    // Replaces the object in slot k by a newly constructed one.
    template <class F>
    void construct_m(int k, bool reject, bool huge, MM<T> expect_, F &&make)
    {
        { rt::LibScope l; m[k]->~M(); }
        bool ok = op(reject, huge, [&] { make(static_cast<void *>(m[k])); });
        if (!ok) new (m[k]) M();
        mm[k] = ok ? expect_ : MM<T>();
    }
    template <class F>
    void construct_v(int k, bool huge, std::vector<T> expect_, F &&make)
    {
        { rt::LibScope l; v[k]->~V(); }
        bool ok = op(false, huge, [&] { make(static_cast<void *>(v[k])); });
        if (!ok) new (v[k]) V();
        vm[k] = ok ? expect_ : std::vector<T>();
    }
    static size_t slot(int64_t a, size_t n) { return static_cast<size_t>(a) % n; }

    void m_fill(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM));
        size_t r = dim(), c = dim();
        T x = value();
        bool h = huge_dims(r, c);
        bool dflt = g.chance(1, 3);
        construct_m(k, false, h, h ? MM<T>() : MM<T>(r, c, dflt ? T(0) : x), [&](void *p) { dflt ? new (p) M(r, c) : new (p) M(r, c, x); });
    }
    void m_data(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM));
        size_t r = dim(), c = dim();
        std::vector<T> d;
        int64_t n = static_cast<int64_t>(r * c) + (g.chance(1, 3) ? g.range(-2, 3) : 0);
        if (n < 0) n = 0;
        for (int64_t i = 0; i < n; ++i) d.push_back(value());
        bool shorter = d.size() < r * c;
        MM<T> x(r, c);
        for (size_t i = 0; i < x.e.size() && !shorter; ++i) x.e[i] = d[i];
        construct_m(k, shorter, false, x, [&](void *p) { new (p) M(r, c, d); });
    }
    void m_list(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM));
        T a = value(), b = value(), c = value(), d = value(), e = value(), f = value();
        auto mk = [&](size_t r, size_t cc, std::vector<T> e) { MM<T> x(r, cc); x.e = e; return x; };
        switch (g.below(18)) {
        case 10: { // a flat list, as rows of any length
            static const size_t shapes[][2] = { { 1, 6 }, { 2, 3 }, { 3, 2 }, { 6, 1 }, { 1, 5 }, { 2, 2 }, { 1, 1 }, { 4, 1 }, { 5, 1 }, { 1, 3 } };
            const size_t *sh = shapes[g.below(10)];
            std::vector<T> x = { a, b, c, d, e, f };
            x.resize(sh[0] * sh[1], T(0));
            construct_m(k, false, false, mk(sh[0], sh[1], x), [&](void *p) { new (p) M(sh[0], sh[1], { a, b, c, d, e, f }); });
            break;
        }
        case 11: construct_m(k, false, false, mk(3, 3, { a, b, c, d, e, f, c, a, e }), [&](void *p) { new (p) M({ { a, b, c }, { d, e, f }, { c, a, e } }); }); break;
        case 12: construct_m(k, false, false, mk(2, 4, { a, b, c, d, e, f, c, a }), [&](void *p) { new (p) M({ { a, b, c, d }, { e, f, c, a } }); }); break;
        case 13: construct_m(k, false, false, mk(3, 2, { a, b, c, d, e, f }), [&](void *p) { new (p) M({ { a, b }, { c, d }, { e, f } }); }); break;
        case 14:
            if (op(false, false, [&] { *m[k] = { { a, b, c, d }, { e, f, c, a }, { b, d, f, e } }; })) mm[k] = mk(3, 4, { a, b, c, d, e, f, c, a, b, d, f, e });
            break;
        case 15:
            if (op(false, false, [&] { *m[k] = { { a, b, c, d, e, f } }; })) mm[k] = mk(1, 6, { a, b, c, d, e, f });
            break;
        case 16:
            if (op(false, false, [&] { *m[k] = { { a, b }, { c, d }, { e, f }, { d, a } }; })) mm[k] = mk(4, 2, { a, b, c, d, e, f, d, a });
            break;
        case 0: construct_m(k, false, false, mk(2, 2, { a, b, c, d }), [&](void *p) { new (p) M({ { a, b }, { c, d } }); }); break;
        case 1: construct_m(k, false, false, mk(1, 3, { a, b, c }), [&](void *p) { new (p) M({ { a, b, c } }); }); break;
        case 2:
            construct_m(k, false, false, mk(4, 1, { a, b, c, d }), [&](void *p) { new (p) M({ { a }, { b }, { c }, { d } }); });
            break;
        case 3:
            construct_m(k, false, false, mk(2, 1, { a, b }), [&](void *p) { new (p) M(2, 1, { a, b }); });
            break;
        case 4:
            construct_m(k, true, false, MM<T>(), [&](void *p) { new (p) M(2, 2, { a, b, c }); });
            break;
        case 8: // a row that is too short
            construct_m(k, true, false, MM<T>(), [&](void *p) { if (g.chance(1, 2)) new (p) M({ { a, b }, { c } }); else new (p) M({ { a, b, c }, { d, a, b }, { c, d } }); });
            break;
        case 9:
            op(true, false, [&] { *m[k] = { { a, b, c }, { d } }; });
            break;
        case 5: // assignment
            if (op(false, false, [&] { *m[k] = { { a, b, d }, { c, d, a } }; })) mm[k] = mk(2, 3, { a, b, d, c, d, a });
            break;
        case 6:
            if (op(false, false, [&] { *m[k] = { { c }, { d } }; })) mm[k] = mk(2, 1, { c, d });
            break;
        default:
            if (op(false, false, [&] { *m[k] = { { a, b }, { c, d } }; })) mm[k] = mk(2, 2, { a, b, c, d });
        }
    }
    void m_copy_ctor(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM)), f = static_cast<int>(slot(s.a[1], NM));
        if (k == f) { skipped = true; return; }
        construct_m(k, false, false, mm[f], [&](void *p) { new (p) M(*m[f]); });
    }
    void m_move_ctor(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM)), f = static_cast<int>(slot(s.a[1], NM));
        if (k == f) { skipped = true; return; }
        MM<T> old = mm[f];
        construct_m(k, false, false, old, [&](void *p) { new (p) M(std::move(*m[f])); });
        moved_from(f);
    }
    // Valid, with unspecified contents: read it, then give it a known value.
    void moved_from(int f)
    {
        resync(f);
        rt::log(mm[f].r * 100 + mm[f].c);
    }
    void moved_from_v(int f)
    {
        consistent(*v[f], "vector");
        vm[f].assign(v[f]->data(), v[f]->data() + v[f]->size());
    }
    void m_from_view(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM));
        Opd o;
        if (!operand(s.a[1], o) || o.parent == k) { skipped = true; return; }
        construct_m(k, false, false, o.x, [&](void *p) { with(o, [&](auto &b) { new (p) M(b); }); });
    }
    void m_conv_ctor(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM));
        MM<T> x(omm.r, omm.c);
        for (size_t i = 0; i < x.e.size(); ++i) x.e[i] = static_cast<T>(omm.e[i]);
        bool base = g.chance(1, 2);
        construct_m(k, false, false, x, [&](void *p) {
            if (base) new (p) M(static_cast<malg::MatrixBase<T2> &>(*om));
            else new (p) M(*om);
        });
    }
    void o_make(const Step &)
    {
        size_t r = dim(), c = dim();
        MM<T2> x(r, c);
        for (auto &e : x.e) e = static_cast<T2>(g.range(-9, 9));
        std::vector<T2> y(dim());
        for (auto &e : y) e = static_cast<T2>(g.range(-9, 9));
        if (!op(false, false, [&] { *om = malg::Matrix<T2>(r, c, x.e); })) return;
        omm = x;
        fault = nullptr;
        op(false, false, [&] {
            malg::Vector<T2> t(y.size());
            for (size_t i = 0; i < y.size(); ++i) t[i] = y[i];
            *ov = t;
        });
        ovm = y;
    }
    void m_assign(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM)), f = static_cast<int>(slot(s.a[1], NM));
        bool base = g.chance(1, 3);
        MM<T> x = mm[f];
        if (op(false, false, [&] {
                if (base) *m[k] = static_cast<const malg::MatrixBase<T> &>(*m[f]);
                else { const M &src = *m[f]; *m[k] = src; }
            })) mm[k] = x;
    }
    void m_assign_view(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM));
        Opd o;
        if (!operand(static_cast<int64_t>(NM) + s.a[1] % NW, o)) { skipped = true; return; }
        if (op(false, false, [&] { with(o, [&](auto &b) { *m[k] = b; }); })) mm[k] = o.x;
    }
    void m_assign_conv(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM));
        MM<T> x(omm.r, omm.c);
        for (size_t i = 0; i < x.e.size(); ++i) x.e[i] = static_cast<T>(omm.e[i]);
        if (op(false, false, [&] { *m[k] = static_cast<const malg::MatrixBase<T2> &>(*om); })) mm[k] = x;
    }
    void m_move_assign(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM)), f = static_cast<int>(slot(s.a[1], NM));
        MM<T> x = mm[f];
        if (op(false, false, [&] { *m[k] = std::move(*m[f]); })) {
            if (k == f) return; // keeps its value
            mm[k] = x;
            moved_from(f);
        }
    }
    void m_swap(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM)), f = static_cast<int>(slot(s.a[1], NM));
        if (k == f) { skipped = true; return; }
        if (op(false, false, [&] { std::swap(*m[k], *m[f]); })) std::swap(mm[k], mm[f]);
        else if (fired) { resync(k); resync(f); }
    }
    void m_write(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM));
        if (mm[k].e.empty()) { skipped = true; return; }
        size_t i = g.below(mm[k].r), j = g.below(mm[k].c);
        T x = value();
        size_t path = g.below(5);
        op(false, false, [&] {
            size_t q = i * mm[k].c + j;
            switch (path) {
            case 0: (*m[k])(i, j) = x; break;
            case 1: m[k]->at(i, j) = x; break;
            case 2:
            (*m[k])[q] = x;
            break;
            case 3:
            m[k]->data()[q] = x;
            break;
            default: *(m[k]->begin() + q) = x;
            }
        });
        mm[k].at(i, j) = x;
    }
    void m_randomise(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM));
        size_t r = 1 + g.below(5), c = 1 + g.below(5);
        MM<T> x(r, c);
        for (auto &e : x.e) e = value();
        if (op(false, false, [&] { *m[k] = M(r, c, x.e); })) mm[k] = x;
    }
    void m_resize(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM));
        size_t r = g.chance(1, 3) ? mm[k].r : dim(), c = g.chance(1, 3) ? mm[k].c : dim();
        bool h = huge_dims(r, c);
        bool util = g.chance(1, 3);
        if (op(false, h, [&] { util ? malg::utility::resize(*m[k], r, c) : m[k]->resize(r, c); })) {
            MM<T> x(r, c);
            for (size_t i = 0; i < std::min(r, mm[k].r); ++i)
                for (size_t j = 0; j < std::min(c, mm[k].c); ++j) x.at(i, j) = mm[k].at(i, j);
            mm[k] = x;
        }
    }
    void m_reshape(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM));
        size_t n = mm[k].e.size(), r = dim(), c = dim();
        if (n && g.chance(3, 4)) {
            std::vector<size_t> d;
            for (size_t i = 1; i <= n; ++i)
                if (n % i == 0) d.push_back(i);
            r = d[g.below(d.size())];
            c = n / r;
        } else if (!n && g.chance(1, 2))
            (g.chance(1, 2) ? r : c) = 0;
        size_t hr = r, hc = c;
        if (huge_dims(hr, hc)) r = hr, c = hc;
        bool ovf = r && c > ~size_t(0) / r;
        bool fits = !ovf && r * c == n;
        bool util = g.chance(1, 3);
        if (op(!fits, ovf, [&] { util ? malg::utility::reshape(*m[k], r, c) : m[k]->reshape(r, c); })) {
            mm[k].r = r;
            mm[k].c = c;
        }
    }
    // dst = function of operands
    template <class F>
    void result_m(int k, bool reject, const MM<T> &x, F &&f)
    {
        if (op(reject, false, [&] { f(); })) mm[k] = x;
    }
    void m_stack(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM));
        Opd a, b;
        if (!operand(s.a[1], a) || !operand(s.a[2], b)) { skipped = true; return; }
        bool vert = g.chance(1, 2);
        bool rej = vert ? a.x.c != b.x.c : a.x.r != b.x.r;
        MM<T> x;
        if (!rej) {
            x = vert ? MM<T>(a.x.r + b.x.r, a.x.c) : MM<T>(a.x.r, a.x.c + b.x.c);
            for (size_t i = 0; i < x.r; ++i)
                for (size_t j = 0; j < x.c; ++j)
                    x.at(i, j) = vert ? (i < a.x.r ? a.x.at(i, j) : b.x.at(i - a.x.r, j)) : (j < a.x.c ? a.x.at(i, j) : b.x.at(i, j - a.x.c));
        }
        result_m(k, rej, x, [&] {
            with(a, [&](auto &p) {
                with(b, [&](auto &q) {
                    if (vert) *m[k] = malg::utility::vstack(p, q);
                    else *m[k] = malg::utility::hstack(p, q);
                });
            });
        });
    }
    void m_transpose(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM));
        Opd a;
        if (!operand(s.a[1], a)) { skipped = true; return; }
        MM<T> x(a.x.c, a.x.r);
        for (size_t i = 0; i < x.r; ++i)
            for (size_t j = 0; j < x.c; ++j) x.at(i, j) = a.x.at(j, i);
        result_m(k, false, x, [&] { with(a, [&](auto &p) { *m[k] = malg::linalg::transpose(p); }); });
    }
    void m_extract(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM));
        Opd a;
        if (!operand(s.a[1], a)) { skipped = true; return; }
        size_t r0 = g.below(a.x.r + 2), r1 = g.chance(1, 3) ? ~size_t(0) : r0 + g.below(5), c0 = g.below(a.x.c + 2), c1 = g.chance(1, 3) ? ~size_t(0) : c0 + g.below(5);
        bool rej = r0 >= r1 || c0 >= c1 || r0 > a.x.r || c0 > a.x.c;
        if (r0 == a.x.r || c0 == a.x.c) { skipped = true; return; } // nothing to extract: empty or rejected
        MM<T> x;
        if (!rej) {
            size_t re = std::min(r1, a.x.r), ce = std::min(c1, a.x.c);
            x = MM<T>(re - r0, ce - c0);
            for (size_t i = 0; i < x.r; ++i)
                for (size_t j = 0; j < x.c; ++j) x.at(i, j) = a.x.at(r0 + i, c0 + j);
        }
        result_m(k, rej, x, [&] { with(a, [&](auto &p) { *m[k] = malg::utility::extract(p, r0, r1, c0, c1); }); });
    }
    void m_from_vector(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM)), f = static_cast<int>(slot(s.a[1], NV));
        size_t n = vm[f].size();
        switch (g.below(3)) {
        case 0: {
            MM<T> x(n, n);
            for (size_t i = 0; i < n; ++i) x.at(i, i) = vm[f][i];
            result_m(k, false, x, [&] { *m[k] = malg::utility::diag(*v[f]); });
            break;
        }
        case 1: {
            MM<T> x(1, n);
            x.e = vm[f];
            result_m(k, false, x, [&] { *m[k] = malg::utility::to_matrix(*v[f], true); });
            break;
        }
        default: {
            MM<T> x(n, 1);
            x.e = vm[f];
            result_m(k, false, x, [&] { *m[k] = malg::utility::to_matrix(*v[f], false); });
        }
        }
    }
    void m_create(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM));
        size_t r = dim(), c = dim();
        bool rej = !r || !c;
        T x = value();
        switch (g.below(3)) {
        case 0: {
            MM<T> y(r, c);
            for (size_t i = 0; i < std::min(r, c); ++i) y.at(i, i) = x;
            result_m(k, rej, y, [&] { *m[k] = malg::utility::eye<T>(r, c, x); });
            break;
        }
        case 1: result_m(k, rej, MM<T>(r, c), [&] { *m[k] = malg::utility::zeros<T>(r, c); }); break;
        default: result_m(k, rej, MM<T>(r, c, T(1)), [&] { *m[k] = malg::utility::ones<T>(r, c); });
        }
    }
    void swap_lines(const Step &s)
    {
        Opd a;
        if (!operand(s.a[0], a, true) || a.x.e.empty()) { skipped = true; return; }
        bool rows = g.chance(1, 2);
        size_t n = rows ? a.x.r : a.x.c, o = rows ? a.x.c : a.x.r;
        size_t i = g.below(n), j = g.below(n), lo = g.chance(1, 2) ? 0 : g.below(o + 1), hi = g.chance(1, 2) ? ~size_t(0) : g.below(o + 2);
        op(false, false, [&] {
            with_w(a, [&](auto &b) {
                if (rows) malg::utility::swap_rows(b, i, j, lo, hi);
                else malg::utility::swap_cols(b, i, j, lo, hi);
            });
        });
        for (size_t q = lo; q < std::min(hi, o); ++q) rows ? std::swap(a.x.at(i, q), a.x.at(j, q)) : std::swap(a.x.at(q, i), a.x.at(q, j));
        store(a, a.x);
    }
    void m_remove(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NM));
        bool row = g.chance(1, 2);
        size_t n = row ? mm[k].r : mm[k].c;
        size_t i = g.below(n + 2);
        bool rej = i >= n;
        bool ok = op(rej, false, [&] {
            if (row) malg::utility::remove_row(*m[k], i);
            else malg::utility::remove_column(*m[k], i);
        });
        if (ok) {
            MM<T> x = row ? MM<T>(mm[k].r - 1, mm[k].c) : MM<T>(mm[k].r, mm[k].c - 1);
            for (size_t a = 0; a < x.r; ++a)
                for (size_t b = 0; b < x.c; ++b) x.at(a, b) = mm[k].at(a + (row && a >= i), b + (!row && b >= i));
            mm[k] = x;
        } else if (fired && !rej) {
            resync(k); // valid, but possibly rearranged
        }
    }
    // ------------------------------------------------------------ in place
    static double peak(const MM<T> &x)
    {
        double p = 0;
        for (auto &e : x.e) p = std::max(p, mag(e));
        return p;
    }
    void inplace(const Step &s)
    {
        if (special) { skipped = true; return; }
        Opd a, b;
        if (!operand(s.a[0], a, true) || !operand(s.a[1], b)) { skipped = true; return; }
        if (peak(a.x) > 1e4 || peak(b.x) > 1e4) { skipped = true; return; }
        switch (g.below(3)) {
        case 0: case 1: {
            bool add = g.chance(1, 2);
            bool rej = a.x.r != b.x.r || a.x.c != b.x.c;
            if (!rej && !safe_alias(a, b)) { skipped = true; return; }
            bool ok = op(rej, false, [&] {
                with_w(a, [&](auto &p) { with(b, [&](auto &q) { if (add) p += q; else p -= q; }); });
            });
            if (ok) {
                for (size_t i = 0; i < a.x.e.size(); ++i) a.x.e[i] = add ? a.x.e[i] + b.x.e[i] : a.x.e[i] - b.x.e[i];
                store(a, a.x);
            }
            break;
        }
        default: {
            bool rej = a.x.c != b.x.r || b.x.r != b.x.c;
            if (a.x.e.empty() || b.x.e.empty()) { skipped = true; return; }
            bool ok = op(rej, false, [&] { with_w(a, [&](auto &p) { with(b, [&](auto &q) { p *= q; }); }); });
            if (ok) {
                MM<T> x(a.x.r, a.x.c);
                for (size_t i = 0; i < x.r; ++i)
                    for (size_t j = 0; j < x.c; ++j)
                        for (size_t q = 0; q < b.x.r; ++q) x.at(i, j) += a.x.at(i, q) * b.x.at(q, j);
                store(a, x);
            }
        }
        }
    }
    void inplace_scalar(const Step &s)
    {
        if (special) { skipped = true; return; }
        Opd a;
        if (!operand(s.a[0], a, true) || a.x.e.empty() || peak(a.x) > 1e4) { skipped = true; return; }
        bool alias = g.chance(1, 2), mul = g.chance(1, 2);
        size_t i = g.below(a.x.r), j = g.below(a.x.c);
        T b = alias ? a.x.at(i, j) : T(static_cast<double>(1 + g.below(3)));
        MM<T> x = a.x;
        for (auto &e : x.e) {
            if (mul) e = e * b;
            else {
                if (mag(b) == 0) { skipped = true; return; }
                T q = e / b;
                if (!(q * b == e) || mag(q) != std::floor(mag(q))) { skipped = true; return; }
                if constexpr (is_cd) {
                    if (q.real() != std::floor(q.real()) || q.imag() != std::floor(q.imag())) { skipped = true; return; }
                }
                e = q;
            }
        }
        op(false, false, [&] {
            with_w(a, [&](auto &p) {
                if (alias) {
                    if (mul) p *= p(i, j);
                    else p /= p(i, j);
                } else {
                    if (mul) p *= b;
                    else p /= b;
                }
            });
        });
        for (size_t q = 0; q < x.e.size(); ++q)
            if (x.e[q] == T(0)) x.e[q] = T(0);
        store(a, x);
    }
    // ------------------------------------------------------------ vectors
    void v_ctor(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NV)), f = static_cast<int>(slot(s.a[1], NV));
        size_t n = dim(), dummy = 1;
        T a = value(), b = value(), c = value();
        switch (g.below(8)) {
        case 0: {
            bool h = huge_dims(n, dummy);
            if (h) n = std::max(n, dummy);
            construct_v(k, h, h ? std::vector<T>() : std::vector<T>(n, T(0)), [&](void *p) { new (p) V(n); });
            break;
        }
        case 1: construct_v(k, false, std::vector<T>(n, a), [&](void *p) { new (p) V(n, a); }); break;
        case 2:
            if (g.chance(1, 2)) construct_v(k, false, { a, b, c, b, a }, [&](void *p) { new (p) V({ a, b, c, b, a }); });
            else construct_v(k, false, { a, b, c }, [&](void *p) { new (p) V({ a, b, c }); });
            break;
        case 3:
            if (g.chance(1, 3)) { // a size other than that of the list
                if (n == 2) ++n;
                construct_v(k, true, {}, [&](void *p) { new (p) V(n, { a, b }); });
                break;
            }
            if (g.chance(1, 2)) construct_v(k, false, { a, b, c, a, c, b }, [&](void *p) { new (p) V(6, { a, b, c, a, c, b }); });
            else construct_v(k, false, { a, b }, [&](void *p) { new (p) V(2, { a, b }); });
            break;
        case 4: {
            std::vector<T> x;
            for (auto &e : ovm) x.push_back(static_cast<T>(e));
            construct_v(k, false, x, [&](void *p) { new (p) V(*ov); });
            break;
        }
        case 5: case 6:
            if (k == f) { skipped = true; return; }
            construct_v(k, false, vm[f], [&](void *p) { new (p) V(*v[f]); });
            break;
        default:
            if (k == f) { skipped = true; return; }
            construct_v(k, false, std::vector<T>(vm[f]), [&](void *p) { new (p) V(std::move(*v[f])); });
            moved_from_v(f);
        }
    }
    void v_assign(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NV)), f = static_cast<int>(slot(s.a[1], NV));
        std::vector<T> x = vm[f];
        switch (g.below(5)) {
        case 0: case 1:
            if (op(false, false, [&] { const V &src = *v[f]; *v[k] = src; })) vm[k] = x;
            break;
        case 2:
            if (op(false, false, [&] { *v[k] = std::move(*v[f]); })) {
                if (k == f) return; // keeps its value
                vm[k] = x;
                moved_from_v(f);
            }
            break;
        case 3: {
            std::vector<T> y;
            for (auto &e : ovm) y.push_back(static_cast<T>(e));
            if (op(false, false, [&] { const malg::Vector<T2> &src = *ov; *v[k] = src; })) vm[k] = y;
            break;
        }
        default:
            if (k == f) { skipped = true; return; }
            if (op(false, false, [&] { std::swap(*v[k], *v[f]); })) std::swap(vm[k], vm[f]);
        }
    }
    void v_resize(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NV)), f = static_cast<int>(slot(s.a[1], NV));
        if (g.chance(1, 4)) {
            size_t n = vm[f].size();
            if (op(false, false, [&] { v[k]->resize(*v[f]); })) vm[k].resize(n, T(0));
            return;
        }
        size_t n = dim(), dummy = 1;
        bool h = huge_dims(n, dummy);
        if (h) n = std::max(n, dummy);
        if (op(false, h, [&] { v[k]->resize(n); })) vm[k].resize(n, T(0));
    }
    void v_write(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NV));
        if (vm[k].empty()) { skipped = true; return; }
        size_t i = g.below(vm[k].size());
        T x = value();
        size_t path = g.below(3);
        op(false, false, [&] {
            if (path == 0) (*v[k])[i] = x;
            else if (path == 1) v[k]->data()[i] = x;
            else *(v[k]->begin() + i) = x;
        });
        vm[k][i] = x;
    }
    void v_randomise(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NV));
        std::vector<T> x(1 + g.below(6));
        for (auto &e : x) e = value();
        if (op(false, false, [&] {
                V t(x.size());
                for (size_t i = 0; i < x.size(); ++i) t[i] = x[i];
                *v[k] = t;
            })) vm[k] = x;
    }
    void v_from(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NV)), f = static_cast<int>(slot(s.a[1], NV));
        Opd a;
        if (!operand(s.a[2], a)) { skipped = true; return; }
        std::vector<T> x;
        switch (g.below(6)) {
        case 0:
            x = vm[f];
            { int h = static_cast<int>(slot(s.a[2], NV));
            x.insert(x.end(), vm[h].begin(), vm[h].end());
            if (op(false, false, [&] { *v[k] = malg::utility::concatenate(*v[f], *v[h]); })) vm[k] = x; }
            break;
        case 1:
            x = mm[a.parent].e;
            if (op(false, false, [&] { *v[k] = malg::utility::to_vector(*m[a.parent]); })) vm[k] = x;
            break;
        case 2:
            x = a.x.e;
            if (op(false, false, [&] { with(a, [&](auto &p) { *v[k] = malg::utility::ravel(p); }); })) vm[k] = x;
            break;
        case 3:
            for (size_t i = 0; i < std::min(a.x.r, a.x.c); ++i) x.push_back(a.x.at(i, i));
            if (op(false, false, [&] { with(a, [&](auto &p) { *v[k] = malg::utility::diag(p); }); })) vm[k] = x;
            break;
        default: {
            bool row = g.chance(1, 2);
            size_t n = row ? a.x.r : a.x.c, o = row ? a.x.c : a.x.r;
            size_t i = g.below(n + 1), lo = g.below(o + 2), hi = g.chance(1, 2) ? ~size_t(0) : lo + g.below(4);
            if (lo == o) { skipped = true; return; }
            bool rej = i >= n || lo >= hi || lo > o;
            if (!rej)
                for (size_t q = lo; q < std::min(hi, o); ++q) x.push_back(row ? a.x.at(i, q) : a.x.at(q, i));
            if (op(rej, false, [&] {
                    with(a, [&](auto &p) {
                        if (row) *v[k] = malg::utility::extract_row(p, i, lo, hi);
                        else *v[k] = malg::utility::extract_column(p, i, lo, hi);
                    });
                })) vm[k] = x;
        }
        }
    }
    void v_inplace(const Step &s)
    {
        if (special) { skipped = true; return; }
        int k = static_cast<int>(slot(s.a[0], NV)), f = static_cast<int>(slot(s.a[1], NV));
        double p = 0;
        for (auto &e : vm[k]) p = std::max(p, mag(e));
        for (auto &e : vm[f]) p = std::max(p, mag(e));
        if (p > 1e6) { skipped = true; return; }
        bool add = g.chance(1, 2), rej = vm[k].size() != vm[f].size();
        std::vector<T> x = vm[f];
        if (op(rej, false, [&] { if (add) *v[k] += *v[f]; else *v[k] -= *v[f]; }))
            for (size_t i = 0; i < x.size(); ++i) vm[k][i] = add ? vm[k][i] + x[i] : vm[k][i] - x[i];
    }
    // ------------------------------------------------------------ view operations
    template <typename W, typename F>
    W *make(int k, int side, F f)
    {
        W *w = new (vmem[k][side]) W(f());
        vkill[k][side] = [](void *p) { static_cast<W *>(p)->~W(); };
        return w;
    }
    void kill(int k)
    {
        rt::LibScope l;
        for (int side = 0; side < 2; ++side) {
            if (vkill[k][side]) vkill[k][side](vmem[k][side]);
            vkill[k][side] = nullptr;
        }
    }
    // The same windows through the default arguments of the library's functions.
    static constexpr size_t END = ~size_t(0);
    template <typename P>
    static auto lane(P &p, size_t i, size_t b, size_t e, bool column)
    {
        if (e != END) return column ? malg::utility::col(p, i, b, e) : malg::utility::row(p, i, b, e);
        if (b != 0) return column ? malg::utility::col(p, i, b) : malg::utility::row(p, i, b);
        return column ? malg::utility::col(p, i) : malg::utility::row(p, i);
    }
    template <typename P>
    static auto whole(P &p, size_t r0, size_t r1, size_t c0, size_t c1)
    {
        if (c1 != END) return malg::utility::view(p, r0, r1, c0, c1);
        if (c0 != 0) return malg::utility::view(p, r0, r1, c0);
        if (r1 != END) return malg::utility::view(p, r0, r1);
        return r0 != 0 ? malg::utility::view(p, r0) : malg::utility::view(p);
    }
    void w_make(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NW)), f = static_cast<int>(slot(s.a[1], NM));
        ViewSlot &w = vs[k];
        w.kind = -1;
        int kind = static_cast<int>(g.below(8));
        w.parent = f;
        size_t R = mm[f].r, C = mm[f].c;
        auto start = [&](size_t n) { return g.chance(1, 10) ? n + g.below(3) : g.below(n ? n : 1); };
        auto stop = [&](size_t b) { return g.chance(1, 3) ? ~size_t(0) : b + 1 + g.below(5); };
        size_t r0 = g.chance(1, 3) ? 0 : start(R), c0 = g.chance(1, 3) ? 0 : start(C), r1 = stop(r0), c1 = stop(c0);
        bool none = false;
        if (kind < 2 && g.chance(1, 16)) { // a range without elements
            none = true;
            if (g.chance(1, 2)) r1 = g.chance(1, 2) ? r0 : r0 / 2;
            else c1 = g.chance(1, 2) ? c0 : c0 / 2;
        }
        M &p = *m[f];
        const M &cp = p;
        kill(k);
        if ((kind == 2 || kind == 5 || kind == 7) && (R < 1 || C < 1)) kind = 0;
        int form = static_cast<int>(g.below(4));
        Window iw = sub(full(f), r0, r1, c0, c1);
        fault = nullptr;
        if (none && form > 1) form -= 2;
        int e = run([&] {
            switch (kind) {
            case 0:
                if (form == 0) w.w = make<W0>(k, 0, [&] { return c0 == 0 && c1 == END ? (r1 == END ? W0(&p, r0) : W0(&p, r0, r1)) : c1 == END ? whole(p, r0, r1, c0, c1) : W0(&p, r0, r1, c0, c1); });
                else if (form == 1) w.w = make<W0>(k, 0, [&] { return W0(p(r0 == 0 && r1 == END ? malg::Range::all() : malg::Range{ r0, r1 }, c0 == 0 && c1 == END ? malg::Range::all() : malg::Range{ c0, c1 })); });
                else if (form == 2) { r1 = r0 + 1; w.w = make<W0>(k, 0, [&] { return lane(p, r0, c0, c1, false); }); }
                else { c1 = c0 + 1; w.w = make<W0>(k, 0, [&] { return lane(p, c0, r0, r1, true); }); }
                break;
            case 1:
                if (form == 0) w.w = make<W1>(k, 0, [&] { return W1(&cp, malg::Range{ r0, r1 }, malg::Range{ c0, c1 }); });
                else if (form == 1) w.w = make<W1>(k, 0, [&] { return W1(cp(malg::Range{ r0, r1 }, malg::Range{ c0, c1 })); });
                else if (form == 2) { r1 = r0 + 1; w.w = make<W1>(k, 0, [&] { return lane(cp, r0, c0, c1, false); }); }
                else { w.w = make<W1>(k, 0, [&] { return whole(cp, r0, r1, c0, c1); }); }
                break;
            default: break;
            }
            size_t *q = w.p;
            q[0] = r0, q[1] = r1, q[2] = c0, q[3] = c1;
            if (kind == 2 || kind == 7) {
                q[0] = g.below(R);
                q[1] = g.below(C);
                if (kind == 2) w.w = make<W2>(k, 0, [&] { return W2(&p, q[0], q[1]); });
                else w.w = make<W7>(k, 0, [&] { return W7(&cp, q[0], q[1]); });
            }
            if (kind == 3 || kind == 4) {
                W0 *i = make<W0>(k, 1, [&] { return W0(&p, r0, r1, c0, c1); });
                q[4] = g.below(iw.r ? iw.r : 1);
                q[5] = g.below(iw.c ? iw.c : 1);
                if (kind == 3) w.w = make<W3>(k, 0, [&] { return W3(i, q[4], ~size_t(0), q[5], ~size_t(0)); });
                else w.w = make<W4>(k, 0, [&] { return W4(i, q[4], q[5]); });
            }
            if (kind == 6) {
                W1 *i = make<W1>(k, 1, [&] { return W1(&cp, r0, r1, c0, c1); });
                q[4] = g.below(iw.r ? iw.r : 1);
                q[5] = g.below(iw.c ? iw.c : 1);
                w.w = make<W6>(k, 0, [&] { return W6(i, malg::Range{ q[4], ~size_t(0) }, malg::Range{ q[5], ~size_t(0) }); });
            }
            if (kind == 5) {
                q[0] = g.below(R);
                q[1] = g.below(C);
                W2 *i = make<W2>(k, 1, [&] { return W2(&p, q[0], q[1]); });
                q[2] = g.below(R);
                q[3] = q[2] + 1 + g.below(3);
                q[4] = g.below(C);
                q[5] = g.chance(1, 2) ? ~size_t(0) : q[4] + 1 + g.below(3);
                w.w = make<W5>(k, 0, [&] { return W5(i, q[2], q[3], q[4], q[5]); });
            }
        });
        if (e != RETURNED && !none) bad("wrong-rejection", "a proper view was rejected");
        if (e == RETURNED) w.kind = kind;
    }
    void w_write(const Step &s)
    {
        Opd a;
        if (!operand(static_cast<int64_t>(NM) + s.a[0] % NW, a, true) || a.x.e.empty()) { skipped = true; return; }
        size_t i = g.below(a.x.r), j = g.below(a.x.c), path = g.below(3);
        T x = value();
        op(false, false, [&] {
            with_w(a, [&](auto &p) {
                if (path == 0) p(i, j) = x;
                else if (path == 1) p.at(i, j) = x;
                else p[i * a.x.c + j] = x;
            });
        });
        a.x.at(i, j) = x;
        store(a, a.x);
    }
    void w_assign(const Step &s)
    {
        int k = static_cast<int>(slot(s.a[0], NW));
        ViewSlot &w = vs[k];
        Opd a, b;
        if (w.kind < 0 || !writable(w) || !operand(NM + k, a, true) || !operand(s.a[1], b)) { skipped = true; return; }
        if (a.view < 0 || a.x.e.empty()) { skipped = true; return; }
        if (g.chance(1, 4)) { // initializer list, also one that does not fit
            T p = value(), q = value();
            bool done = false, fits = false;
            std::visit([&](auto *x) {
                typedef std::remove_pointer_t<decltype(x)> X;
                if constexpr (std::is_same_v<X, W0> || std::is_same_v<X, W3> || std::is_same_v<X, W5>) {
                    done = true;
                    if (a.x.r == 2 && a.x.c == 2 && g.chance(1, 3)) { // a row that is too short
                        op(false, false, [&] { *x = { { p, q }, { p } }; });
                        return;
                    }
                    if (a.x.r == 3 && a.x.c == 2 && g.chance(1, 3)) {
                        op(false, false, [&] { *x = { { p, q }, { q, p }, { p } }; });
                        return;
                    }
                    T u = value(), t = value();
                    size_t r = a.x.r, c = a.x.c;
                    if (g.chance(1, 5)) { r = 1 + g.below(3); c = 1 + g.below(3); }
                    fits = r == a.x.r && c == a.x.c;
                    std::vector<T> e;
#define LIST_CASE(R, C, FLAT, ...) else if (r == R && c == C) { e = std::vector<T> FLAT; op(false, false, [&] { *x = __VA_ARGS__; }); }
#define FLAT_(...) { __VA_ARGS__ }
                    if (r == 0 || c == 0) { done = false; }
                    LIST_CASE(1, 1, FLAT_(p), { { p } })
                    LIST_CASE(1, 2, FLAT_(p, q), { { p, q } })
                    LIST_CASE(2, 1, FLAT_(p, q), { { p }, { q } })
                    LIST_CASE(1, 3, FLAT_(p, q, u), { { p, q, u } })
                    LIST_CASE(3, 1, FLAT_(p, q, u), { { p }, { q }, { u } })
                    LIST_CASE(2, 2, FLAT_(p, q, u, t), { { p, q }, { u, t } })
                    LIST_CASE(2, 3, FLAT_(p, q, u, t, p, u), { { p, q, u }, { t, p, u } })
                    LIST_CASE(3, 2, FLAT_(p, q, u, t, p, u), { { p, q }, { u, t }, { p, u } })
                    LIST_CASE(3, 3, FLAT_(p, q, u, t, p, u, q, t, p), { { p, q, u }, { t, p, u }, { q, t, p } })
                    LIST_CASE(1, 4, FLAT_(p, q, u, t), { { p, q, u, t } })
                    LIST_CASE(4, 1, FLAT_(p, q, u, t), { { p }, { q }, { u }, { t } })
                    LIST_CASE(2, 4, FLAT_(p, q, u, t, q, u, p, t), { { p, q, u, t }, { q, u, p, t } })
                    else { done = false; }
#undef LIST_CASE
#undef FLAT_
                    fits = fits && done;
                    if (fits) a.x.e = e;
                }
            }, w.w);
            if (!done) skipped = true;
            if (fits) store(a, a.x);
            return;
        }
        if ((a.x.r != b.x.r || a.x.c != b.x.c) && g.chance(1, 2)) { // does not fit
            op(true, false, [&] {
                std::visit([&](auto *p) {
                    typedef std::remove_pointer_t<decltype(p)> X;
                    if constexpr (!std::is_const_v<typename X::T>) with(b, [&](auto &src) { *p = src; });
                }, w.w);
            });
            return;
        }
        if (a.x.r != b.x.r || a.x.c != b.x.c || !safe_alias(a, b)) { // make one that fits
            if (a.x.r * a.x.c == 0) { skipped = true; return; }
            MM<T> x(a.x.r, a.x.c);
            for (auto &e : x.e) e = value();
            op(false, false, [&] {
                M t(a.x.r, a.x.c, x.e);
                std::visit([&](auto *p) {
                    typedef std::remove_pointer_t<decltype(p)> X;
                    if constexpr (!std::is_const_v<typename X::T>) *p = t;
                }, w.w);
            }) ? store(a, x) : void();
            return;
        }
        op(false, false, [&] {
            std::visit([&](auto *p) {
                typedef std::remove_pointer_t<decltype(p)> X;
                if constexpr (!std::is_const_v<typename X::T>) with(b, [&](auto &src) { *p = src; });
            }, w.w);
        }) ? store(a, b.x) : void();
    }
    void w_assign_view(const Step &s) // view = view of the same class
    {
        int k = static_cast<int>(slot(s.a[0], NW)), l = static_cast<int>(slot(s.a[1], NW));
        Opd a, b;
        if (vs[k].kind != 0 || vs[l].kind < 0 || vs[l].kind == 2 || vs[l].kind == 4 || vs[l].kind == 7 || !operand(NM + k, a, true) || !operand(NM + l, b)) { skipped = true; return; }
        bool unfit = a.x.r != b.x.r || a.x.c != b.x.c;
        if (a.x.r * a.x.c && (unfit ? g.chance(2, 3) : !safe_alias(a, b) || g.chance(1, 4))) { // a window that fits, of another matrix
            const size_t r0 = g.below(3), c0 = g.below(3), R = r0 + a.x.r + g.below(2), C = c0 + a.x.c + g.below(2);
            std::vector<T> e(R * C);
            for (auto &x : e) x = value();
            MM<T> x(a.x.r, a.x.c);
            for (size_t i = 0; i < a.x.r; ++i)
                for (size_t j = 0; j < a.x.c; ++j) x.e[i * a.x.c + j] = e[(r0 + i) * C + c0 + j];
            const bool cst = g.chance(1, 3);
            if (g.chance(1, 4)) { // or just does not fit
                const size_t dr = g.below(3), dc = dr ? 0 : 1 + g.below(2);
                if ((dr == 2 && a.x.r < 2) || (dc == 2 && a.x.c < 2)) { skipped = true; return; }
                const size_t wr = dr == 1 ? a.x.r + 1 : dr == 2 ? a.x.r - 1 : a.x.r, wc = dc == 1 ? a.x.c + 1 : dc == 2 ? a.x.c - 1 : a.x.c;
                op(true, false, [&] {
                    W0 &dst = *std::get<W0 *>(vs[k].w);
                    M t(r0 + wr, c0 + wc, value());
                    if (cst) {
                        const M &u = t;
                        dst = u(malg::Range{ r0, r0 + wr }, malg::Range{ c0, c0 + wc });
                    } else
                        dst = t(malg::Range{ r0, r0 + wr }, malg::Range{ c0, c0 + wc });
                });
                return;
            }
            if (op(false, false, [&] {
                    W0 &dst = *std::get<W0 *>(vs[k].w);
                    M t(R, C, e);
                    if (cst) {
                        const M &u = t;
                        dst = u(malg::Range{ r0, r0 + a.x.r }, malg::Range{ c0, c0 + a.x.c });
                    } else {
                        dst = t(malg::Range{ r0, r0 + a.x.r }, malg::Range{ c0, c0 + a.x.c });
                    }
                })) store(a, x);
            return;
        }
        if (!unfit && !safe_alias(a, b)) { skipped = true; return; }
        bool done = op(unfit, false, [&] {
            W0 &dst = *std::get<W0 *>(vs[k].w);
            std::visit([&](auto *src) {
                typedef std::remove_pointer_t<decltype(src)> X;
                if constexpr (!std::is_same_v<X, W2> && !std::is_same_v<X, W4> && !std::is_same_v<X, W7>) dst = *src;
            }, vs[l].w);
        });
        if (done) store(a, b.x);
    }
    // An operation on a view gives what it gives for a matrix holding a copy.
    template <class B>
    uint64_t evaluate(int which, B &p, const V &y, const M &z)
    {
        uint64_t h = 0;
        auto add = [&](const auto &x) {
            rt::OutScope o;
            h = mix(h, x.rows() * 1000 + x.cols());
            for (size_t i = 0; i < x.size(); ++i) h = mix(h, bits(x.data()[i]));
        };
        auto addv = [&](const auto &x) {
            rt::OutScope o;
            h = mix(h, x.size());
            for (size_t i = 0; i < x.size(); ++i) h = mix(h, bits(x.data()[i]));
        };
        switch (which) {
        case 0: add(malg::linalg::transpose(p)); break;
        case 1: add(p + p); break;
        case 2:
            add(p - z);
            break;
        case 3:
            add(p * z);
            break;
        case 4:
            add(z * p);
            break;
        case 5:
            addv(malg::dot(p, y));
            break;
        case 6: h = bits(malg::trace(p)); break;
        case 7: {
            std::ostringstream o;
            o.exceptions(std::ios::badbit);
            o << p;
            h = hash_str(o.str());
            break;
        }
        case 8: h = hash_str(malg::to_matlab("x", p)); break;
        case 9:
            h = malg::utility::is_square(p) * 4 + malg::utility::is_symmetric(p) * 2;
            if constexpr (!is_cd) h += malg::utility::is_diagonal(p);
            break;
        case 10:
            if constexpr (!is_cd) h = malg::utility::is_lower_triangular(p) * 2 + malg::utility::is_upper_triangular(p);
            break;
        case 11:
            add(p * T(3));
            break;
        case 12:
            add(p == z);
            break;
        case 13:
            if constexpr (!is_cd) h = static_cast<uint64_t>(malg::all(p)) * 2 + malg::any(p);
            break;
        case 14: h = hash_str(malg::dump_matrix("m", p)); break;
        case 15:
            if constexpr (std::is_same_v<T, double>) h = bits(malg::linalg::determinant(p));
            break;
        case 16:
            if constexpr (std::is_same_v<T, double>) add(malg::linalg::inverse(p));
            break;
        case 17:
            add(malg::element_wise_product(p, z));
            break;
        case 18:
            if constexpr (!is_cd) add(p > z);
            break;
        case 19:
            if constexpr (!is_cd) h = bits(malg::infinity_norm(p));
            break;
        case 20:
            if constexpr (std::is_same_v<T, double>) h = bits(malg::square_norm(p));
            break;
        case 21:
            add(malg::linear_combination(p, T(2), z, T(-1)));
            break;
        case 22:
            if constexpr (std::is_same_v<T, double> && !std::is_const_v<typename B::value_type>) { // not instantiable for constant views
                auto qr = malg::linalg::lu_decomposition(p);
                add(qr.first);
                add(qr.second);
            }
            break;
        case 23:
            add(malg::linalg::powm(p, 2));
            break;
        case 24:
            add(p / T(2));
            break;
        }
        return h;
    }
    void w_apply(const Step &s)
    {
        Opd a;
        if (!operand(static_cast<int64_t>(NM) + s.a[0] % NW, a) || a.view < 0) { skipped = true; return; }
        int which = static_cast<int>(g.below(25));
        if (special) {
            static const int moves[] = { 0, 7, 8, 9, 14 };
            which = moves[which % 5];
        }
        if (a.x.e.empty() || (which == 22 && !writable(vs[a.view]))) { skipped = true; return; }
        for (size_t i = 0; i < a.x.e.size(); ++i) a.x.e[i] = m[a.parent]->data()[a.w.pos[i].first * mm[a.parent].c + a.w.pos[i].second]; // with the signs of its zeros
        M copy(a.x.r, a.x.c, a.x.e);
        size_t zr = a.x.r, zc = a.x.c;
        if (which == 3) zr = a.x.c, zc = 1 + g.below(3);
        if (which == 4) zc = a.x.r, zr = 1 + g.below(3);
        if (g.chance(1, 10)) ++zr;
        M z(zr, zc);
        for (size_t i = 0; i < z.size(); ++i) z[i] = value();
        V y(a.x.c);
        for (size_t i = 0; i < y.size(); ++i) y[i] = value();
        uint64_t h1 = 0, h2 = 0;
        int e1 = in_library([&] { const M &c = copy; h1 = evaluate(which, c, y, z); });
        int e2 = run([&] {
            with(a, [&](auto &p) {
                const auto &c = p;
                h2 = evaluate(which, c, y, z);
            });
        });
        if (fired && e2 == NO_MEMORY) return;
        if (e1 != e2 || h1 != h2) bad("view-differs", "operation " + std::to_string(which) + " on a view of " + shape(a.x.r, a.x.c) + " differs from the same operation on a copy");
    }

    // ------------------------------------------------------------ driver
    typedef void (World::*Fn)(const Step &);
    struct Entry { const char *name; Fn fn; };
    static const std::vector<Entry> &table()
    {
        static const std::vector<Entry> t = {
            { "m_fill", &World::m_fill }, { "m_data", &World::m_data }, { "m_list", &World::m_list }, { "m_copy_ctor", &World::m_copy_ctor },
            { "m_move_ctor", &World::m_move_ctor }, { "m_from_view", &World::m_from_view }, { "m_conv_ctor", &World::m_conv_ctor }, { "o_make", &World::o_make },
            { "m_assign", &World::m_assign }, { "m_assign_view", &World::m_assign_view }, { "m_assign_conv", &World::m_assign_conv }, { "m_move_assign", &World::m_move_assign },
            { "m_swap", &World::m_swap }, { "m_write", &World::m_write }, { "m_randomise", &World::m_randomise }, { "m_resize", &World::m_resize },
            { "m_reshape", &World::m_reshape }, { "m_stack", &World::m_stack }, { "m_transpose", &World::m_transpose }, { "m_extract", &World::m_extract },
            { "m_from_vector", &World::m_from_vector }, { "m_create", &World::m_create }, { "swap_lines", &World::swap_lines }, { "m_remove", &World::m_remove },
            { "inplace", &World::inplace }, { "inplace_scalar", &World::inplace_scalar }, { "v_ctor", &World::v_ctor }, { "v_assign", &World::v_assign },
            { "v_resize", &World::v_resize }, { "v_write", &World::v_write }, { "v_randomise", &World::v_randomise }, { "v_from", &World::v_from },
            { "v_inplace", &World::v_inplace }, { "w_make", &World::w_make }, { "w_write", &World::w_write }, { "w_assign", &World::w_assign },
            { "w_assign_view", &World::w_assign_view }, { "w_apply", &World::w_apply },
        };
        return t;
    }
    void execute(size_t live0)
    {
        size_t done = 0;
        for (auto &s : plan.steps) {
            const Entry *e = nullptr;
            for (auto &x : table())
                if (s.op == x.name) e = &x;
            if (!e) continue;
            opname = e->name;
            stepid = s.id;
            rt::context("step %d %s", s.id, e->name);
            g = Rng(s.seed);
            fault = nullptr;
            fired = skipped = false;
            for (auto &f : plan.faults)
                if (f.step == s.id && f.kind == "alloc") fault = &f;
            (this->*e->fn)(s);
            fault = nullptr;
            if (skipped) continue;
            ++done;
            verify();
            rt::state(state_hash());
            rt::log(state_hash());
        }
        opname = "end of program";
        for (int k = 0; k < NW; ++k) kill(k);
        {
            rt::LibScope l;
            for (auto x : m) x->~M();
            for (auto x : v) x->~V();
            typedef malg::Matrix<T2> OM;
            typedef malg::Vector<T2> OV;
            om->~OM();
            ov->~OV();
        }
        if (rt::heap_leaked(live0)) rt::violate("leak", "after all objects are destroyed %zu blocks remain:%s", rt::heap_live_blocks() - live0, rt::heap_live_desc().c_str());
        rt::note("%zu of %zu steps performed:", done, plan.steps.size());
        for (size_t i = 0; i < plan.steps.size() && i < 12; ++i) rt::note(" %s", plan.steps[i].op.c_str());
    }
};
void hist_double(const Plan &);
void hist_int(const Plan &);
void hist_complex(const Plan &);
