// Operand bundles and the runner of the catalogue.
#include "cat.hpp"
#include <functional>
using namespace malg;

namespace {
struct Gen {
    Rng r, e; // shapes, elements
    int style; // 0 quarters, 1 small integers with zeros, 2 wide magnitudes, 3 and 4 special values
    static double special(Rng &r)
    {
        switch (r.below(9)) {
        case 0: return -0.;
        case 1: return std::copysign(std::numeric_limits<double>::quiet_NaN(), -1.); // the one that operations generate
        case 2: return std::numeric_limits<double>::infinity();
        case 3: return -std::numeric_limits<double>::infinity();
        case 4: return std::numeric_limits<double>::denorm_min();
        case 5: return 1e300;
        case 6: return -1e-300;
        case 7: return 1.;
        default: return 0.;
        }
    }
    double d()
    {
        Rng &r = e;
        switch (style) {
        case 3: return r.chance(1, 3) ? special(r) : static_cast<double>(r.range(-40, 40)) / 4.;
        case 4: return r.chance(1, 40) ? special(r) : static_cast<double>(r.range(-3, 3));
        case 0: return static_cast<double>(r.range(-40, 40)) / 4.;
        case 1: return r.chance(1, 3) ? 0. : static_cast<double>(r.range(-3, 3));
        default: return (r.unit() - .5) * static_cast<double>(uint64_t(1) << r.below(20));
        }
    }
    template <class T>
    T val()
    {
        if constexpr (std::is_same_v<T, cd>) {
            double a = d();
            return cd(a, d());
        } else if constexpr (std::is_integral_v<T>) {
            return static_cast<T>(e.range(-9, 9));
        } else {
            return static_cast<T>(d());
        }
    }
    template <class T>
    Matrix<T> mat(size_t m, size_t n)
    {
        Matrix<T> q;
        if (m * n == 0) return q;
        q.resize(m, n);
        for (size_t i = 0; i < m; ++i)
            for (size_t j = 0; j < n; ++j) q(i, j) = val<T>();
        return q;
    }
    template <class T>
    Vector<T> vec(size_t n)
    {
        Vector<T> q(n);
        for (size_t i = 0; i < n; ++i) q[i] = val<T>();
        return q;
    }
};
} // namespace

In::In(uint64_t sd, bool w, int style, unsigned scale)
    : wild(w), seed(sd)
{
    Gen g{ Rng(sd), Rng(sd ^ 0x5deece66dull), 0 };
    g.style = static_cast<int>(g.r.below(3));
    if (g.r.chance(1, 10)) g.style = 3 + static_cast<int>(g.r.below(2));
    if (style >= 0) g.style = style;
    size_t m = 1 + g.r.below(4), k = 1 + g.r.below(4), n = 1 + g.r.below(4);
    if (g.r.chance(1, 12)) n = 5;
    if (g.r.chance(1, 12)) m = 7;
    if (g.r.chance(1, 10)) { // large operands
        m = 5 + g.r.below(16);
        k = 5 + g.r.below(16);
        if (k == m) ++k; // what costs more than the cube of the size stays with the smaller operands
        n = 4 + g.r.below(5);
        if (g.r.chance(1, 6)) { // some beyond what would be handled in blocks
            m = 20 + g.r.below(60);
            k = g.r.chance(1, 2) ? 20 + g.r.below(60) : 1 + g.r.below(8);
            if (k == m) ++k;
        }
    }
    if (scale) { // the shapes of moderate operands, multiplied
        n = 2 + n % 4, m = 2 + m % 4, k = 2 + k % 4;
        if (k == m) ++k;
        m *= scale, k *= scale, n *= scale;
    }
    auto dim = [&](size_t x) { return wild ? static_cast<size_t>(g.r.below(5)) : x; };
#define M_(T, a, b) ([&] { size_t r_ = dim(a), c_ = dim(b); return g.mat<T>(r_, c_); }())
    A = M_(double, m, k);
    B = M_(double, m, k);
    C = M_(double, k, n);
    S = M_(double, n, n);
    S2 = M_(double, n, n);
    R = g.mat<double>(1, n);
    K = g.mat<double>(n, 1);
    if (!wild || g.r.chance(1, 2)) { // most square matrices are well conditioned
        size_t q = S.rows() < S.cols() ? S.rows() : S.cols();
        for (size_t i = 0; i < q; ++i) S(i, i) += 12.5;
    }
    v = g.vec<double>(dim(k));
    this->w = g.vec<double>(dim(k));
    z = g.vec<double>(dim(n));
    Ac = M_(cd, m, k);
    Bc = M_(cd, m, k);
    Cc = M_(cd, k, n);
    Sc = M_(cd, n, n);
    if (!wild)
        for (size_t i = 0; i < n; ++i) Sc(i, i) += cd(11, 3);
    vc = g.vec<cd>(dim(k));
    wc = g.vec<cd>(dim(k));
    Ai = M_(int, m, k);
    Bi = M_(int, m, k);
    Ci = M_(int, k, n);
    Si = M_(int, n, n);
    vi = g.vec<int>(dim(k));
    wi = g.vec<int>(dim(k));
    Af = M_(float, m, k);
    Sf = M_(float, n, n);
    vf = g.vec<float>(dim(k));
    ss = control::StateSpace<double>(M_(double, n, n), M_(double, n, m), M_(double, k, n), M_(double, k, m));
    if (!wild)
        for (size_t i = 0; i < n; ++i) ss.A(i, i) -= 12.5;
    Matrix<double> Ad = M_(double, n, n);
    for (size_t i = 0; i < Ad.rows() * Ad.cols(); ++i) Ad[i] /= 64.;
    ds = control::DiscreteStateSpace<double>(Ad, M_(double, n, m), M_(double, k, n), M_(double, k, m), .25);
    size_t steps = g.r.below(5);
    for (size_t i = 0; i < steps; ++i) U.push_back(g.vec<double>(dim(m)));
    x0 = g.vec<double>(dim(n));
    va_ok = !A.empty();
    vs_ok = !S.empty();
    if (scale) {
        if (va_ok) VA.reset(new Win(&A, Range::all(), Range::all()));
        if (vs_ok) VS.reset(new Win(&S, Range::all(), Range::all()));
        return;
    }
    if (va_ok) {
        size_t r0 = g.r.below(A.rows()), c0 = g.r.below(A.cols());
        VA.reset(new Win(&A, Range{ r0, r0 + 1 + g.r.below(4) }, Range{ c0, g.r.chance(1, 3) ? static_cast<size_t>(-1) : c0 + 1 + g.r.below(4) }));
    }
    if (vs_ok) {
        size_t r0 = g.r.below(S.rows() < S.cols() ? S.rows() : S.cols());
        if (wild) VS.reset(new Win(&S, Range{ r0, static_cast<size_t>(-1) }, Range::all()));
        else VS.reset(new Win(&S, Range{ r0, static_cast<size_t>(-1) }, Range{ r0, static_cast<size_t>(-1) }));
    }
}
void In::vary(uint64_t sd, bool undo)
{
    static std::vector<double> keep;
    size_t at = 0;
    if (!undo) keep.clear();
    Rng r(sd);
    int how = static_cast<int>(r.below(8));
    auto one = [&](auto &x, double delta) {
        typedef std::remove_reference_t<decltype(x)> T;
        double *re = nullptr;
        if constexpr (std::is_same_v<T, cd>) re = reinterpret_cast<double *>(&x) + (how & 1);
        if (re) {
            if (undo) *re = keep[at++];
            else { keep.push_back(*re); *re += delta; }
        } else if constexpr (!std::is_same_v<T, cd>) {
            if (undo) x = static_cast<T>(keep[at++]);
            else { keep.push_back(static_cast<double>(x)); x = static_cast<T>(x + static_cast<T>(delta)); }
        }
    };
    auto part = [&](auto &x) -> double {
        if constexpr (std::is_same_v<std::remove_reference_t<decltype(x)>, cd>) return reinterpret_cast<double *>(&x)[how & 1];
        else return static_cast<double>(x);
    };
    auto set = [&](auto &x, double to) { // as one(), with the value itself
        typedef std::remove_reference_t<decltype(x)> T;
        if constexpr (std::is_same_v<T, cd>) {
            double &q = reinterpret_cast<double *>(&x)[how & 1];
            if (undo) q = keep[at++];
            else { keep.push_back(q); q = to; }
        } else {
            if (undo) x = static_cast<T>(keep[at++]);
            else { keep.push_back(static_cast<double>(x)); x = static_cast<T>(to); }
        }
    };
    auto go = [&](auto *p, size_t n) {
        if (!n) return;
        size_t i = r.below(n), j = r.below(n);
        if (how == 0 && n > 1) { // the sum of the elements stays the same
            if (j == i) j = (i + 1) % n;
            one(p[i], 2.);
            one(p[j], -2.);
        } else if (how == 1 && n > 2) { // the first and the last element stay the same
            one(p[1 + r.below(n - 2)], 1.);
        } else if (how == 2) { // all elements
            for (size_t k = 0; k < n; ++k) one(p[k], 1.);
        } else if (how == 4 && n > 1) { // the same elements at other places
            if (j == i) j = (i + 1) % n;
            const double x = part(p[i]), y = part(p[j]);
            set(p[i], y);
            set(p[j], x);
        } else if (how == 5) { // the same magnitudes
            set(p[i], -part(p[i]));
        } else if (how == 6) { // hardly different
            const double x = part(p[i]);
            if (std::is_integral_v<std::remove_reference_t<decltype(p[i])>> || std::is_same_v<float, std::remove_reference_t<decltype(p[i])>>) one(p[i], 1.);
            else set(p[i], std::nextafter(x, r.chance(1, 2) ? 1e308 : x * 2.));
        } else {
            one(p[i], static_cast<double>(1 + r.below(3)));
        }
    };
#define G_(x) go((x).data(), (x).size())
    G_(A); G_(B); G_(C); G_(S); G_(S2); G_(R); G_(K); G_(v); G_(w); G_(z);
    G_(Ac); G_(Bc); G_(Cc); G_(Sc); G_(vc); G_(wc);
    G_(Ai); G_(Bi); G_(Ci); G_(Si); G_(vi); G_(wi); G_(Af); G_(Sf); G_(vf);
    G_(ss.A); G_(ss.B); G_(ss.C); G_(ss.D); G_(ds.A); G_(ds.B); G_(ds.C); G_(ds.D); G_(x0);
    for (auto &u : U) G_(u);
}
void In::relocate(uint64_t sd)
{
    Rng r(sd);
    std::vector<std::function<void()>> all;
    auto add = [&](auto &x) {
        all.push_back([&x] {
            std::remove_reference_t<decltype(x)> t(x);
            x = std::move(t);
        });
    };
    add(A); add(B); add(C); add(S); add(S2); add(R); add(K); add(v); add(w); add(z);
    add(Ac); add(Bc); add(Cc); add(Sc); add(vc); add(wc);
    add(Ai); add(Bi); add(Ci); add(Si); add(vi); add(wi); add(Af); add(Sf); add(vf);
    add(ss.A); add(ss.B); add(ss.C); add(ss.D); add(ds.A); add(ds.B); add(ds.C); add(ds.D); add(x0);
    for (auto &u : U) add(u);
    for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[r.below(i)]);
    for (auto &f : all) f();
}
uint64_t In::digest() const
{
    Dig d;
    d.add(A); d.add(B); d.add(C); d.add(S); d.add(S2); d.add(R); d.add(K);
    d.add(v); d.add(w); d.add(z);
    d.add(Ac); d.add(Bc); d.add(Cc); d.add(Sc); d.add(vc); d.add(wc);
    d.add(Ai); d.add(Bi); d.add(Ci); d.add(Si); d.add(vi); d.add(wi);
    d.add(Af); d.add(Sf); d.add(vf); d.add(E); d.add(e);
    d.add(ss.A); d.add(ss.B); d.add(ss.C); d.add(ss.D);
    d.add(ds.A); d.add(ds.B); d.add(ds.C); d.add(ds.D); d.add(ds.sample_time);
    d.add(U); d.add(x0);
    if (va_ok) d.add(Matrix<double>(va()));
    if (vs_ok) d.add(Matrix<double>(vs()));
    return d.h;
}

size_t cat_small = 5;
int cat_count() { return n_cat_a + n_cat_b + n_cat_c + n_cat_d + n_cat_e; }
const CatOp &cat_op(int i)
{
    int n = cat_count();
    i = ((i % n) + n) % n;
    if (i < n_cat_a) return cat_a[i];
    i -= n_cat_a;
    if (i < n_cat_b) return cat_b[i];
    i -= n_cat_b;
    if (i < n_cat_c) return cat_c[i];
    i -= n_cat_c;
    if (i < n_cat_d) return cat_d[i];
    return cat_e[i - n_cat_d];
}
Out cat_run(int op, const In &in, uint64_t seed)
{
    (void)seed;
    Dig d;
    const CatOp &o = cat_op(op);
    rt::context("%s%s", o.name, in.wild ? " (operands of unrelated shapes)" : "");
    int e = in_library([&] { o.fn(in, d); });
    if (e == RETURNED && d.stream_failed) e = STREAM_FAILED;
    return Out{ d.h, e };
}
Out cat_run_long(int op, size_t n, uint64_t seed)
{
    Dig d;
    const LongOp &o = cat_l[op % n_cat_l];
    rt::context("%s of %zu", o.name, n);
    int e = in_library([&] { o.fn(n, seed, d); });
    if (e == RETURNED && d.stream_failed) e = STREAM_FAILED;
    return Out{ d.h, e };
}
