// The catalogue: every public operation of the library as a named function of
// an input bundle, producing a digest of everything it returned.
#pragma once
#include "lib.hpp"
#include <memory>

struct Dig {
    uint64_t h = 0;
    bool stream_failed = false;
    void raw(uint64_t v) { h = mix(h, v); }
    void add(double v) { raw(bits(v)); }
    void add(float v) { raw(bits(v)); }
    void add(int v) { raw(bits(v)); }
    void add(bool v) { raw(v); }
    void add(size_t v) { raw(v); }
    void add(int64_t v) { raw(bits(v)); }
    void add(const cd &v) { raw(bits(v)); }
    void add(const std::string &s)
    {
        rt::OutScope o;
        raw(hash_str(s));
    }
    template <class T>
    void add(const malg::Vector<T> &v)
    {
        rt::OutScope o;
        consistent(v, "result");
        raw(v.size() * 3 + 1);
        const T *p = v.data();
        for (size_t i = 0; i < v.size(); ++i) raw(bits(p[i]));
    }
    template <class T>
    void add(const malg::Matrix<T> &m)
    {
        rt::OutScope o;
        consistent(m, "result");
        raw(m.rows());
        raw(m.cols());
        const T *p = m.data();
        for (size_t i = 0; i < m.size(); ++i) raw(bits(p[i]));
    }
    template <class T>
    void add(const std::vector<T> &v)
    {
        raw(v.size());
        for (auto &x : v) add(x);
    }
    template <class A, class B>
    void add(const std::pair<A, B> &p)
    {
        add(p.first);
        add(p.second);
    }
    // stream results
    void stream(bool ok)
    {
        if (!ok) stream_failed = true;
        raw(ok);
    }
};

// One bundle of operands, a pure function of (seed, wild).  In wild mode the
// shapes do not fit one another.
struct In {
    bool wild;
    uint64_t seed;
    malg::Matrix<double> A, B, C, S, S2, R, K; // A,B: m x k, C: k x n, S,S2: n x n, R: 1 x n, K: n x 1
    malg::Vector<double> v, w, z;              // v,w: k, z: n
    malg::Matrix<cd> Ac, Bc, Cc, Sc;
    malg::Vector<cd> vc, wc;
    malg::Matrix<int> Ai, Bi, Ci, Si;
    malg::Vector<int> vi, wi;
    malg::Matrix<float> Af, Sf;
    malg::Vector<float> vf;
    malg::Matrix<double> E;                    // empty
    malg::Vector<double> e;
    malg::control::StateSpace<double> ss;
    malg::control::DiscreteStateSpace<double> ds;
    std::vector<malg::Vector<double>> U;
    malg::Vector<double> x0;
    typedef malg::View<const malg::Matrix<double>> Win;
    std::unique_ptr<const Win> VA, VS; // windows of A and S
    const Win &va() const { return *VA; }
    const Win &vs() const { return *VS; }
    In(uint64_t seed, bool wild, int style = -1, unsigned scale = 0);
    In(const In &) = delete;
    uint64_t digest() const;
    void vary(uint64_t seed, bool undo); // changes a few elements in place, or puts them back
    void relocate(uint64_t seed);        // gives the operands other addresses, in another order
    bool va_ok, vs_ok;
};
// An observation that may be rejected without ending the operation.
#define ADD(...) do { try { d.add(__VA_ARGS__); } catch (const std::invalid_argument &) { d.raw(7); } } while (0)
struct CatOp {
    const char *name;
    void (*fn)(const In &, Dig &);
};
extern const CatOp cat_a[], cat_b[], cat_c[], cat_d[], cat_e[];
extern const int n_cat_a, n_cat_b, n_cat_c, n_cat_d, n_cat_e;
double &cat_tol_a(), &cat_tol_b(), &cat_tol_c(), &cat_tol_d(), &cat_tol_e();
extern size_t cat_small; // the order up to which costly operations are performed
int cat_count();
const CatOp &cat_op(int i);

struct Out {
    uint64_t h;
    int ended;
    bool operator==(const Out &o) const { return h == o.h && ended == o.ended; }
};
// Operations on operands of n elements, for large n.
struct LongOp {
    const char *name;
    void (*fn)(size_t n, uint64_t seed, Dig &);
};
extern const LongOp cat_l[];
extern const int n_cat_l;
Out cat_run_long(int op, size_t n, uint64_t seed);
// Runs one catalogue operation.  The caller has built the bundle.
Out cat_run(int op, const In &in, uint64_t seed);
