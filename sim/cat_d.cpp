// Catalogue, part 4: control, text and file I/O.
#include "cat.hpp"
#include <sstream>
using namespace malg;
#define OP_DROPPED(n, ...) static void n(const In &, Dig &d) { d.raw(0); } // does not compile against the present tree
#define OP(n, ...) static void n(const In &in, Dig &d) { (void)in; (void)d; __VA_ARGS__ }

OP(c2d_, if (in.ss.A.rows() <= cat_small) { auto s = control::c2d(in.ss, 0.05); ADD(s.A); ADD(s.B); ADD(s.C); ADD(s.D); ADD(s.sample_time); })
OP(step_, ADD(control::simulate_step(in.ds, in.x0, in.U.empty() ? in.e : in.U[0]));)
OP(simulate_, auto [t, x, y] = control::simulate(in.ds, in.U, 1., in.x0); ADD(x); ADD(y); ADD(t.size());)
OP(simulate_odd, const double odd[] = { 0., -1., 1e300, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), .1 };
   for (double a : odd)
       for (double b : odd) {
           control::DiscreteStateSpace<double> q(in.ds);
           q.sample_time = a;
           try {
               auto [t, x, y] = control::simulate(q, in.U, b, in.x0);
               ADD(t);
               ADD(x.size());
           } catch (const std::invalid_argument &) { d.raw(9); }
       })
OP(c2d_odd, if (in.ss.A.rows() <= cat_small) for (double a : { 0., -1., 1e6, 1e-300, std::numeric_limits<double>::quiet_NaN() }) { try { auto s = control::c2d(in.ss, a); ADD(s.A); ADD(s.B); } catch (const std::invalid_argument &) { d.raw(9); } })
OP(ctrb_, ADD(control::ctrb(in.ss.A, in.ss.B));)
OP(ctrb_bad, if (in.A.rows() <= 8) ADD(control::ctrb(in.A, in.B));)
OP(poly_v, ADD(control::poly(in.v)); ADD(control::poly(in.R)); ADD(control::poly(in.E)); ADD(control::polyreduce(in.v)); ADD(control::polyreduce(in.e));)
OP(poly_m, ADD(control::poly(in.S));)
OP(poly_bad, ADD(control::poly(in.A));)
OP(acker_, const size_t n = in.ss.A.rows(); if (!in.wild && n >= 1 && n <= 3) {
    Matrix<double> A(n, n, 0.), b(n, 1, 0.), p(1, n, 0.);
    for (size_t i = 0; i + 1 < n; ++i) A(i, i + 1) = 1.;
    for (size_t i = 0; i < n; ++i) { A(n - 1, i) = in.ss.A(0, i); p[i] = -1. - static_cast<double>(i); }
    b(n - 1, 0) = 1.;
    ADD(control::acker(A, b, p)); })
OP(acker_any, if (in.S.rows() <= cat_small && in.S.cols() <= cat_small) { ADD(control::acker(in.S, in.K, in.R)); ADD(control::acker(in.S, in.R, in.K)); ADD(control::acker(in.S, in.K, in.E)); Matrix<double> b(in.S.rows(), 1, 0.); ADD(control::acker(in.S, b, in.R)); })
OP(ss_copy, control::StateSpace<double> s(in.ss); ADD(s.A); control::DiscreteStateSpace<double> q(in.ds); ADD(q.B); q = in.ds; ADD(q.C); control::DiscreteStateSpace<double> r(in.A, in.B, in.C, in.S, .5); ADD(r.D); ADD(control::generate_input_zero(in.ss)); ADD(control::generate_state_zero(in.ds));)

template <class X>
static void text(const X &x, Dig &d, int prec)
{
    std::ostringstream o;
    o.precision(prec);
    o << x;
    d.add(o.str());
    d.stream(o.good());
}
OP(text_m, text(in.A, d, 6); text(in.Ac, d, 3); text(in.Ai, d, 6);)
OP(text_v, text(in.v, d, 9); text(in.vc, d, 4); text(in.vi, d, 6); text(in.e, d, 6);)
OP(text_ss, text(in.ss, d, 5); text(in.ds, d, 5);)
OP(text_view, if (in.va_ok) text(in.va(), d, 6); text(Range{ 1, 5 }, d, 6);)
OP(dump_, ADD(dump_matrix("m", in.A)); ADD(dump_vector("v", in.v)); ADD(dump_matrix("c", in.Ac));)
OP(matlab_, ADD(to_matlab("m", in.A)); ADD(to_matlab("v", in.v)); ADD(to_matlab("c", in.Ac));)
static std::string path()
{
    rt::OutScope o;
    return "/simdisk/t" + std::to_string(rt::self_tid() + 1);
}
template <class X>
static void save(const X &x, Dig &d, int prec)
{
    std::ofstream f(path());
    f.precision(prec);
    f << x;
    f.close();
    d.stream(f.good());
    rt::OutScope o;
    std::string s = rt::disk_get(path());
    if (f.good()) d.add(s);
}
OP(save_m, save(in.A, d, 17); save(in.Ac, d, 9); save(in.E, d, 6);)
OP(save_v, save(in.v, d, 17); save(in.vi, d, 6); save(in.vc, d, 17);)
template <class X>
static void load(const std::string &txt, X x, Dig &d)
{
    { rt::OutScope o; rt::disk_put(path(), txt); }
    std::ifstream f(path());
    f >> x;
    d.stream(!f.fail());
    d.add(x);
}
OP(load_m, load("M 2 3\n1 2.5 3\n4 5 -6e3\n", Matrix<double>(in.A), d); load("M 2 2\n1 2\n3 4\n", Matrix<int>(in.Ai), d); load("M 1 2\n(1,2) (3,4)\n", Matrix<cd>(in.Ac), d);)
OP(load_v, load("V 4\n1 2.5 3 9\n", Vector<double>(in.v), d); load("V 2\n1 2\n", Vector<int>(in.vi), d);)
static void load_fails(const char *txt, Dig &d)
{
    { rt::OutScope o; rt::disk_put(path(), txt); }
    Matrix<double> m(2, 2, 1.5);
    std::ifstream f(path());
    f >> m;
    d.add(f.fail());
    Vector<double> v(2, 1.5);
    std::ifstream g(path());
    g >> v;
    d.add(g.fail());
    d.raw(1);
}
OP(load_bad, load_fails("M 2 3\n1 2.5 3\n4 ", d); load_fails("", d); load_fails("Q 1 1\n1\n", d); load_fails("V 5\n1 2 x\n", d); load_fails("M 3", d);)

const CatOp cat_d[] = {
#define E(n) { #n, n },
    E(c2d_) E(step_) E(simulate_) E(simulate_odd) E(c2d_odd) E(ctrb_) E(ctrb_bad) E(poly_v) E(poly_m) E(poly_bad) E(acker_) E(acker_any) E(ss_copy)
    E(text_m) E(text_v) E(text_ss) E(text_view) E(dump_) E(matlab_) E(save_m) E(save_v) E(load_m) E(load_v) E(load_bad)
};
const int n_cat_d = sizeof cat_d / sizeof *cat_d;
double &cat_tol_d() { return malg::feq::tolerance(); } // each translation unit has its own
