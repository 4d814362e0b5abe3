// Catalogue, part 5: mixed element types, further overloads, larger operands.
#include "cat.hpp"
#include "malg/eigen.hpp"
#include <sstream>
using namespace malg;
#define OP_DROPPED(n, ...) static void n(const In &, Dig &d) { d.raw(0); } // does not compile against the present tree
#define OP(n, ...) static void n(const In &in, Dig &d) { (void)in; (void)d; __VA_ARGS__ }
typedef std::complex<float> cf;
template <class X> static Matrix<double> toM(const Matrix<X> &m) { return Matrix<double>(m); }
template <class X> static Vector<double> toV(const Vector<X> &v) { return Vector<double>(v); }
static cd wide(const cf &x) { return cd(x.real(), x.imag()); }

OP(cplx_scalars, if (!in.Ac.empty() && !in.A.empty()) { cd a = in.Ac[0]; cf b(1.5f, -2.f); int k = 3; double x = in.A[0]; ADD(a + b); ADD(a - b); ADD(a * b); ADD(a / b); ADD(a + k); ADD(a - k); ADD(a * k); ADD(a / k); ADD(k + a); ADD(k - a); ADD(k * a); if (a != cd(0)) ADD(k / a); ADD(wide(b + 2)); ADD(b * x); })
OP(cplx_mixed_ops, ADD(in.A + in.Ac); ADD(in.Ac - in.A); ADD(in.A - in.Bc); ADD(in.Ac * in.C); ADD(in.Ac * 2); ADD(in.Ac + 2); ADD(in.Ac - 2); ADD(in.Ac / 2); ADD(2 * in.Ac); ADD(in.Ac + 1.5); ADD(in.Ai + in.Ac);)
OP(cplx_mixed_vec, ADD(in.vc + in.v); ADD(in.v - in.vc); ADD(dot(in.Ac, in.v)); ADD(dot(in.A, in.vc)); ADD(in.vc + 2.); ADD(in.vc - cd(1, 1)); ADD(in.vc / cd(1, 1)); ADD(in.vc / 2.);)
OP(cplx_parts, ADD(malg::real(in.vc)); ADD(malg::imag(in.Ac)); ADD(malg::imag(in.vc)); ADD(malg::real(in.Ac)); ADD(malg::abs(in.Ac)); ADD(malg::abs(in.vc));)
OP(ewb, ADD(element_wise_binary_function(in.v, in.w, [](double a, double b) { return a * 2 + b; })); ADD(element_wise_binary_function(in.A, in.B, [](double a, double b) { return a * 2 + b; })); ADD(element_wise_function(in.A, [](double a) { return a + 1; })); ADD(element_wise_function(in.v, [](double a) { return a + 1; }));)
OP(cmp_bad, ADD(in.A != in.C); ADD(in.A < in.C); ADD(in.A <= in.C); ADD(in.A > in.C); ADD(in.A >= in.C); ADD(in.A == in.S); ADD(in.v != in.z); ADD(in.v == in.z); ADD(in.v - in.z); ADD(in.v * in.z); ADD(dot(in.v, in.z)); ADD(in.v + in.z);)
OP(cmp_int, ADD(in.Ai < in.Bi); ADD(in.Ai <= in.Bi); ADD(in.Ai > in.B); ADD(in.A >= in.Bi); ADD(in.vi == in.wi); ADD(in.vi != in.wi);)
OP(arith_bad, ADD(in.A - in.C); ADD(in.S + in.A); ADD(element_wise_product(in.A, in.C)); ADD(linear_combination(in.A, 1., in.S, 2.)); ADD(utility::compare(in.A, in.C)); ADD(utility::all_close(in.A, in.C)); ADD(utility::all_close(in.v, in.z)); ADD(projection(in.v, in.z)); ADD(utility::compare(in.v, in.z));)
OP(inplace_bad, Matrix<double> m(in.A); try { m += in.C; } catch (const std::invalid_argument &) { d.raw(1); } ADD(m); try { m -= in.S; } catch (const std::invalid_argument &) { d.raw(2); } ADD(m); Vector<double> q(in.v); try { q += in.z; } catch (const std::invalid_argument &) { d.raw(3); } ADD(q); try { q -= in.z; } catch (const std::invalid_argument &) { d.raw(4); } ADD(q);)
OP(linspaces, ADD(utility::linspace(1., 2., 1u)); ADD(utility::linspace(0., 1., 2u)); ADD(utility::linspace(-3., 3., 40u)); ADD(utility::logspace(0., 2., 0)); ADD(utility::logspace(1., 1., 3)); ADD(utility::logspace(-1., 1., 9));)
OP(finds, ADD(utility::find(in.A, 1)); ADD(utility::find(in.Ai, 2)); ADD(utility::flatnonzero(in.Ai)); ADD(utility::flatnonzero(in.S));)
OP(iters, double s = 0; for (auto i = in.v.cbegin(); i != in.v.cend(); ++i) s = s * .5 + *i; ADD(s); Vector<double> q(in.v); for (auto &x : q) x *= 2; ADD(q); Matrix<double> m(in.A); for (auto &x : m) x -= 1; ADD(m); ADD(in.v.data() == in.v.begin()); ADD(in.A.empty()); ADD(in.e.empty()); ADD(in.E.size());)
OP(view_to_view, Matrix<double> m(in.S); Matrix<double> q(in.S2); if (m.rows() > 1 && m.cols() > 1 && q.rows() > 1 && q.cols() > 1) { auto a = m(Range{ 0, 2 }, Range{ 0, 2 }); const Matrix<double> &cq = q; a = cq(Range{ 0, 2 }, Range{ 0, 2 }); ADD(m); a = q({ 0, 2 }, { 0, 2 }); ADD(m); if (m.cols() == q.cols()) { auto b = utility::row(m, 1); b = utility::row(q, 0); ADD(m); } auto c = utility::view(m, 0, 2, 1, 2); c = utility::view(q, 0, 2, 0, 1); ADD(m); })
OP(list_empty, Matrix<double> m(in.A); try { Matrix<double> q(std::initializer_list<std::initializer_list<double>>{}); ADD(q); } catch (const std::invalid_argument &) { d.raw(1); } try { Matrix<double> q(std::initializer_list<std::initializer_list<double>>{ {} }); ADD(q); } catch (const std::invalid_argument &) { d.raw(2); } ADD(m); m = std::initializer_list<std::initializer_list<double>>{}; ADD(m); m = std::initializer_list<std::initializer_list<double>>{ {} }; ADD(m); m = std::initializer_list<std::initializer_list<double>>{ {}, {} }; ADD(m); Vector<double> v(std::initializer_list<double>{}); ADD(v); Matrix<double> f(0, 3, std::initializer_list<double>{}); ADD(f); Matrix<double> w(in.A); w.resize(2, 2); View<Matrix<double>> q(&w, 0, 2, 0, 2); q = std::initializer_list<std::initializer_list<double>>{}; q = std::initializer_list<std::initializer_list<double>>{ {}, {} }; ADD(w);)
OP(others_int, Matrix<short> a(2, 3, 4); Matrix<unsigned long long> b(2, 3, 5); ADD(toM(a + a)); ADD(toM(b * 3ull)); Matrix<long double> l(in.A); ADD(toM(l + l)); ADD(toM(linalg::transpose(l))); Vector<long double> v(in.v); ADD(toV(v + v)); Matrix<bool> t(in.A == in.A); ADD(t); ADD(all(t)); ADD(any(t));)
OP(others_la, if (in.Sf.rows() <= cat_small) { ADD(linalg::inverse(in.Sf)); ADD(linalg::adjoint(in.Sf)); } ADD(linalg::determinant(in.Si)); ADD(linalg::powm(in.Sf, 4)); ADD(linalg::transpose(in.R)); ADD(linalg::transpose(in.E)); Matrix<double> one(1, 1, 4.); ADD(linalg::determinant(one)); ADD(linalg::inverse(one)); Matrix<double> two({ { 1., 2. }, { 3., 5. } }); ADD(linalg::inverse(two)); ADD(linalg::determinant(two)); ADD(linalg::adjoint(two)); ADD(linalg::lu_decomposition(two));)
OP(rounds, { rt::OutScope o; rt::entropy_reset(in.seed); } ADD(utility::rand_vector<float>(9, 1., 2.)); ADD(toV(utility::rand_vector<long double>(3, 1., 2.))); ADD(utility::rand_matrix<float>(4, 4, -2., 2.)); ADD(utility::rand_matrix<double>(7, 5, -2., 2.));)
OP(big_grow, Vector<double> q(in.v); q.resize(q.size() + 70); ADD(q); q.resize(9); ADD(q); q.resize(300); ADD(q); Matrix<double> m(in.A); m.resize(20, 20); ADD(m); m.resize(3, 40); ADD(m); m.reshape(40, 3); ADD(m);)
OP(big_mul, Matrix<double> a(in.A); Matrix<double> b(in.S); a.resize(17, 18); b.resize(18, 16); ADD(a * b); ADD(linalg::transpose(a)); ADD(a + a); ADD(dot(a, Vector<double>(18, 2.))); a *= 2.; ADD(a); ADD(utility::vstack(a, a)); ADD(utility::hstack(a, a)); ADD(utility::extract(a, 1, 17, 2, 18));)
OP(big_util, Matrix<double> a(in.A); a.resize(20, 9); utility::swap_rows(a, 0, 19); utility::swap_cols(a, 1, 8); ADD(a); utility::remove_row(a, 3); utility::remove_column(a, 4); ADD(a); ADD(utility::to_vector(a)); ADD(utility::ravel(a)); ADD(utility::diag(a)); ADD(square_norm(a)); ADD(infinity_norm(a)); ADD(utility::compare(a, a)); ADD(a == a); ADD(min(a)); ADD(max(a));)
OP(text_big, Matrix<double> a(in.A); a.resize(18, 12); std::ostringstream o; o.precision(6); o << a; ADD(o.str()); d.stream(o.good()); ADD(to_matlab("b", a)); ADD(dump_matrix("b", a));)
OP(text_types, std::ostringstream o; o << in.Ai << in.Ac << in.vf << in.vi << in.vc << in.Af << in.E << in.e; ADD(o.str()); d.stream(o.good()); ADD(to_matlab("i", in.Ai)); ADD(to_matlab("v", in.vc)); ADD(dump_vector("w", in.vi)); ADD(dump_matrix("c", in.Ac)); if (in.va_ok) { ADD(to_matlab("view", in.va())); ADD(dump_matrix("view", in.va())); })
OP(ctrl_more, ADD(control::poly(in.z)); ADD(control::poly(in.E)); Vector<double> p(4, 0.); p[2] = 3.; p[3] = 1.; ADD(control::polyreduce(p)); ADD(control::generate_input_zero(in.ds)); ADD(control::generate_state_zero(in.ss)); ADD(control::ctrb(in.S, in.K)); ADD(control::simulate_step(in.ds, in.z, in.v)); auto r = control::simulate(in.ds, in.U, .6, in.x0); ADD(std::get<0>(r)); ADD(std::get<1>(r)); ADD(std::get<2>(r));)
OP(move_mixed, Matrix<double> m(in.A); Matrix<double> q(std::move(m)); m = q; ADD(m); m = std::move(q); ADD(m); q = in.S; ADD(q); std::swap(m, q); ADD(m); ADD(q); Vector<double> v(in.v); Vector<double> w(std::move(v)); v = w; ADD(v); std::swap(v, w); ADD(w); v = Vector<double>(); ADD(v); v = in.vi; ADD(v); m = Matrix<double>(); ADD(m); m = static_cast<const MatrixBase<int> &>(in.Ai); ADD(m);)
OP(eigen_shift, ADD(eigen::wilkinson_shift(in.Sc)); try { ADD(eigen::wilkinson_shift(in.Ac)); } catch (const std::invalid_argument &) { d.raw(1); } try { ADD(eigen::wilkinson_shift(Matrix<cd>())); } catch (const std::invalid_argument &) { d.raw(2); } Matrix<cd> one(1, 1, cd(2, 1)); ADD(eigen::wilkinson_shift(one));)
OP(tol, ADD(in.A == in.A * 1.0000000001); ADD(feq::approximately_equal(1., 1. + 1e-7)); ADD(feq::approximately_equal_to_zero(1e-300)); ADD(feq::approximately_lesser_than_equal(1., 2.)); ADD(feq::approximately_greater_than_equal(1., 2.)); ADD(feq::tolerance());)

const CatOp cat_e[] = {
#define E(n) { #n, n },
    E(cplx_scalars) E(cplx_mixed_ops) E(cplx_mixed_vec) E(cplx_parts) E(ewb) E(cmp_bad) E(cmp_int) E(arith_bad) E(inplace_bad) E(linspaces) E(finds) E(iters) E(view_to_view) E(list_empty)
    E(others_int) E(others_la) E(rounds) E(big_grow) E(big_mul) E(big_util) E(text_big) E(text_types) E(ctrl_more) E(move_mixed) E(eigen_shift) E(tol)
};
const int n_cat_e = sizeof cat_e / sizeof *cat_e;
double &cat_tol_e() { return malg::feq::tolerance(); } // each translation unit has its own
