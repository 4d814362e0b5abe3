// Catalogue, part 3: linear algebra (double, complex, int).
#include "cat.hpp"
using namespace malg;
#define OP_DROPPED(n, ...) static void n(const In &, Dig &d) { d.raw(0); } // does not compile against the present tree
#define OP(n, ...) static void n(const In &in, Dig &d) { (void)in; (void)d; __VA_ARGS__ }
template <class T>
static bool small(const Matrix<T> &m) { return m.rows() <= cat_small; }

OP(transpose_, ADD(linalg::transpose(in.A)); ADD(linalg::transpose(in.Ai));)
OP(powm_, ADD(linalg::powm(in.S, 3)); ADD(linalg::powm(in.S, 0));)
OP(powm_bad, ADD(linalg::powm(in.A, 2));)
OP(cofactor_, if (in.S.rows() > 1 && in.S.cols() > 1) ADD(linalg::cofactor(in.S, 0, 1)); if (in.A.rows() > 1 && in.A.cols() > 1) ADD(linalg::cofactor(in.A, 1, 0));)
OP(det_, ADD(linalg::determinant(in.S)); ADD(linalg::determinant(in.S2));)
OP(det_bad, ADD(linalg::determinant(in.A));)
OP(det_big, Matrix<double> m(in.S); m.resize(6, 6); for (size_t i = 0; i < 6; ++i) m(i, i) += 3. + static_cast<double>(i); ADD(linalg::determinant(m));)
OP(det_pivot, Matrix<double> m(in.S); m.resize(6, 6); for (size_t i = 0; i < 6; ++i) m(i, 5 - i) += 3. + static_cast<double>(i); m(0, 0) = 0; ADD(linalg::determinant(m));)
OP(adjoint_, if (small(in.S)) ADD(linalg::adjoint(in.S));)
OP(adjoint_bad, ADD(linalg::adjoint(in.A));)
OP(inverse_, if (small(in.S)) ADD(linalg::inverse(in.S));)
OP(inverse_singular, Matrix<double> m(3, 3, 1.); ADD(linalg::inverse(m));)
OP(inverse_bad, ADD(linalg::inverse(in.A));)
OP(inverse_int, if (small(in.Si)) ADD(linalg::inverse(in.Si));)
OP(lu_, ADD(linalg::lu_decomposition(in.S));)
OP(lu_bad, ADD(linalg::lu_decomposition(in.A));)
OP(div_, if (small(in.S)) ADD(linalg::div(in.A, in.S)); if (small(in.S)) ADD(linalg::div(in.S2, in.S));)
OP(expm_, if (small(in.S)) { Matrix<double> m = in.S * .25; ADD(linalg::expm(m, 1e-05)); })
OP(expm_bad, if (small(in.A)) ADD(linalg::expm(in.A, 1e-05));)
OP(expm_acc, if (small(in.S)) { Matrix<double> m = in.S * .25; for (double a : { 0., -1., 1e9, 1e-300, std::numeric_limits<double>::quiet_NaN() }) ADD(linalg::expm(m, a)); })
OP(exp_, ADD(linalg::exp(in.A));)
OP(factorial_, ADD(linalg::factorial(6)); ADD(linalg::factorial(5.));)
OP(cplx_arith, ADD(in.Ac + in.Bc); ADD(in.Ac - in.Bc); ADD(in.Ac * in.Cc); ADD(in.Ac * cd(1, 2)); ADD(in.Ac / cd(1, 2)); ADD(in.Ac == in.Bc); ADD(in.Ac != in.Bc);)
OP(cplx_mixed, ADD(in.Ac + in.A); ADD(in.A * in.Cc);)
OP(cplx_assign, Matrix<cd> m(in.Ac); m += in.Bc; ADD(m); m -= in.Ac; ADD(m); m *= cd(0, 1); ADD(m); Matrix<cd> q(in.A); ADD(q); q = in.Ac; ADD(q); q = std::move(m); ADD(q);)
OP(cplx_vec, ADD(in.vc + in.wc); ADD(in.vc - in.wc); ADD(in.vc * in.wc); ADD(dot(in.vc, in.wc)); ADD(dot(in.Ac, in.vc)); ADD(in.vc * 2.); ADD(in.vc == in.wc);)
OP(cplx_transpose, ADD(linalg::transpose(in.Ac)); ADD(linalg::conjugate_transpose(in.Ac));)
OP(cplx_det, if (small(in.Sc)) { ADD(linalg::determinant(in.Sc)); ADD(linalg::adjoint(in.Sc)); })
OP(cplx_inv, if (small(in.Sc)) ADD(linalg::inverse(in.Sc));)
OP(cplx_lu, ADD(linalg::lu_decomposition(in.Sc)); ADD(linalg::powm(in.Sc, 2));)
OP(cplx_real, ADD(malg::real(in.Ac)); ADD(malg::imag(in.vc));)
OP(cplx_util, ADD(utility::hstack(in.Ac, in.Bc)); ADD(utility::vstack(in.Ac, in.Bc)); ADD(utility::extract(in.Ac, 0, 1, 0, 1)); ADD(utility::concatenate(in.vc, in.wc)); ADD(utility::to_matrix(in.vc, true)); Matrix<cd> m(in.Ac); m.resize(3, 3); ADD(m); utility::remove_row(m, 1); ADD(m);)
OP(int_util, ADD(utility::hstack(in.Ai, in.Bi)); ADD(utility::diag(in.Ai)); ADD(utility::extract_row(in.Ai, 0)); Matrix<int> m(in.Ai); m.resize(4, 2); ADD(m); utility::remove_column(m, 1); ADD(m); ADD(linalg::powm(in.Si, 2)); ADD(linalg::determinant(in.Si));)
OP(float_la, if (small(in.Sf)) { ADD(linalg::transpose(in.Sf)); ADD(linalg::determinant(in.Sf)); ADD(linalg::powm(in.Sf, 2)); })

const CatOp cat_c[] = {
#define E(n) { #n, n },
    E(transpose_) E(powm_) E(powm_bad) E(cofactor_) E(det_) E(det_bad) E(det_big) E(det_pivot) E(adjoint_) E(adjoint_bad) E(inverse_) E(inverse_singular) E(inverse_bad) E(inverse_int)
    E(lu_) E(lu_bad) E(div_) E(expm_) E(expm_bad) E(expm_acc) E(exp_) E(factorial_)
    E(cplx_arith) E(cplx_mixed) E(cplx_assign) E(cplx_vec) E(cplx_transpose) E(cplx_det) E(cplx_inv) E(cplx_lu) E(cplx_real) E(cplx_util) E(int_util) E(float_la)
};
const int n_cat_c = sizeof cat_c / sizeof *cat_c;
double &cat_tol_c() { return malg::feq::tolerance(); } // each translation unit has its own
