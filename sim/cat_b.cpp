// Catalogue, part 2: utility functions and views.
#include "cat.hpp"
using namespace malg;
#define OP_DROPPED(n, ...) static void n(const In &, Dig &d) { d.raw(0); } // does not compile against the present tree
#define OP(n, ...) static void n(const In &in, Dig &d) { (void)in; (void)d; __VA_ARGS__ }
static size_t hi(size_t n) { return n ? n - 1 : 0; }

OP(eye_, ADD(utility::eye<double>(in.A.rows(), in.A.cols(), 2.)); ADD(utility::identity<double>(in.S.rows(), 1.));)
OP(zeros_ones, ADD(utility::zeros<double>(in.A.rows(), in.A.cols())); ADD(utility::ones<double>(in.A.rows(), in.A.cols())); ADD(utility::zeros<double>(in.v.size())); ADD(utility::ones<int>(in.v.size()));)
OP(diag_, ADD(utility::diag(in.A)); ADD(utility::diag(in.v));)
OP(to_matrix_, ADD(utility::to_matrix(in.v, true)); ADD(utility::to_matrix(in.v, false));)
OP(to_vector_, ADD(utility::to_vector(in.A)); ADD(utility::ravel(in.A)); ADD(utility::ravel(in.S));)
OP(vstack_, ADD(utility::vstack(in.A, in.B)); ADD(utility::vstack(in.A, in.Bi));)
OP(hstack_, ADD(utility::hstack(in.A, in.B)); ADD(utility::hstack(in.A, in.Bi));)
OP(vstack_bad, ADD(utility::vstack(in.A, in.S));)
OP(hstack_bad, ADD(utility::hstack(in.A, in.S));)
OP(concat, ADD(utility::concatenate(in.v, in.z)); ADD(utility::concatenate(in.v, in.vi)); ADD(utility::concatenate(in.e, in.v));)
OP(extract_, ADD(utility::extract(in.A, 0, 2, 0, 2)); ADD(utility::extract(in.A)); ADD(utility::extract(in.A, hi(in.A.rows()), 99, hi(in.A.cols()), 99));)
OP(extract_beyond, ADD(utility::extract(in.A, in.A.rows() + 1, in.A.rows() + 3, 0, 2));)
OP(extract_beyond_col, ADD(utility::extract(in.A, 0, 2, in.A.cols() + 2, in.A.cols() + 5));)
OP(extract_bad, ADD(utility::extract(in.A, 2, 1, 0, 1));)
OP(extract_col, ADD(utility::extract_column(in.A, hi(in.A.cols()))); ADD(utility::extract_column(in.S, 0, hi(in.S.rows())));)
OP(extract_col_beyond, ADD(utility::extract_column(in.A, 0, in.A.rows() + 2, in.A.rows() + 4));)
OP(extract_col_bad, ADD(utility::extract_column(in.A, in.A.cols()));)
OP(extract_row_, ADD(utility::extract_row(in.A, hi(in.A.rows()))); ADD(utility::extract_row(in.S, 0, hi(in.S.cols())));)
OP(extract_row_beyond, ADD(utility::extract_row(in.A, 0, in.A.cols() + 2, in.A.cols() + 4));)
OP(extract_row_bad, ADD(utility::extract_row(in.A, in.A.rows()));)
OP(swaps, Matrix<double> m(in.A); if (!m.empty()) { utility::swap_rows(m, 0, m.rows() - 1); ADD(m); utility::swap_cols(m, 0, m.cols() - 1); ADD(m); utility::swap_rows(m, 0, m.rows() - 1, 1, 2); ADD(m); })
OP(remove_row_, Matrix<double> m(in.A); utility::remove_row(m, 0); ADD(m); utility::remove_row(m, hi(m.rows())); ADD(m);)
OP(remove_col_, Matrix<double> m(in.A); utility::remove_column(m, 0); ADD(m); utility::remove_column(m, hi(m.cols())); ADD(m);)
OP(remove_bad, Matrix<double> m(in.A); utility::remove_row(m, m.rows()); ADD(m);)
OP(remove_bad2, Matrix<double> m(in.A); utility::remove_column(m, m.cols()); ADD(m);)
OP(shape_preds, ADD(utility::is_square(in.A)); ADD(utility::is_column_vector(in.K)); ADD(utility::is_row_vector(in.R)); ADD(utility::is_symmetric(in.S)); ADD(utility::is_skew_symmetric(in.S)); ADD(utility::is_diagonal(in.S)); ADD(utility::is_lower_triangular(in.S)); ADD(utility::is_upper_triangular(in.S));)
OP(inner, Vector<double> q(in.v); ADD(utility::inner_product(q.begin(), q.end(), q.begin(), 1.)); ADD(utility::accumulate(q.begin(), q.end(), 2.));)
OP(linspace_, ADD(utility::linspace(0., 5., 7u)); ADD(utility::linspace(5., -1., 4u)); ADD(utility::linspace(1., 1., 3u)); ADD(utility::linspace(1., 2., 0u));)
OP(logspace_, ADD(utility::logspace(0., 2., 5)); ADD(utility::logspace(2., 0., 3)); ADD(utility::logspace(1., 2., 1));)
OP(basis_, ADD(utility::basis<double>()); ADD(utility::basis<float>());)
OP(find_, ADD(utility::flatnonzero(in.A)); ADD(utility::find(in.A)); ADD(utility::find(in.R)); ADD(utility::find(in.Ai));)
OP(resize_fn, Matrix<double> m(in.A); utility::resize(m, 2, 5); ADD(m);)
OP(view_read, if (in.va_ok) { ADD(Matrix<double>(in.va())); ADD(in.va() + in.va()); ADD(linalg::transpose(in.va())); ADD(square_norm(in.va())); ADD(utility::ravel(in.va())); })
OP(view_mul, if (in.va_ok) { ADD(in.va() * linalg::transpose(in.va())); ADD(in.va() * 2.); ADD(in.va() == in.va()); })
OP(view_det, if (in.vs_ok) { ADD(linalg::determinant(in.vs())); ADD(linalg::inverse(in.vs())); })
OP(view_dot, if (in.va_ok) { Vector<double> q(in.va().cols(), 1.5); ADD(dot(in.va(), q)); ADD(in.va() * q); })
OP(view_of_const, const Matrix<double> &m = in.S; if (!m.empty()) { auto q = m({ 0, 2 }, Range::all()); ADD(Matrix<double>(q)); auto r = utility::row(m, m.rows() - 1); ADD(Matrix<double>(r)); auto c = utility::col(m, m.cols() - 1); ADD(Matrix<double>(c)); auto w = utility::view(m, 0, 1); ADD(Matrix<double>(w)); })
OP(view_write, Matrix<double> m(in.S); if (!m.empty()) { View<Matrix<double>> q(&m, 0, 1); q *= 2.; ADD(m); q += q; ADD(m); auto c = utility::col(m, m.cols() - 1); c /= 4.; ADD(m); View(&m, 0, -1, 0, -1) = in.S; ADD(m); })
OP(view_assign_list, Matrix<double> m(in.A); m.resize(3, 3); View<Matrix<double>> q(&m, 1, 3, 0, 2); q = { { 1., 2. }, { 3., 4. } }; ADD(m); q = { { 1. } }; ADD(m);)
OP(view_of_view, Matrix<double> m(in.S); if (m.rows() > 1) { View<Matrix<double>> q(&m, 1, 9, 0, 9); View<View<Matrix<double>>> r(&q, 0, 1, 0, 9); ADD(Matrix<double>(r)); r *= 3.; ADD(m); })
OP(self_from_view, Matrix<double> m(in.A); if (m.rows() > 1) { m = View<Matrix<double>>(&m, 1, 9, 0, 9); ADD(m); })
OP(cofview, if (in.A.rows() > 1 && in.A.cols() > 1) { CofactorView<const Matrix<double>> q(&in.A, 0, 1); ADD(Matrix<double>(q)); ADD(q + q); ADD(utility::ravel(q)); })
OP(cofview_write, Matrix<double> m(in.S); if (m.rows() > 1) { CofactorView<Matrix<double>> q(&m, 1, 0); q *= 2.; ADD(m); })
OP(const_iter, double s = 0; for (auto x : in.A) s += x; for (auto x : in.v) s += x; ADD(s); ADD(in.A.data() == in.A.begin()); for (size_t r = 0; r < in.A.rows(); ++r) for (size_t c = 0; c < in.A.cols(); ++c) { ADD(in.A(r, c)); ADD(in.A.at(r, c)); ADD(in.A[r * in.A.cols() + c]); })
OP(rand_m, { rt::OutScope o; rt::entropy_reset(in.seed); } ADD(utility::rand_matrix<double>(3, 4, -1, 1)); ADD(utility::rand_matrix<int>(2, 2, -9, 9)); ADD(utility::rand_matrix<cd>(2, 2, 0, 1));)
OP(rand_v, { rt::OutScope o; rt::entropy_reset(in.seed); } ADD(utility::rand_vector<double>(5, -1, 1)); ADD(utility::rand_vector<int>(4, 0, 3)); ADD(utility::rand_vector<cd>(3, 0, 1)); ADD(utility::rand_vector<float>(3, 0, 1));)

const CatOp cat_b[] = {
#define E(n) { #n, n },
    E(eye_) E(zeros_ones) E(diag_) E(to_matrix_) E(to_vector_) E(vstack_) E(hstack_) E(vstack_bad) E(hstack_bad) E(concat)
    E(extract_) E(extract_beyond) E(extract_beyond_col) E(extract_bad) E(extract_col) E(extract_col_beyond) E(extract_col_bad) E(extract_row_) E(extract_row_beyond) E(extract_row_bad)
    E(swaps) E(remove_row_) E(remove_col_) E(remove_bad) E(remove_bad2) E(shape_preds) E(inner) E(linspace_) E(logspace_) E(basis_) E(find_) E(resize_fn)
    E(view_read) E(view_mul) E(view_det) E(view_dot) E(view_of_const) E(view_write) E(view_assign_list) E(view_of_view) E(self_from_view) E(cofview) E(cofview_write) E(const_iter) E(rand_m) E(rand_v)
};
const int n_cat_b = sizeof cat_b / sizeof *cat_b;
double &cat_tol_b() { return malg::feq::tolerance(); } // each translation unit has its own
