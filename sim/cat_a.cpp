// Catalogue, part 1: construction, element-wise arithmetic, comparisons (double, int, mixed).
#include "cat.hpp"
using namespace malg;
#define OP_DROPPED(n, ...) static void n(const In &, Dig &d) { d.raw(0); } // does not compile against the present tree
#define OP(n, ...) static void n(const In &in, Dig &d) { (void)in; (void)d; __VA_ARGS__ }

OP(mat_copy, Matrix<double> m(in.A); ADD(m);)
OP(mat_copy_assign, Matrix<double> m(in.C); m = in.A; ADD(m);)
OP(mat_move, Matrix<double> m(in.A); Matrix<double> q(std::move(m)); ADD(q);)
OP(mat_move_assign, Matrix<double> m(in.A); Matrix<double> q(in.S); q = std::move(m); ADD(q);)
OP(mat_fill, Matrix<double> m(in.A.rows(), in.A.cols(), 2.5); ADD(m);)
OP(mat_list, Matrix<double> m({ { 1., 2., 3. }, { 4., 5., 6. } }); ADD(m); m = { { 7., 8. }, { 9., 1. }, { 2., 3. } }; ADD(m);)
OP(mat_stdvec, std::vector<double> q(6, 1.5); Matrix<double> m(2, 3, q); ADD(m);)
OP(mat_stdvec_short, std::vector<double> q(4, 1.5); Matrix<double> m(2, 3, q); ADD(m);)
OP(mat_list_short, Matrix<double> m(2, 3, { 1., 2. }); ADD(m);)
OP(reshape_over, Matrix<double> m; m.reshape(size_t(1) << 32, size_t(1) << 32); ADD(m);)
OP(mat_over, Matrix<double> m((size_t(1) << 33) + 1, size_t(1) << 31); ADD(m);)
OP(mat_from_int, Matrix<double> m(in.Ai); ADD(m);)
OP(mat_from_base, Matrix<double> m(static_cast<const MatrixBase<double> &>(in.A)); ADD(m);)
OP(vec_copy, Vector<double> q(in.v); ADD(q); Vector<double> r; r = q; ADD(r);)
OP(vec_move, Vector<double> q(in.v); Vector<double> r(std::move(q)); ADD(r); q = std::move(r); ADD(q);)
OP(vec_from_int, Vector<double> q(in.vi); ADD(q); Vector<double> r(3, 1.); r = in.vi; ADD(r);)
OP(vec_list, Vector<double> q({ 1., 2., 3., 4. }); ADD(q); Vector<double> r(2, { 5., 6. }); ADD(r);)
OP(vec_resize, Vector<double> q(in.v); q.resize(q.size() + 3); ADD(q); q.resize(2); ADD(q); q.resize(0); ADD(q); q.resize(in.w); ADD(q);)
OP(mat_resize, Matrix<double> m(in.A); m.resize(m.rows() + 2, m.cols()); ADD(m); m.resize(m.rows(), m.cols() + 1); ADD(m); m.resize(1, 2); ADD(m);)
OP(mat_reshape, Matrix<double> m(in.A); m.reshape(m.cols(), m.rows()); ADD(m); utility::reshape(m, m.rows() + 1, m.cols()); ADD(m);)
OP(add_mm, ADD(in.A + in.B);)
OP(sub_mm, ADD(in.A - in.B);)
OP(mul_mm, ADD(in.A *in.C);)
OP(mul_mm_mixed, ADD(in.A *in.Ci); ADD(in.Ai * in.C);)
OP(add_ms, ADD(in.A + 1.5);)
OP(sub_ms, ADD(in.A - 1.5);)
OP(mul_ms, ADD(in.A * 1.5);)
OP(mul_sm, ADD(1.5 * in.A);)
OP(div_ms, ADD(in.A / 1.5);)
OP(addassign_mm, Matrix<double> m(in.A); m += in.B; ADD(m);)
OP(subassign_mm, Matrix<double> m(in.A); m -= in.B; ADD(m);)
OP(mulassign_mm, Matrix<double> m(in.A); m *= in.S; ADD(m);)
OP(mulassign_mc, Matrix<double> m(in.A); m *= in.C; ADD(m);)
OP(mulassign_sq, Matrix<double> m(in.S); m *= in.S2; ADD(m);)
OP(mulassign_self, Matrix<double> m(in.S); m *= m; ADD(m);)
OP(mulassign_ms, Matrix<double> m(in.A); m *= 3.; ADD(m); m /= 4.; ADD(m);)
OP(eq_mm, ADD(in.A == in.B); ADD(in.A != in.B);)
OP(cmp_mm, ADD(in.A < in.B); ADD(in.A <= in.B); ADD(in.A > in.B); ADD(in.A >= in.B);)
OP(cmp_ms, ADD(in.A < .5); ADD(in.A <= .5); ADD(in.A > .5); ADD(in.A >= .5); ADD(in.A == .5); ADD(in.A != .5);)
OP(add_vv, ADD(in.v + in.w); ADD(in.v - in.w);)
OP(mul_vv, ADD(in.v *in.w);)
OP(vec_scalar, ADD(in.v + 1.5); ADD(in.v - 1.5); ADD(in.v * 1.5); ADD(in.v / 1.5);)
OP(addassign_vv, Vector<double> q(in.v); q += in.w; ADD(q); q -= in.v; ADD(q);)
OP(eq_vv, ADD(in.v == in.w); ADD(in.v != in.w); ADD(in.v == 1.); ADD(in.v != 1.);)
OP(mul_mv, ADD(in.A *in.v);)
OP(dot_mv, ADD(dot(in.A, in.v));)
OP(dot_vv, ADD(dot(in.v, in.w));)
OP(dot_mismatch, ADD(dot(in.S, in.v));)
OP(int_arith, ADD(in.Ai + in.Bi); ADD(in.Ai - in.Bi); ADD(in.Ai * in.Ci); ADD(in.Ai * 3); ADD(in.Ai == in.Bi); ADD(in.vi + in.wi); ADD(dot(in.vi, in.wi));)
OP(mixed_arith, ADD(in.A + in.Bi); ADD(in.Ai - in.B); ADD(in.v + in.vi); ADD(dot(in.Ai, in.v));)
OP(float_arith, ADD(in.Af + in.Af); ADD(in.Af * 2.f); ADD(in.Af + in.A); ADD(in.vf + in.vf);)
OP(elementwise, ADD(element_wise_product(in.A, in.B)); ADD(linear_combination(in.A, 2., in.B, -3.));)
OP(abs_m, ADD(malg::abs(in.A)); ADD(malg::abs(in.v));)
OP(projection_, ADD(projection(in.v, in.w));)
OP(sum_, ADD(malg::sum(in.v)); ADD(malg::sum(in.vi));)
OP(trace_, ADD(malg::trace(in.S)); ADD(malg::trace(in.A));)
OP(minmax, ADD(malg::min(in.v)); ADD(malg::max(in.v)); ADD(malg::min(in.A)); ADD(malg::max(in.A)); ADD(malg::min(in.e)); ADD(malg::max(in.E));)
OP(allany, ADD(malg::all(in.A)); ADD(malg::any(in.A)); ADD(malg::all(in.v)); ADD(malg::any(in.v)); ADD(malg::all(in.A == in.B));)
OP(norms, ADD(square_norm(in.v)); ADD(square_norm(in.A)); ADD(infinity_norm(in.v)); ADD(infinity_norm(in.A)); ADD(sub_norm(in.S));)
OP(sub_norm_any, ADD(sub_norm(in.A));)
OP(log2c, auto p = log2_ceil(in.S); ADD(p.first); ADD(static_cast<double>(p.second));)
OP(veclen, Matrix<double> m(in.A); if (m.cols()) ADD(vector_length(m, m.cols() - 1, 0, 99)););
OP(compare_, ADD(utility::compare(in.A, in.B)); ADD(utility::compare(in.v, in.w)); ADD(utility::compare(in.A, in.A));)
OP(allclose, ADD(utility::all_close(in.A, in.B)); ADD(utility::all_close(in.A, in.A)); ADD(utility::all_close(in.v, in.w));)
OP(eq_shape_mismatch, ADD(in.A == in.C);)
OP(add_shape_mismatch, ADD(in.A + in.S);)
OP(mul_shape_mismatch, ADD(in.C *in.A);)
OP(self_ops, Matrix<double> m(in.A); m += m; ADD(m); m -= m; ADD(m); m = m; ADD(m); Vector<double> q(in.v); q += q; ADD(q); Vector<double> &qq = q; q = qq; ADD(q);)
OP(chain, Matrix<double> m = (in.A + in.B) * in.C; Matrix<double> q = (m - m * .5) / 2.; ADD(m); ADD(q);)

const CatOp cat_a[] = {
#define E(n) { #n, n },
    E(mat_copy) E(mat_copy_assign) E(mat_move) E(mat_move_assign) E(mat_fill) E(mat_list) E(mat_stdvec) E(mat_stdvec_short) E(mat_list_short) E(reshape_over) E(mat_over) E(mat_from_int) E(mat_from_base)
    E(vec_copy) E(vec_move) E(vec_from_int) E(vec_list) E(vec_resize) E(mat_resize) E(mat_reshape)
    E(add_mm) E(sub_mm) E(mul_mm) E(mul_mm_mixed) E(add_ms) E(sub_ms) E(mul_ms) E(mul_sm) E(div_ms)
    E(addassign_mm) E(subassign_mm) E(mulassign_mm) E(mulassign_mc) E(mulassign_sq) E(mulassign_self) E(mulassign_ms)
    E(eq_mm) E(cmp_mm) E(cmp_ms) E(add_vv) E(mul_vv) E(vec_scalar) E(addassign_vv) E(eq_vv) E(mul_mv) E(dot_mv) E(dot_vv) E(dot_mismatch)
    E(int_arith) E(mixed_arith) E(float_arith) E(elementwise) E(abs_m) E(projection_) E(sum_) E(trace_) E(minmax) E(allany) E(norms) E(sub_norm_any)
    E(log2c) E(veclen) E(compare_) E(allclose) E(eq_shape_mismatch) E(add_shape_mismatch) E(mul_shape_mismatch) E(self_ops) E(chain)
};
const int n_cat_a = sizeof cat_a / sizeof *cat_a;
double &cat_tol_a() { return malg::feq::tolerance(); } // each translation unit has its own
