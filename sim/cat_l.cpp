// Catalogue, part 6: operations on long operands (work and stack use by size).
#include "cat.hpp"
#include <sstream>
using namespace malg;
#define OP_DROPPED(x, ...) static void x(size_t, uint64_t, Dig &d) { d.raw(0); } // does not compile against the present tree
#define OP(x, ...) static void x(size_t n, uint64_t seed, Dig &d) { (void)n; (void)seed; (void)d; __VA_ARGS__ }
template <class T>
static Vector<T> fresh(size_t n, uint64_t seed)
{
    Vector<T> v(n, T(0));
    for (size_t i = 0; i < n; ++i) v[i] = T(static_cast<int>((i * 7 + seed) % 19) - 9);
    return v;
}
template <class T>
static Matrix<T> table(size_t m, size_t n, uint64_t seed)
{
    Matrix<T> a(m, n, T(0));
    for (size_t i = 0; i < a.size(); ++i) a[i] = T(static_cast<int>((i * 5 + seed) % 17) - 8);
    return a;
}
static std::string path() { return "/simdisk/l"; }
template <class X>
static void round_trip(const X &x, Dig &d)
{
    {
        std::ofstream f(path());
        f << x;
    }
    X y;
    std::ifstream g(path());
    g >> y;
    d.stream(!g.fail());
    d.add(y);
    std::ostringstream o;
    o << x;
    d.add(o.str());
}
template <class X>
static void load(const std::string &t, Dig &d)
{
    { rt::OutScope o; rt::disk_put(path(), t); }
    X y;
    std::ifstream g(path());
    g >> y;
    d.raw(g.fail());
}
OP(long_vector, auto v = fresh<double>(n, seed); auto w = fresh<double>(n, seed + 1); d.add(v + w); d.add(v - w); d.add(v * w); d.add(v * 2.); d.add(dot(v, w)); v += w; v -= w; d.add(v + 1.); d.add(v / 2.);)
OP(long_reduce, auto v = fresh<double>(n, seed); d.add(sum(v)); d.add(malg::min(v)); d.add(malg::max(v)); d.add(square_norm(v)); d.add(infinity_norm(v)); d.add(malg::abs(v)); d.add(element_wise_function(v, [](double x) { return x * x; })); d.add(projection(v, fresh<double>(n, 3)));)
OP(long_compare, auto v = fresh<double>(n, seed); Vector<double> w(v); d.add(all(v == w)); d.add(any(v != w)); d.add(all(v)); d.add(any(Vector<double>(n, 0.))); d.add(utility::all_close(v, w)); d.add(utility::compare(v, w));)
OP(long_container, auto v = fresh<int>(n, seed); Vector<int> w(v); w = v; w = Vector<int>(v); w.resize(n / 2); w.resize(n + 9); d.add(w); d.add(utility::concatenate(v, w)); Vector<double> x(v); d.add(x); Vector<int> z(std::move(v)); std::swap(z, w); d.add(z); d.add(w);)
OP(long_text, auto v = fresh<double>(n / 4, seed); round_trip(v, d); d.add(to_matlab("v", v)); d.add(dump_vector("v", v));)
OP(long_matrix_text, auto m = table<double>(n / 8, 2, seed); round_trip(m, d); d.add(to_matlab("m", m)); d.add(dump_matrix("m", m));)
OP(long_row_text, auto m = table<int>(2, n / 8, seed); round_trip(m, d);)
OP(long_junk, std::string t; { rt::OutScope s; t = std::string(n, ' ') + std::string(n, '\n') + (seed % 2 ? "V " : "# # # ") + std::string(n, seed % 3 ? '#' : '\t'); } load<Matrix<double>>(t, d); load<Vector<double>>(t, d);)
OP(long_short_file, std::string t; { rt::OutScope s; t = "V " + std::to_string(n); for (size_t k = 0; k + 5 < n; ++k) t += " 1"; } load<Vector<double>>(t, d);)
OP(long_polyreduce, Vector<double> v(n, 0.); v[n - 1] = 1.; d.add(control::polyreduce(v)); v[n - 1] = 0.; d.add(control::polyreduce(v)); v[0] = 1.; d.add(control::polyreduce(v));)
OP(long_poly, auto v = Vector<double>(n / 64, .5); d.add(control::poly(v)); Matrix<double> m(1, n / 64, .25); d.add(control::poly(m));)
OP(long_power, Matrix<double> a({ { .5, .25 }, { .125, .5 } }); d.add(linalg::powm(a, n / 2));)
OP(long_simulate, control::DiscreteStateSpace<double> s({ { .5 } }, { { 1. } }, { { 1. } }, { { 0. } }, 1.); std::vector<Vector<double>> u(n / 10, Vector<double>(1, 1.)); auto r = control::simulate(s, u, static_cast<double>(n), Vector<double>(1, 0.)); d.add(std::get<0>(r)); d.add(std::get<1>(r)); d.add(std::get<2>(r)); )
OP(long_spaces, d.add(utility::linspace(0., 1., static_cast<unsigned>(n))); d.add(utility::logspace(0., 1., static_cast<unsigned>(n))); { rt::OutScope o; rt::entropy_reset(seed); } d.add(utility::rand_vector<double>(n, 0., 1.)); d.add(utility::rand_matrix<int>(n / 10, 10, 0, 9));)
OP(long_views, auto m = table<double>(2, n / 2, seed); auto v = m({ 0, 2 }, { 1, n / 2 }); d.add(Matrix<double>(v)); v = Matrix<double>(2, n / 2 - 1, 3.); d.add(m); auto r = utility::row(m, 1); r = utility::row(m, 0); d.add(m); d.add(malg::sum(utility::to_vector(m))); d.add(utility::extract_row(m, 1)); d.add(utility::extract(m, 0, 2, 1, n / 2)); d.add(m == m); CofactorView<Matrix<double>> c(&m, 0, 3); d.add(Matrix<double>(c));)
OP(long_stack, auto a = table<double>(n / 2, 2, seed); auto b = table<double>(n / 2, 2, seed + 1); d.add(utility::vstack(a, b)); d.add(utility::hstack(a, b)); utility::swap_rows(a, 0, n / 2 - 1); utility::swap_cols(a, 0, 1); utility::remove_row(a, 1); utility::remove_column(a, 0); d.add(a); d.add(linalg::transpose(b)); b.reshape(2, n / 2); d.add(b); d.add(utility::ravel(b)); b.resize(n / 2, 3); d.add(b);)
OP(long_arith, auto a = table<double>(n / 4, 4, seed); auto b = table<double>(n / 4, 4, seed + 1); d.add(a + b); d.add(a - b); d.add(a * 2.); d.add(element_wise_product(a, b)); d.add(a * table<double>(4, 4, 1)); a += b; a -= b; a *= 2.; a /= 4.; d.add(a); d.add(dot(a, Vector<double>(4, 1.))); d.add(square_norm(a)); d.add(infinity_norm(a)); d.add(malg::min(a)); d.add(malg::max(a));)
OP(long_find, auto a = table<int>(n / 8, 2, seed); d.add(utility::find(a)); d.add(utility::flatnonzero(a)); d.add(all(a)); d.add(any(a)); d.add(utility::find(a, 3, false));)
OP(long_complex, auto v = fresh<cd>(n, seed); auto w = fresh<cd>(n, seed + 2); d.add(v + w); d.add(v * w); d.add(v * cd(0, 1)); d.add(malg::real(v)); d.add(malg::abs(w)); )
OP(long_square, size_t k = 4; while (k * k * k < n) ++k; auto a = table<double>(k, k, seed); for (size_t i = 0; i < k; ++i) a(i, i) += 40.; d.add(linalg::determinant(a)); d.add(linalg::lu_decomposition(a)); d.add(a * a); d.add(trace(a)); d.add(utility::is_symmetric(a)); d.add(utility::is_diagonal(a)); d.add(utility::is_upper_triangular(a)); d.add(utility::diag(a));)
OP(long_norms, auto m = table<float>(n / 4, 3, seed); d.add(malg::abs(m)); d.add(!all(m)); Matrix<float> k(m); d.add(utility::compare(m, k)); d.add(utility::all_close(m, k)); d.add(vector_length(m, 1, 0, m.rows() - 1));)

const LongOp cat_l[] = {
#define E(x) { #x, x },
    E(long_vector) E(long_reduce) E(long_compare) E(long_container) E(long_text) E(long_matrix_text) E(long_row_text) E(long_junk) E(long_short_file) E(long_polyreduce) E(long_poly) E(long_power)
    E(long_simulate) E(long_spaces) E(long_views) E(long_stack) E(long_arith) E(long_find) E(long_complex) E(long_square) E(long_norms)
};
const int n_cat_l = sizeof cat_l / sizeof *cat_l;
