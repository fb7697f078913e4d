// G02: matrix expressions, determinants, inverses and LUP factorisation against the textbook formulas.
#include "g.h"
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/tensor/matrix_traits.hpp>
#include <geometrix/tensor/vector_matrix_adaptors.hpp>
#include <geometrix/tensor/matrix_minor_adaptor.hpp>
#include <geometrix/tensor/composite_matrix.hpp>
#include <geometrix/tensor/identity_matrix.hpp>
#include <geometrix/arithmetic/matrix_arithmetic.hpp>
#include <geometrix/arithmetic/matrix/trace.hpp>
#include <geometrix/algebra/lup_decomposition.hpp>
#include <geometrix/algorithm/rotation.hpp>
using namespace g;
template <std::size_t R, std::size_t C> using M = geometrix::matrix<double, R, C>;
template <std::size_t R, std::size_t C> static M<R, C> mat(const char* n) { M<R, C> m; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) m[i][j] = in(n + std::to_string(i) + std::to_string(j)); return m; }
template <std::size_t R, std::size_t C, class F> static void eq(const M<R, C>& m, F f, const char* l) { for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) CHECK_EQ(m[i][j], f(i, j), l); }
// determinant by cofactors along the first row, on plain arrays
static double odet(const std::vector<std::vector<double>>& a) { std::size_t n = a.size(); if (n == 1) return a[0][0]; double r = 0; for (std::size_t c = 0; c < n; ++c) { std::vector<std::vector<double>> s; for (std::size_t i = 1; i < n; ++i) { std::vector<double> w; for (std::size_t j = 0; j < n; ++j) if (j != c) w.push_back(a[i][j]); s.push_back(w); } double t = a[0][c] * odet(s); if (c % 2) r = r - t; else r = r + t; } return r; }
template <std::size_t N> static double odet(const M<N, N>& m) { std::vector<std::vector<double>> a(N, std::vector<double>(N)); for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) a[i][j] = m[i][j]; return odet(a); }
SX_REAL(sum, "any matrices of two and three rows and columns: sum, difference, negation") { auto a = mat<2, 3>("a"), b = mat<2, 3>("b"); M<2, 3> r; r <<= a + b; eq<2, 3>(r, [&](int i, int j) { return a[i][j] + b[i][j]; }, "sum"); r <<= a - b; eq<2, 3>(r, [&](int i, int j) { return a[i][j] - b[i][j]; }, "difference"); r <<= -a; eq<2, 3>(r, [&](int i, int j) { return -a[i][j]; }, "negate"); }
SX_REAL(scale, "any matrix and scalar") { auto a = mat<3, 2>("a"); double s = in("s"); M<3, 2> r; r <<= s * a; eq<3, 2>(r, [&](int i, int j) { return s * a[i][j]; }, "scalar-times-matrix"); ASSUME(s != 0); r <<= a / s; eq<3, 2>(r, [&](int i, int j) { return a[i][j] / s; }, "matrix-over-scalar"); }
SX_REAL(product, "any matrices, square or not") { auto a = mat<2, 3>("a"); auto b = mat<3, 4>("b"); M<2, 4> r; r <<= a * b; eq<2, 4>(r, [&](int i, int j) { return a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j]; }, "rectangular"); auto c = mat<3, 3>("c"), d = mat<3, 3>("d"); M<3, 3> q; q <<= c * d; eq<3, 3>(q, [&](int i, int j) { return c[i][0] * d[0][j] + c[i][1] * d[1][j] + c[i][2] * d[2][j]; }, "square"); }
SX_REAL(product_alias, "assigning a product to one of its factors") { auto a = mat<2, 2>("a"), b = mat<2, 2>("b"); M<2, 2> c = a; a <<= a * b; eq<2, 2>(a, [&](int i, int j) { return c[i][0] * b[0][j] + c[i][1] * b[1][j]; }, "left"); M<2, 2> d = b; b <<= c * b; eq<2, 2>(b, [&](int i, int j) { return c[i][0] * d[0][j] + c[i][1] * d[1][j]; }, "right"); }
SX_REAL(product_nested, "a product of three") { auto a = mat<2, 2>("a"), b = mat<2, 2>("b"), c = mat<2, 2>("c"); M<2, 2> r, ab, bc, s; r <<= a * b * c; ab <<= a * b; s <<= ab * c; bc <<= b * c; eq<2, 2>(r, [&](int i, int j) { return s[i][j]; }, "left-first"); s <<= a * bc; eq<2, 2>(r, [&](int i, int j) { return s[i][j]; }, "associates"); s <<= a * (b + c); M<2, 2> t; t <<= a * b + a * c; eq<2, 2>(s, [&](int i, int j) { return t[i][j]; }, "distributes"); }
SX_REAL(apply, "any matrix times any vector, square or not") { auto a = mat<3, 3>("a"); V3 v = vec3("v"), r; r <<= a * v; for (int i = 0; i < 3; ++i) CHECK_EQ(r[i], a[i][0] * v[0] + a[i][1] * v[1] + a[i][2] * v[2], "square"); auto b = mat<2, 3>("b"); V2 w; w <<= b * v; for (int i = 0; i < 2; ++i) CHECK_EQ(w[i], b[i][0] * v[0] + b[i][1] * v[1] + b[i][2] * v[2], "rectangular"); }
SX_REAL(apply_alias, "assigning the image to the vector") { auto a = mat<3, 3>("a"); V3 v = vec3("v"), w = v; v <<= a * v; for (int i = 0; i < 3; ++i) CHECK_EQ(v[i], a[i][0] * w[0] + a[i][1] * w[1] + a[i][2] * w[2], "same"); }
SX_REAL(transposed, "any matrix") { auto a = mat<2, 3>("a"); M<3, 2> r; r <<= trans(a); eq<3, 2>(r, [&](int i, int j) { return a[j][i]; }, "rectangular"); auto c = mat<3, 3>("c"), d = mat<3, 3>("d"); M<3, 3> l, e; l <<= trans(c * d); e <<= trans(d) * trans(c); eq<3, 3>(l, [&](int i, int j) { return e[i][j]; }, "of-product"); M<3, 3> k = c; c <<= trans(c); eq<3, 3>(c, [&](int i, int j) { return k[j][i]; }, "in-place"); }
SX_REAL(det2, "any") { auto a = mat<2, 2>("a"); CHECK_EQ(geometrix::get(det(a)), odet<2>(a), "formula"); CHECK_EQ(determinant(a), odet<2>(a), "function"); }
SX_REAL(det3, "any") { auto a = mat<3, 3>("a"); CHECK_EQ(geometrix::get(det(a)), odet<3>(a), "formula"); }
SX_REAL(det4, "any") { auto a = mat<4, 4>("a"); CHECK_EQ(geometrix::get(det(a)), odet<4>(a), "formula"); }
SX_REAL(det_product, "two by two, three by three") { auto a = mat<2, 2>("a"), b = mat<2, 2>("b"); CHECK_EQ(geometrix::get(det(a * b)), odet<2>(a) * odet<2>(b), "2"); auto c = mat<3, 3>("c"), d = mat<3, 3>("d"); CHECK_EQ(geometrix::get(det(c * d)), odet<3>(c) * odet<3>(d), "3"); CHECK_EQ(geometrix::get(det(trans(c))), odet<3>(c), "transpose"); }
template <std::size_t N> static void inverse_ok(const M<N, N>& a) { double d = odet<N>(a); bool threw = false; M<N, N> r; try { r <<= inv(a); } catch (const std::logic_error&) { threw = true; } CHECK(threw == (d == 0), "throws-iff-singular"); if (threw) return; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) { double s = 0, t = 0; for (std::size_t k = 0; k < N; ++k) { s += a[i][k] * r[k][j]; t += r[i][k] * a[k][j]; } CHECK_EQ(s, i == j ? 1.0 : 0.0, "right"); CHECK_EQ(t, i == j ? 1.0 : 0.0, "left"); } }
SX_REAL(inverse2, "any two by two matrix") { inverse_ok<2>(mat<2, 2>("a")); }
SX_REAL(inverse3, "any three by three matrix") { inverse_ok<3>(mat<3, 3>("a")); }
SX_REAL(inverse_in_place, "assigning the inverse to the matrix") { auto a = mat<2, 2>("a"), b = a; ASSUME(odet<2>(a) != 0); a <<= inv(a); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) CHECK_EQ(a[i][0] * b[0][j] + a[i][1] * b[1][j], i == j ? 1.0 : 0.0, "left"); }
SX_REAL(inverse_of_product, "two regular two by two matrices") { auto a = mat<2, 2>("a"), b = mat<2, 2>("b"); ASSUME(odet<2>(a) != 0); ASSUME(odet<2>(b) != 0); M<2, 2> l, r; l <<= inv(a * b); r <<= inv(b) * inv(a); eq<2, 2>(l, [&](int i, int j) { return r[i][j]; }, "reversed"); }
SX_REAL(traces, "any square matrix of two, three, four") { auto a = mat<2, 2>("a"); CHECK_EQ(trace(a), a[0][0] + a[1][1], "2"); auto b = mat<3, 3>("b"); CHECK_EQ(trace(b), b[0][0] + b[1][1] + b[2][2], "3"); auto c = mat<4, 4>("c"); CHECK_EQ(trace(c), c[0][0] + c[1][1] + c[2][2] + c[3][3], "4"); }
SX_REAL(rows_columns, "any three by four matrix: each row, each column") { auto a = mat<3, 4>("a"); geometrix::row<M<3, 4>, 0> r0(a); geometrix::row<M<3, 4>, 2> r2(a); geometrix::column<M<3, 4>, 1> c1(a); geometrix::column<M<3, 4>, 3> c3(a); CHECK_EQ(geometrix::get<0>(r0), a[0][0], "row"); CHECK_EQ(geometrix::get<3>(r0), a[0][3], "row"); CHECK_EQ(geometrix::get<1>(r2), a[2][1], "row"); CHECK_EQ(geometrix::get<2>(r2), a[2][2], "row"); CHECK_EQ(geometrix::get<0>(c1), a[0][1], "column"); CHECK_EQ(geometrix::get<2>(c1), a[2][1], "column"); CHECK_EQ(geometrix::get<1>(c3), a[1][3], "column"); CHECK_EQ(dot_product(r0, r2), a[0][0]*a[2][0] + a[0][1]*a[2][1] + a[0][2]*a[2][2] + a[0][3]*a[2][3], "dot"); }
template <std::size_t R, std::size_t C> static void minor_ok(const M<4, 4>& a) { matrix_minor<M<4, 4>, R, C> m(a); int r[3], c[3]; for (int i = 0, k = 0; i < 4; ++i) if (i != (int)R) r[k++] = i; for (int i = 0, k = 0; i < 4; ++i) if (i != (int)C) c[k++] = i; 
    CHECK_EQ((geometrix::get<0, 0>(m)), a[r[0]][c[0]], "element"); CHECK_EQ((geometrix::get<0, 1>(m)), a[r[0]][c[1]], "element"); CHECK_EQ((geometrix::get<1, 0>(m)), a[r[1]][c[0]], "element"); CHECK_EQ((geometrix::get<1, 2>(m)), a[r[1]][c[2]], "element"); CHECK_EQ((geometrix::get<2, 1>(m)), a[r[2]][c[1]], "element"); CHECK_EQ((geometrix::get<2, 2>(m)), a[r[2]][c[2]], "element"); }
SX_REAL(minors, "any four by four matrix, the row and column removed at the ends and in the middle") { auto a = mat<4, 4>("a"); minor_ok<0, 0>(a); minor_ok<3, 3>(a); minor_ok<1, 2>(a); minor_ok<2, 0>(a); minor_ok<0, 3>(a); }
template <std::size_t R, class C, class W> static void composed_row(const C& m, const M<3, 3>& a, const V3& v, const W& w) { double e[4]; for (int j = 0; j < 4; ++j) e[j] = R == 3 ? w[j] : j == 3 ? v[R < 3 ? R : 0] : a[R < 3 ? R : 0][j]; CHECK_EQ((geometrix::get<R, 0>(m)), e[0], "element"); CHECK_EQ((geometrix::get<R, 1>(m)), e[1], "element"); CHECK_EQ((geometrix::get<R, 2>(m)), e[2], "element"); CHECK_EQ((geometrix::get<R, 3>(m)), e[3], "element"); }
SX_REAL(composed, "a three by three block, a column and a row: each element in its place") { auto a = mat<3, 3>("a"); V3 v = vec3("v"); geometrix::vector<double, 4> w(in("w0"), in("w1"), in("w2"), in("w3")); column_vector<V3> cv(v); row_vector<geometrix::vector<double, 4>> rv(w); auto m = as_matrix<4, 4>(a, cv, rv); composed_row<0>(m, a, v, w); composed_row<1>(m, a, v, w); composed_row<2>(m, a, v, w); composed_row<3>(m, a, v, w); std::vector<std::vector<double>> e = {{a[0][0], a[0][1], a[0][2], v[0]}, {a[1][0], a[1][1], a[1][2], v[1]}, {a[2][0], a[2][1], a[2][2], v[2]}, {w[0], w[1], w[2], w[3]}}; CHECK_EQ(geometrix::get(det(m)), odet(e), "determinant"); }
SX_REAL(identity, "every element") { identity_matrix<double, 3, 3> I; int i = sx_choose("i", 0, 2), j = sx_choose("j", 0, 2); CHECK(I[i][j] == (i == j) && I.get(i, j) == (i == j), "runtime"); CHECK((I.get<0, 0>() == 1 && I.get<0, 1>() == 0 && I.get<2, 1>() == 0 && I.get<2, 2>() == 1), "compile-time"); }
template <std::size_t N> static void lup_ok(const M<N, N>& a) { M<N, N> m = a; boost::array<std::size_t, N> p; double d = odet<N>(a); try { lup_decomposition(m, p); } catch (const std::logic_error&) { CHECK(d == 0, "throws-only-singular"); return; }
    bool seen[N] = {}; for (std::size_t i = 0; i < N; ++i) { CHECK(p[i] < N && !seen[p[i]], "permutation"); seen[p[i]] = true; } for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) { double s = 0; for (std::size_t k = 0; k <= i && k <= j; ++k) s += (k == i ? 1.0 : m[i][k]) * m[k][j]; CHECK_EQ(s, a[p[i]][j], "PA=LU"); if (j < i) CHECK(m[i][j] <= 1 && m[i][j] >= -1, "pivoted"); } 
    if (d == 0) return; boost::array<double, N> b; for (std::size_t i = 0; i < N; ++i) b[i] = in("b" + std::to_string(i)); boost::array<double, N> x = lup_solve(m, p, b); for (std::size_t i = 0; i < N; ++i) { double s = 0; for (std::size_t k = 0; k < N; ++k) s += a[i][k] * x[k]; CHECK_EQ(s, b[i], "solves"); } }
SX_REAL(lup2, "any two by two matrix and right side") { lup_ok<2>(mat<2, 2>("a")); }
SX_REAL(lup3, "three by three matrices with a free column, any right side") { M<3, 3> a; for (int i = 0; i < 3; ++i) { a[i][0] = in("a" + std::to_string(i)); a[i][1] = i == 0 ? 2 : i == 1 ? -1 : 4; a[i][2] = i == 0 ? 1 : i == 1 ? 3 : 0; } lup_ok<3>(a); }
// rotations
SX_REAL(rotation, "any two unit vectors: the matrix turns the first into the second, keeps lengths and does not mirror") { V2 a = unit("a"), b = unit("b"); auto m = make_rotation_matrix(a, b); V2 r; r <<= m * a; check_same(r, b, "maps"); CHECK_EQ(odet<2>(m), 1.0, "proper"); CHECK_EQ(m[0][0] * m[0][1] + m[1][0] * m[1][1], 0.0, "orthogonal"); V2 v = vec("v"); V2 w = rotate_vector(v, m), u = rotate_vector(v, a, b); check_same(w, u, "same"); CHECK_EQ(w[0]*w[0] + w[1]*w[1], v[0]*v[0] + v[1]*v[1], "length"); CHECK_EQ(cr(v[0], v[1], w[0], w[1]), cr(a[0], a[1], b[0], b[1]) * (v[0]*v[0] + v[1]*v[1]), "angle"); }
SX_REAL(rotation_point, "any point about any origin") { V2 a = unit("a"), b = unit("b"); P2 p = pt("p"), o = pt("o"); double c = a[0]*b[0] + a[1]*b[1], s = cr(a[0], a[1], b[0], b[1]), x = p[0] - o[0], y = p[1] - o[1]; P2 e(o[0] + c*x - s*y, o[1] + s*x + c*y); check_same(rotate_point(p, a, b, o), e, "vectors"); check_same(rotate_point(p, make_rotation_matrix(a, b), o), e, "matrix"); }
SX_REAL(rotation_points, "three points: each turned about the origin, then moved") { V2 a = unit("a"), b = unit("b"), t = vec("t"); P2 o = pt("o"); std::vector<P2> ps = {pt("p"), pt("q"), pt("r")}; auto rp = rotate_points(ps, a, b, o); auto m = make_rotation_matrix(a, b); auto tp = rotate_translate_points(ps, m, t, o), up = rotate_translate_points(ps, a, b, t, o); CHECK(rp.size() == 3 && tp.size() == 3 && up.size() == 3, "count"); double c = a[0]*b[0] + a[1]*b[1], s = cr(a[0], a[1], b[0], b[1]); for (int i = 0; i < 3; ++i) { double x = ps[i][0] - o[0], y = ps[i][1] - o[1]; P2 e(o[0] + c*x - s*y, o[1] + s*x + c*y), f(e[0] + t[0], e[1] + t[1]); check_same(rp[i], e, "turned"); check_same(tp[i], f, "moved"); check_same(up[i], f, "moved-vectors"); } }
SX_REAL(lup3_rows, "three by three matrices with a free first and last column, any right side") { M<3, 3> a; for (int i = 0; i < 3; ++i) { a[i][0] = in("a" + std::to_string(i)); a[i][1] = i == 0 ? 2 : i == 1 ? -1 : 4; a[i][2] = in("c" + std::to_string(i)); } lup_ok<3>(a); }
SX_REAL(lup4, "four by four matrices with one free element in every row, any right side") { double f[4][4] = {{0, 1, 2, -1}, {3, 0, 1, 1}, {-2, 4, 0, 2}, {1, -1, 3, 0}}; M<4, 4> a; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) a[i][j] = f[i][j]; for (int i = 0; i < 2; ++i) a[i][i] = in("a" + std::to_string(i)); lup_ok<4>(a); }
SX_REAL(matrix_names, "transpose, inverse and reciprocal under their long names, converted to a matrix") { auto a = mat<2, 3>("a"); M<3, 2> t; t <<= transpose(a); eq<3, 2>(t, [&](int i, int j) { return a[j][i]; }, "transpose"); auto b = mat<2, 2>("b"), c = mat<2, 2>("c"); M<2, 2> s = as<M<2, 2>>(b + c); eq<2, 2>(s, [&](int i, int j) { return b[i][j] + c[i][j]; }, "as"); M<2, 2> v;
    ASSUME(b[0][0] != 0 && b[0][1] != 0 && b[1][0] != 0 && b[1][1] != 0); v <<= rec(b); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) CHECK_EQ(v[i][j] * b[i][j], 1.0, "reciprocal"); ASSUME(odet<2>(b) != 0); v <<= inverse(b); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) CHECK_EQ(v[i][0] * b[0][j] + v[i][1] * b[1][j], i == j ? 1.0 : 0.0, "inverse"); }
