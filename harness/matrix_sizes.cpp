// G02: the generated code of every size: assignment, construction, products, sums, LUP and block composition beyond four rows
#include "g.h"
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/tensor/matrix_traits.hpp>
#include <geometrix/tensor/vector_matrix_adaptors.hpp>
#include <geometrix/tensor/composite_matrix.hpp>
#include <geometrix/tensor/identity_matrix.hpp>
#include <geometrix/arithmetic/matrix_arithmetic.hpp>
#include <geometrix/algebra/lup_decomposition.hpp>
#include <geometrix/algebra/dot_product.hpp>
using namespace g;
template <std::size_t R, std::size_t C> using M = geometrix::matrix<double, R, C>;
template <std::size_t N> using V = geometrix::vector<double, N>;
// two free values: the entries are distinct combinations of them
static double el(double a, double b, int i, int j) { return a * (i + 1) + b * (j + 1) + (7 * i + 13 * j) % 29; }
template <std::size_t R, std::size_t C> static M<R, C> fill(double a, double b) { M<R, C> m; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) m[i][j] = el(a, b, (int)i, (int)j); return m; }
template <std::size_t R, std::size_t C> static void moved(double a, double b) { auto m = fill<R, C>(a, b); M<R, C> z; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) z[i][j] = 0; z <<= m * 2.0; M<R, C> k(geometrix::construct<M<R, C>>(m * 3.0)); for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) { double e = el(a, b, (int)i, (int)j); CHECK_EQ(z[i][j], 2.0 * e, "assigned"); CHECK_EQ(k[i][j], 3.0 * e, "constructed"); } }
template <std::size_t R> static void moved_row(double a, double b) { moved<R, 1>(a, b); moved<R, 2>(a, b); moved<R, 3>(a, b); moved<R, 4>(a, b); moved<R, 5>(a, b); moved<R, 6>(a, b); moved<R, 7>(a, b); }
SX_REAL(sizes_small, "every size up to four rows and seven columns") { double a = in("a"), b = in("b"); moved_row<1>(a, b); moved_row<2>(a, b); moved_row<3>(a, b); moved_row<4>(a, b); }
SX_REAL(sizes_middle, "every size of five to seven rows and up to seven columns") { double a = in("a"), b = in("b"); moved_row<5>(a, b); moved_row<6>(a, b); moved_row<7>(a, b); }
SX_REAL(sizes_large, "some sizes up to sixteen rows and columns") { double a = in("a"), b = in("b"); moved<1, 16>(a, b); moved<16, 1>(a, b); moved<8, 8>(a, b); moved<9, 12>(a, b); moved<12, 9>(a, b); moved<10, 10>(a, b); moved<13, 2>(a, b); moved<2, 13>(a, b); moved<16, 16>(a, b); moved<11, 5>(a, b); moved<3, 11>(a, b); moved<14, 15>(a, b); }
template <std::size_t N> static V<N> vfill(double a, double b, int s) { V<N> v; for (std::size_t i = 0; i < N; ++i) v[i] = el(a, b, (int)i + s, 2 * s); return v; }
template <std::size_t N> static void dots(double a, double b) { auto u = vfill<N>(a, b, 1), v = vfill<N>(b, a, 3); double e = 0, m = 0; for (std::size_t i = 0; i < N; ++i) { e += u[i] * v[i]; m += u[i] * u[i]; } CHECK_EQ(geometrix::dot_product(u, v), e, "dot"); CHECK_EQ(geometrix::magnitude_sqrd(u), m, "magnitude"); V<N> s, d; s <<= u + v; d <<= u - v * 2.0; for (std::size_t i = 0; i < N; ++i) { CHECK_EQ(s[i], u[i] + v[i], "sum"); CHECK_EQ(d[i], u[i] - v[i] * 2.0, "difference"); } }
SX_REAL(dot_sizes, "vectors of two to ten coordinates") { double a = in("a"), b = in("b"); dots<2>(a, b); dots<3>(a, b); dots<4>(a, b); dots<5>(a, b); dots<6>(a, b); dots<7>(a, b); dots<8>(a, b); dots<9>(a, b); dots<10>(a, b); }
template <std::size_t R, std::size_t K, std::size_t C> static void prod(double a, double b) { auto m = fill<R, K>(a, b); auto n = fill<K, C>(b, a); M<R, C> r; r <<= m * n; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) { double e = 0; for (std::size_t k = 0; k < K; ++k) e += m[i][k] * n[k][j]; CHECK_EQ(r[i][j], e, "product"); } V<K> v = vfill<K>(a, b, 2); V<R> w; w <<= m * v; for (std::size_t i = 0; i < R; ++i) { double e = 0; for (std::size_t k = 0; k < K; ++k) e += m[i][k] * v[k]; CHECK_EQ(w[i], e, "times-vector"); } }
SX_REAL(product_sizes, "products of five and six rows, square or not") { double a = in("a"), b = in("b"); prod<5, 5, 5>(a, b); prod<6, 2, 5>(a, b); prod<2, 6, 3>(a, b); prod<5, 3, 2>(a, b); }
// LU with pivots
template <std::size_t N> static double dt(std::vector<std::vector<double>> a) { if (N == 0) return 1; std::size_t n = a.size(); if (n == 1) return a[0][0]; double r = 0; for (std::size_t c = 0; c < n; ++c) { std::vector<std::vector<double>> b; for (std::size_t i = 1; i < n; ++i) { std::vector<double> q; for (std::size_t j = 0; j < n; ++j) if (j != c) q.push_back(a[i][j]); b.push_back(q); } double t = dt<N>(b) * a[0][c]; r = c % 2 ? r - t : r + t; } return r; }
template <std::size_t N> static void lup(const M<N, N>& a) { std::vector<std::vector<double>> q(N, std::vector<double>(N)); for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) q[i][j] = a[i][j]; M<N, N> m = a; boost::array<std::size_t, N> p; try { geometrix::lup_decomposition(m, p); } catch (const std::logic_error&) { CHECK(dt<N>(q) == 0.0, "throws-only-singular"); return; }
    for (std::size_t i = 0; i < N; ++i) { CHECK(p[i] < N, "permutation"); for (std::size_t j = 0; j < i; ++j) CHECK(p[i] != p[j], "permutation"); }
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) { double s = 0; for (std::size_t k = 0; k <= i && k <= j; ++k) s += (k == i ? 1.0 : m[i][k]) * m[k][j]; CHECK_EQ(s, a[p[i]][j], "product"); } for (std::size_t j = 0; j < N; ++j) for (std::size_t i = j + 1; i < N; ++i) { CHECK_LE(m[i][j], 1.0, "pivot"); CHECK_GE(m[i][j], -1.0, "pivot"); }
    boost::array<double, N> b; for (std::size_t i = 0; i < N; ++i) b[i] = in("b" + std::to_string(i)); M<N, N> m2 = a; auto x = geometrix::lup_solve(m, p, b); for (std::size_t i = 0; i < N; ++i) { double s = 0; for (std::size_t j = 0; j < N; ++j) s += a[i][j] * x[j]; CHECK_EQ(s, b[i], "solved"); } }
static const double F[6][6] = {{0, 1, 2, -1, 3, 1}, {3, 0, 1, 1, -2, 2}, {-2, 4, 0, 2, 1, -1}, {1, -1, 3, 0, 2, 4}, {2, 2, -1, 1, 0, 3}, {-1, 3, 1, 2, -3, 0}};
template <std::size_t N> static void lup_free(int r, int c) { M<N, N> a; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) a[i][j] = F[i][j]; a[r][c] = in("x"); lup<N>(a); }
SX_REAL(lup5, "a five by five matrix with one element free, on the diagonal or in a corner, any right side") { int k = sx_choose("where", 0, 5); lup_free<5>(k < 5 ? k : 4, k < 5 ? k : 0); }
SX_REAL(lup6, "a six by six matrix with one element free, on the diagonal or in a corner, any right side") { int k = sx_choose("where", 0, 6); lup_free<6>(k < 6 ? k : 5, k < 6 ? k : 0); }
// composition
template <class C, std::size_t R, std::size_t K> struct Cell { static void ck(const C& m, const std::vector<std::vector<double>>& e, const char* l) { CHECK_EQ((geometrix::get<R, K>(m)), e[R][K], l); } };
template <class C, std::size_t R> static void crow3(const C& m, const std::vector<std::vector<double>>& e, const char* l) { Cell<C, R, 0>::ck(m, e, l); Cell<C, R, 1>::ck(m, e, l); Cell<C, R, 2>::ck(m, e, l); }
template <class C> static void c3(const C& m, const std::vector<std::vector<double>>& e, const char* l) { crow3<C, 0>(m, e, l); crow3<C, 1>(m, e, l); crow3<C, 2>(m, e, l); }
template <std::size_t R, std::size_t C> static M<R, C> mat(const char* n) { M<R, C> m; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) m[i][j] = in(n + std::to_string(i) + std::to_string(j)); return m; }
SX_REAL(composed_columns, "a matrix of three columns, a matrix of three rows") { V3 u = vec3("u"), v = vec3("v"), w = vec3("w"); column_vector<V3> cu(u), cv(v), cw(w); row_vector<V3> ru(u), rv(v), rw(w); c3(as_matrix<3, 3>(cu, cv, cw), {{u[0], v[0], w[0]}, {u[1], v[1], w[1]}, {u[2], v[2], w[2]}}, "columns"); c3(as_matrix<3, 3>(ru, rv, rw), {{u[0], u[1], u[2]}, {v[0], v[1], v[2]}, {w[0], w[1], w[2]}}, "rows"); }
SX_REAL(composed_blocks, "four blocks of different sizes") { auto a = mat<2, 2>("a"); auto b = mat<2, 1>("b"); auto c = mat<1, 2>("c"); auto d = mat<1, 1>("d"); c3(as_matrix<3, 3>(a, b, c, d), {{a[0][0], a[0][1], b[0][0]}, {a[1][0], a[1][1], b[1][0]}, {c[0][0], c[0][1], d[0][0]}}, "large-first"); c3(as_matrix<3, 3>(d, c, b, a), {{d[0][0], c[0][0], c[0][1]}, {b[0][0], a[0][0], a[0][1]}, {b[1][0], a[1][0], a[1][1]}}, "small-first"); }
SX_REAL(composed_tall, "a tall block beside two stacked ones, on either side") { V3 u = vec3("u"); column_vector<V3> t(u); auto c = mat<1, 2>("c"); auto a = mat<2, 2>("a"); c3(as_matrix<3, 3>(t, c, a), {{u[0], c[0][0], c[0][1]}, {u[1], a[0][0], a[0][1]}, {u[2], a[1][0], a[1][1]}}, "left"); c3(as_matrix<3, 3>(c, t, a), {{c[0][0], c[0][1], u[0]}, {a[0][0], a[0][1], u[1]}, {a[1][0], a[1][1], u[2]}}, "right"); }
SX_REAL(composed_used, "a composed matrix in a product and as source of another") { auto a = mat<2, 2>("a"); V2 t = vec("t"); column_vector<V2> c(t); V3 z(0.0, 0.0, 1.0); row_vector<V3> r(z); auto m = as_matrix<3, 3>(a, c, r); M<3, 3> k(geometrix::construct<M<3, 3>>(m)); V3 p(in("x"), in("y"), 1.0), q; q <<= m * p; CHECK_EQ(q[0], a[0][0] * p[0] + a[0][1] * p[1] + t[0], "x"); CHECK_EQ(q[1], a[1][0] * p[0] + a[1][1] * p[1] + t[1], "y"); CHECK_EQ(q[2], 1.0, "w"); CHECK_EQ(k[0][2], t[0], "copied"); CHECK_EQ(k[1][0], a[1][0], "copied"); CHECK_EQ(k[2][2], 1.0, "copied"); }
