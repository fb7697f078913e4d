// G02: the looping LUP factorisation chosen by GEOMETRIX_USE_RUN_TIME_LUP_DECOMPOSITION
#define GEOMETRIX_USE_RUN_TIME_LUP_DECOMPOSITION
#include "g.h"
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/tensor/matrix_traits.hpp>
#include <geometrix/algebra/lup_decomposition.hpp>
using namespace g;
template <std::size_t N> using M = geometrix::matrix<double, N, N>;
static double d2x2(double a, double b, double c, double d) { return a * d - b * c; }
static double dt(const M<2>& m) { return d2x2(m[0][0], m[0][1], m[1][0], m[1][1]); }
static double dt(const M<3>& m) { return m[0][0] * d2x2(m[1][1], m[1][2], m[2][1], m[2][2]) - m[0][1] * d2x2(m[1][0], m[1][2], m[2][0], m[2][2]) + m[0][2] * d2x2(m[1][0], m[1][1], m[2][0], m[2][1]); }
template <std::size_t N> static void lup(const M<N>& a) { M<N> m = a; boost::array<std::size_t, N> p; double d = dt(a); try { geometrix::lup_decomposition(m, p); } catch (const std::logic_error&) { CHECK(d == 0.0, "throws-only-singular"); return; }
    bool seen[N] = {}; for (std::size_t i = 0; i < N; ++i) { CHECK(p[i] < N && !seen[p[i]], "permutation"); seen[p[i]] = true; } for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) { double s = 0; for (std::size_t k = 0; k <= i && k <= j; ++k) s += (k == i ? 1.0 : m[i][k]) * m[k][j]; CHECK_EQ(s, a[p[i]][j], "product"); }
    for (std::size_t j = 0; j < N; ++j) for (std::size_t i = j + 1; i < N; ++i) { CHECK_LE(m[i][j], 1.0, "pivot"); CHECK_GE(m[i][j], -1.0, "pivot"); }
    if (d == 0.0) return; boost::array<double, N> b; for (std::size_t i = 0; i < N; ++i) b[i] = in("b" + std::to_string(i)); auto x = geometrix::lup_solve(m, p, b); for (std::size_t i = 0; i < N; ++i) { double s = 0; for (std::size_t k = 0; k < N; ++k) s += a[i][k] * x[k]; CHECK_EQ(s, b[i], "solved"); } }
SX_REAL(loop_lup2, "any two by two matrix and right side") { M<2> a; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) a[i][j] = in("a" + std::to_string(i) + std::to_string(j)); lup<2>(a); }
SX_REAL(loop_lup3, "three by three matrices with a free column, any right side") { M<3> a; for (int i = 0; i < 3; ++i) { a[i][0] = in("a" + std::to_string(i)); a[i][1] = i == 0 ? 2 : i == 1 ? -1 : 4; a[i][2] = i == 0 ? 1 : i == 1 ? 3 : 0; } lup<3>(a); }
SX_REAL(loop_lup3_last, "three by three matrices with a free element in the last column and row, any right side") { M<3> a; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a[i][j] = (3 * i + 5 * j + i * j) % 7 - 2; a[1][2] = in("u"); a[2][1] = in("v"); lup<3>(a); }
