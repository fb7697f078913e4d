// G27: numeric wrappers - strong typedefs, cached functions, colours and units behave as the values inside.
#include "g.h"
#include <geometrix/utility/array.hpp>
#include <boost/optional.hpp>
#include <boost/container/flat_map.hpp>
#include <functional>
#include <map>
#include <tuple>
#include <geometrix/utility/tagged_quantity.hpp>
#include <geometrix/utility/memoize.hpp>
#include <geometrix/utility/golden_ratio_color_generator.hpp>
#include <geometrix/utility/integer_sequence.hpp>
#include <geometrix/numeric/constants.hpp>
using namespace g;
GEOMETRIX_STRONG_TYPEDEF(double, Len);
GEOMETRIX_STRONG_TYPEDEF(double, Wid);
GEOMETRIX_STRONG_TYPEDEF(float, Flt);
template <typename T> static double val(const T& t) { return t.value(); }
SX_FP(tag_arith, "every pair of doubles under + - * / with one or both operands tagged") {
    double a = in("a"), b = in("b"); Len x(a), y(b); Wid w(b);
    sx_assert_same(val(x + y), a + b, "add"); sx_assert_same(val(x - y), a - b, "sub"); sx_assert_same(val(x * y), a * b, "mul"); sx_assert_same(val(x / y), a / b, "div");
    sx_assert_same(val(x + w), a + b, "add2"); sx_assert_same(val(x - w), a - b, "sub2"); sx_assert_same(val(x * w), a * b, "mul2"); sx_assert_same(val(x / w), a / b, "div2");
    sx_assert_same(val(x + b), a + b, "addr"); sx_assert_same(val(x - b), a - b, "subr"); sx_assert_same(val(x * b), a * b, "mulr"); sx_assert_same(val(x / b), a / b, "divr");
    sx_assert_same(val(a + y), a + b, "addl"); sx_assert_same(val(a - y), a - b, "subl"); sx_assert_same(val(a * y), a * b, "mull"); sx_assert_same(val(a / y), a / b, "divl");
    sx_assert_same(val(+x), a, "plus"); sx_assert_same(val(-x), -a, "minus");
}
SX_FP(tag_assign, "every pair of doubles under the compound assignments, copies and swaps") {
    double a = in("a"), b = in("b"); Len y(b);
    { Len x(a); x += y; sx_assert_same(val(x), a + b, "+="); } { Len x(a); x -= y; sx_assert_same(val(x), a - b, "-="); } { Len x(a); x *= y; sx_assert_same(val(x), a * b, "*="); } { Len x(a); x /= y; sx_assert_same(val(x), a / b, "/="); }
    { Len x(a); x += b; sx_assert_same(val(x), a + b, "+=r"); } { Len x(a); x -= b; sx_assert_same(val(x), a - b, "-=r"); } { Len x(a); x *= b; sx_assert_same(val(x), a * b, "*=r"); } { Len x(a); x /= b; sx_assert_same(val(x), a / b, "/=r"); }
    { Len x(a); x = y; sx_assert_same(val(x), b, "="); sx_assert_same(val(y), b, "="); } { Len x(a); x = b; sx_assert_same(val(x), b, "=r"); } { Len x(a); Len z(x); sx_assert_same(val(z), a, "copy"); }
    { Len x(a); double r = b; x.swap(r); sx_assert_same(val(x), b, "swapr"); sx_assert_same(r, a, "swapr"); } { Len x(a), z(b); x.swap(z); sx_assert_same(val(x), b, "swap"); sx_assert_same(val(z), a, "swap"); } { Len x(a), z(b); std::swap(x, z); sx_assert_same(val(x), b, "std::swap"); sx_assert_same(val(z), a, "std::swap"); }
}
SX_FP(tag_compare, "every pair of doubles, tagged on either side") {
    double a = in("a"), b = in("b"); Len x(a), y(b);
    CHECK((x == y) == (a == b), "=="); CHECK((x != y) == (a != b), "!="); CHECK((x < y) == (a < b), "<"); CHECK((x <= y) == (a <= b), "<="); CHECK((x > y) == (a > b), ">"); CHECK((x >= y) == (a >= b), ">=");
}
SX_FP(tag_compare_raw, "every pair of doubles, one of them raw") {
    double a = in("a"), b = in("b"); Len x(a), y(b);
    CHECK((x == b) == (a == b), "==r"); CHECK((x != b) == (a != b), "!=r"); CHECK((x < b) == (a < b), "<r"); CHECK((x <= b) == (a <= b), "<=r"); CHECK((x > b) == (a > b), ">r"); CHECK((x >= b) == (a >= b), ">=r");
    CHECK((a == y) == (a == b), "l=="); CHECK((a != y) == (a != b), "l!="); CHECK((a < y) == (a < b), "l<"); CHECK((a <= y) == (a <= b), "l<="); CHECK((a > y) == (a > b), "l>"); CHECK((a >= y) == (a >= b), "l>=");
    CHECK(bool(x) == (a != 0), "bool");
}
SX_FP(tag_functions, "every double under abs, floor, ceil and sqrt; conversion from float") {
    double a = in("a"); Len x(a); float f = sx_float("f");
    sx_assert_same(val(abs(x)), std::fabs(a), "abs"); sx_assert_same(val(floor(x)), std::floor(a), "floor"); sx_assert_same(val(ceil(x)), std::ceil(a), "ceil");
    tagged_quantity<LenTag, float> g_(f); Len h(g_); sx_assert_same(val(h), (double)f, "from float"); Len k(a); k = g_; sx_assert_same(val(k), (double)f, "assign float"); 
}
SX_FP(tag_members, "every pair of doubles: assignment of a raw number, compound assignment by the tagged and the raw form, exchange with another and with a raw number") {
    double a = in("a"), b = in("b"); Len x(a), y(b); x = b; sx_assert_same(val(x), b, "assign raw"); x = Len(a); sx_assert_same(val(x), a, "assign"); x += y; sx_assert_same(val(x), a + b, "+="); x = a; x -= y; sx_assert_same(val(x), a - b, "-="); x = a; x *= y; sx_assert_same(val(x), a * b, "*="); x = a; x /= y; sx_assert_same(val(x), a / b, "/=");
    x = a; x += b; sx_assert_same(val(x), a + b, "+=r"); x = a; x -= b; sx_assert_same(val(x), a - b, "-=r"); x = a; x *= b; sx_assert_same(val(x), a * b, "*=r"); x = a; x /= b; sx_assert_same(val(x), a / b, "/=r");
    x = a; y = b; x.swap(y); sx_assert_same(val(x), b, "swap"); sx_assert_same(val(y), a, "swap"); double r = 7; x = a; r = b; x.swap(r); sx_assert_same(val(x), b, "swap raw"); sx_assert_same(r, a, "swap raw"); Len z(x); sx_assert_same(val(z), b, "copy"); 
}
SX_REAL(tag_trig, "every angle; roots of non-negative numbers; atan2 of every pair") {
    double a = in("a", -6, 6), b = in("b", 0, 64), c = in("c"), d = in("d"), e = in("e", -1, 1); Len x(a), y(b);
    CHECK_EQ(val(sin(x)), std::sin(a), "sin"); CHECK_EQ(val(cos(x)), std::cos(a), "cos"); CHECK_EQ(val(sqrt(y)), std::sqrt(b), "sqrt");
    ASSUME(c != 0 || d != 0); CHECK_EQ(val(atan2(Len(c), Len(d))), std::atan2(c, d), "atan2"); CHECK_EQ(val(atan2(c, Len(d))), std::atan2(c, d), "atan2l"); CHECK_EQ(val(atan2(Len(c), d)), std::atan2(c, d), "atan2r");
    CHECK_EQ(val(asin(Len(e))), std::asin(e), "asin"); CHECK_EQ(val(acos(Len(e))), std::acos(e), "acos"); 
}
SX_REAL(cached_calls, "three calls with arguments among any reals, equal or not, through an ordered map") {
    double a[3], b[3]; for (int i = 0; i < 3; ++i) { a[i] = in(nm("a", i)); b[i] = in(nm("b", i)); }
    std::map<std::tuple<double, double>, double> cache; int calls = 0;
    std::function<double(double, double)> f = [&](double x, double y) { ++calls; return 3 * x - y; };
    auto m = memoize(cache, f); int distinct_ = 0;
    for (int i = 0; i < 3; ++i) { bool seen = false; for (int j = 0; j < i; ++j) seen = seen || (a[i] == a[j] && b[i] == b[j]); if (!seen) ++distinct_; CHECK_EQ(m(a[i], b[i]), 3 * a[i] - b[i], "value"); CHECK(calls == distinct_, "called once per key"); CHECK((int)cache.size() == distinct_, "one entry per key"); }
}
SX_REAL(cached_flat, "three calls through a flat map, whose iterators move") {
    double a[3]; for (int i = 0; i < 3; ++i) a[i] = in(nm("a", i));
    boost::container::flat_map<std::tuple<double>, double> cache; int calls = 0;
    std::function<double(double)> f = [&](double x) { ++calls; return 3 * x + 1; };
    auto m = memoize(cache, f); int distinct_ = 0;
    for (int i = 0; i < 3; ++i) { bool seen = false; for (int j = 0; j < i; ++j) seen = seen || a[i] == a[j]; if (!seen) ++distinct_; CHECK_EQ(m(a[i]), 3 * a[i] + 1, "value"); CHECK(calls == distinct_, "called once per key"); }
}
SX_REAL(cached_recursion, "a function that calls its cached self, any start up to 8") {
    int n = sx_choose("n", 0, 8), n2 = sx_choose("n2", 0, 8); std::map<std::tuple<int>, double> cache; int calls = 0; double u = in("u"); std::function<double(int)> m;
    std::function<double(int)> f = [&](int k) { ++calls; return k < 2 ? (k ? u : 0.0) : m(k - 1) + m(k - 2); };
    m = memoize(cache, f); double fib[9] = {0, 1}; for (int i = 2; i < 9; ++i) fib[i] = fib[i - 1] + fib[i - 2];
    CHECK_EQ(m(n), fib[n] * u, "value"); CHECK(calls == (n < 2 ? 1 : n + 1), "calls"); CHECK_EQ(m(n2), fib[n2] * u, "again");
}
static void colour(double h, double s, double v) {
    auto c = hsv2rgb((float)h, (float)s, (float)v); double lo = v * (1 - s), k = 6 * h, rgb[3];
    // each channel is v at distance up to 1 from its own hue, v(1-s) beyond 2, linear between
    for (int i = 0; i < 3; ++i) { double d = std::fabs(k - 2 * i); if (d > 3) d = 6 - d; rgb[i] = d <= 1 ? v : d >= 2 ? lo : v - v * s * (d - 1); }
    int got[3] = {std::get<argb::Red>(c), std::get<argb::Green>(c), std::get<argb::Blue>(c)};
    CHECK(std::get<argb::Alpha>(c) == 255, "alpha"); for (int i = 0; i < 3; ++i) { CHECK_LE((double)got[i], rgb[i] * 255 + 1e-3, "not above"); CHECK_GT(got[i] + 1.0, rgb[i] * 255 - 1e-3, "within one"); }
}
SX_REAL(colour_hue, "every hue from zero to below one at four saturations and values") { double h = in("h", 0, 1); ASSUME_LT(h, 1); static const double sv[4][2] = {{1, 0.25}, {0.5, 0.5}, {0, 0.75}, {0.25, 0.125}}; int k = sx_choose("k", 0, 3); colour(h, sv[k][0], sv[k][1]); }
SX_REAL(colour_depth, "every value up to a quarter at three saturations, and every saturation at three values, at twelve hues") { int k = sx_choose("k", 0, 11), m = sx_choose("m", 0, 5); double t = in("t", 0, 0.25); static const double f[3] = {0, 0.25, 1}; if (m < 3) colour(k / 12.0, f[m], t); else colour(k / 12.0, 4 * t, f[m - 3] * 0.5); }
template <std::size_t... I> static bool counts(integer_sequence<std::size_t, I...>, std::size_t n) { std::size_t v[] = {I..., 0}; if (sizeof...(I) != n) return false; for (std::size_t i = 0; i < n; ++i) if (v[i] != i) return false; return true; }
SX_REAL(index_sequences, "sequences of 0 to 20, 63, 64, 65, 127 and 200 indices") {
    CHECK(counts(make_index_sequence<0>(), 0), "0"); CHECK(counts(make_index_sequence<1>(), 1), "1"); CHECK(counts(make_index_sequence<2>(), 2), "2"); CHECK(counts(make_index_sequence<3>(), 3), "3"); CHECK(counts(make_index_sequence<5>(), 5), "5"); CHECK(counts(make_index_sequence<7>(), 7), "7"); CHECK(counts(make_index_sequence<8>(), 8), "8"); CHECK(counts(make_index_sequence<9>(), 9), "9"); CHECK(counts(make_index_sequence<10>(), 10), "10"); CHECK(counts(make_index_sequence<15>(), 15), "15"); CHECK(counts(make_index_sequence<17>(), 17), "17"); CHECK(counts(make_index_sequence<20>(), 20), "20"); CHECK(counts(make_index_sequence<63>(), 63), "63"); CHECK(counts(make_index_sequence<64>(), 64), "64"); CHECK(counts(make_index_sequence<65>(), 65), "65"); CHECK(counts(make_index_sequence<127>(), 127), "127"); CHECK(counts(make_index_sequence<200>(), 200), "200");
}
SX_REAL(tag_functions_real, "every angle not a right one; exponentials of any number; logarithms and powers of positive ones") {
    double a = in("a", -6, 6), b = in("b", 0.001, 1000), c = in("c", -3, 3); Len x(a), y(b), z(c); CHECK_EQ(val(exp(z)), std::exp(c), "exp"); CHECK_EQ(val(log(y)), std::log(b), "log"); CHECK_EQ(val(log10(y)), std::log10(b), "log10"); CHECK_EQ(val(atan(z)), std::atan(c), "atan");
    CHECK_EQ(val(pow(y, z)), std::pow(b, c), "pow"); CHECK_EQ(val(pow(b, z)), std::pow(b, c), "powl"); CHECK_EQ(val(pow(y, c)), std::pow(b, c), "powr"); CHECK_EQ(val(construct<Len>(a)), a, "construct");
    ASSUME_NE(std::cos(a), 0.0); CHECK_EQ(val(tan(x)), std::tan(a), "tan"); }
