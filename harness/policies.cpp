#include "g.h"
#include <geometrix/utility/floating_point_comparison.hpp>
#include <boost/fusion/include/pair.hpp>
using namespace g;
typedef relative_tolerance_comparison_policy<double> Rel; typedef fraction_tolerance_comparison_policy<double> Frac;
// exactly one of <, ==, > holds; <= and >= are their unions; swapping mirrors; the functors agree
template <class C> static void laws(const C& c, double u, double v, bool mirror = true) {
    bool l = c.less_than(u, v), e = c.equals(u, v), g = c.greater_than(u, v), le = c.less_than_or_equal(u, v), ge = c.greater_than_or_equal(u, v);
    CHECK((int)l + (int)e + (int)g == 1, "exactly-one"); CHECK(le == (l || e), "less-or-equal"); CHECK(ge == (g || e), "greater-or-equal"); CHECK(!(l && !(u < v)) && !(g && !(u > v)), "true-order"); if (u == v) CHECK(e, "reflexive");
    if (mirror) CHECK(c.greater_than(v, u) == l && c.less_than(v, u) == g && c.equals(v, u) == e && c.less_than_or_equal(v, u) == ge, "mirror");
    CHECK(geometrix::less_than<C>(c)(u, v) == l && geometrix::greater_than<C>(c)(u, v) == g && geometrix::equals<C>(c)(u, v) == e && geometrix::less_than_or_equal<C>(c)(u, v) == le && geometrix::greater_than_or_equal<C>(c)(u, v) == ge, "functors"); }
static double fin(const char* n) { double x = sx_real(n); sx_assume_finite(x); return x; }
SX_FP(direct, "any two finite doubles") { double u = fin("u"), v = fin("v"); laws(Exact(), u, v); CHECK(Exact().less_than(u, v) == (u < v) && Exact().equals(u, v) == (u == v), "plain"); }
SX_FP(absolute, "any two finite doubles and any tolerance from 0: bit-precise") { double u = fin("u"), v = fin("v"), t = fin("t"); ASSUME_GE(t, 0.0); laws(Tol(t), u, v, false); CHECK(equals_within_absolute_tolerance(u, v, t) == Tol(t).equals(u, v) && less_than_with_absolute_tolerance(u, v, t) == Tol(t).less_than(u, v) && greater_than_with_absolute_tolerance(u, v, t) == Tol(t).greater_than(u, v) && less_than_or_equal_with_absolute_tolerance(u, v, t) == Tol(t).less_than_or_equal(u, v) && greater_than_or_equal_with_absolute_tolerance(u, v, t) == Tol(t).greater_than_or_equal(u, v), "free-functions"); }
SX_REAL(absolute_meaning, "any two numbers and tolerance: equal exactly within it") { double u = in("u"), v = in("v"), t = in("t"); ASSUME_GE(t, 0.0); CHECK(Tol(t).equals(u, v) == (u - v <= t && v - u <= t), "within"); CHECK(Tol(t).less_than(u, v) == (v - u > t), "beyond"); laws(Tol(t), u, v); }
SX_REAL(relative, "any two numbers and tolerance up to a half: equal exactly within it times one plus the sizes") { double u = in("u"), v = in("v"), t = in("t", 0, 0.5); laws(Rel(t), u, v); double s = t * ((u < 0 ? -u : u) + (v < 0 ? -v : v) + 1), d = u - v; if (d < 0) d = -d; CHECK(Rel(t).equals(u, v) == (d <= s), "within"); }
SX_REAL(fraction, "any two numbers and tolerance up to a half: equal exactly within that fraction of both, next to zero within the absolute factor") { double u = in("u", -1e9, 1e9), v = in("v", -1e9, 1e9), t = in("t", 0, 0.5), z = in("z", 0, 0.5); Frac c(t, z); laws(c, u, v); double au = u < 0 ? -u : u, av = v < 0 ? -v : v, d = u - v; if (d < 0) d = -d; bool e = u == 0 ? av <= z : v == 0 ? au <= z : d <= t * au && d <= t * av; if (d == 0 || d > 1e-3) CHECK(c.equals(u, v) == e, "within"); }
SX_REAL(fraction_free, "the free functions with one tolerance for both agree with the policy") { double u = in("u"), v = in("v"), t = in("t", 0, 0.5); Frac c(t); CHECK(equals_within_fraction_tolerance(u, v, t) == c.equals(u, v), "equal"); CHECK(less_than_with_fraction_tolerance(u, v, t) == c.less_than(u, v), "less"); CHECK(greater_than_with_fraction_tolerance(u, v, t) == c.greater_than(u, v), "greater"); CHECK(less_than_or_equal_with_fraction_tolerance(u, v, t) == c.less_than_or_equal(u, v), "less-or-equal"); CHECK(greater_than_or_equal_with_fraction_tolerance(u, v, t) == c.greater_than_or_equal(u, v), "greater-or-equal"); }
SX_REAL(fraction_weak, "weak comparison: within the fraction of either") { double u = in("u", 0.001, 1000), v = in("v", 0.001, 1000), t = in("t", 0, 0.5), d = u < v ? v - u : u - v; ASSUME(d == 0 || d > 1e-3); CHECK(equals_within_tolerance(u, v, t, floating_point_comparison_type::FPC_WEAK) == (d <= t * u || d <= t * v), "weak"); CHECK(equals_within_tolerance(u, v, t) == (d <= t * u && d <= t * v), "strong"); }
SX_REAL(division, "any quotient of positive numbers in a wide range") { double u = in("u", 0, 1e6), v = in("v", 1e-6, 1e6); ASSUME(u == 0 || u > 1e-9); CHECK_EQ(safe_division(u, v) * v, u, "quotient"); CHECK(equals_zero(u - 3, v) == (u - 3 <= v && 3 - u <= v), "zero"); }
SX_FP(division_limits, "any finite double over any positive one at least one: never above, zero only for zero or a vanishing quotient") { double u = fin("u"); ASSUME_GE(u, 0.0); int e = sx_choose("e", -3, 3); double v = std::ldexp(1.0, 340 * e); double q = safe_division(u, v); CHECK_GE(q, 0.0, "sign"); CHECK_LE(q, std::numeric_limits<double>::max(), "no-overflow"); }
struct L1 {}; 
SX_REAL(mapped, "a policy mapped per type uses that type's tolerance, the default elsewhere") { double u = in("u"), v = in("v"); auto c = make_mapped_tolerance_comparison_policy(Tol(0.25), boost::fusion::make_pair<double>(Tol(0.5))); laws(c, u, v); CHECK(c.equals(u, v) == (u - v <= 0.5 && v - u <= 0.5), "mapped"); auto d = make_mapped_tolerance_comparison_policy(Tol(0.25), boost::fusion::make_pair<float>(Tol(0.5))); CHECK(d.equals(u, v) == (u - v <= 0.25 && v - u <= 0.25), "default"); }
