#include "g.h"
#include <set>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/algebra/exterior_product.hpp>
#include <geometrix/tensor/numeric_sequence_compare.hpp>
#include <geometrix/tensor/is_null.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/utility/vector_angle_compare.hpp>
#include <geometrix/utility/point_angle_compare.hpp>
#include <geometrix/algorithm/distance/distance_compare.hpp>
using namespace g;
static int cmp3(double a, double b) { return a < b ? -1 : b < a ? 1 : 0; }
static int lex(const P2& a, const P2& b) { int c = cmp3(a[0], b[0]); return c ? c : cmp3(a[1], b[1]); }
static int rlex(const P2& a, const P2& b) { int c = cmp3(a[1], b[1]); return c ? c : cmp3(a[0], b[0]); }
static int lex(const P3& a, const P3& b) { for (int i = 0; i < 3; ++i) { int c = cmp3(a[i], b[i]); if (c) return c; } return 0; }
static int rlex(const P3& a, const P3& b) { for (int i = 2; i >= 0; --i) { int c = cmp3(a[i], b[i]); if (c) return c; } return 0; }
// what a container needs of an order, for three elements
template <class F, class T> static void order(const F& f, const T& a, const T& b, const T& c) { bool ab = f(a, b), ba = f(b, a), bc = f(b, c), cb = f(c, b), ac = f(a, c), ca = f(c, a); CHECK(!f(a, a), "irreflexive"); CHECK(!(ab && ba), "asymmetric"); if (ab && bc) CHECK(ac, "transitive"); if (!ab && !ba && !bc && !cb) CHECK(!ac && !ca, "ties-transitive"); }
SX_REAL(points, "any two points of the plane: coordinate by coordinate, first or last coordinate first") { P2 a = pt("a"), b = pt("b"); lexicographical_comparer<Exact> l; reverse_lexicographical_point_compare<Exact> r; CHECK(l(a, b) == (lex(a, b) < 0), "forward"); CHECK(lexicographically_less_than(a, b, Exact()) == (lex(a, b) < 0), "function"); CHECK(r(a, b) == (rlex(a, b) < 0), "reverse"); CHECK(geometrix::lexicographical_compare(a[0], b[0], a[1], b[1]) == (lex(a, b) < 0), "values"); CHECK(numeric_sequence_equals(a, b, Exact()) == (lex(a, b) == 0) && numeric_sequence_equals_2d(a, b, Exact()) == (lex(a, b) == 0), "equals"); }
SX_REAL(points_space, "any two points of space") { P3 a = pt3("a"), b = pt3("b"); lexicographical_comparer<Exact> l; reverse_lexicographical_point_compare<Exact> r; CHECK(l(a, b) == (lex(a, b) < 0), "forward"); CHECK(r(a, b) == (rlex(a, b) < 0), "reverse"); CHECK(geometrix::lexicographical_compare(a[0], b[0], a[1], b[1], a[2], b[2]) == (lex(a, b) < 0), "values"); CHECK(numeric_sequence_equals(a, b, Exact()) == (lex(a, b) == 0) && numeric_sequence_equals_3d(a, b, Exact()) == (lex(a, b) == 0), "equals"); }
SX_REAL(points_order, "any three points: strict weak orders") { P2 a = pt("a"), b = pt("b"), c = pt("c"); int w = sx_choose("which", 0, 3); if (w == 0) order(lexicographical_comparer<Exact>(), a, b, c); else if (w == 1) order(reverse_lexicographical_point_compare<Exact>(), a, b, c); else if (w == 2) order(dimension_compare<0, Exact>(Exact()), a, b, c); else order(dimension_compare<1, Exact>(Exact()), a, b, c); }
SX_REAL(points_tolerance, "two points and a tolerance: smaller exactly when some coordinate is smaller beyond it and those before it agree within it") { P2 a = pt("a", -100, 100), b = pt("b", -100, 100); Tol t(0.5); double x = b[0] - a[0], y = b[1] - a[1]; bool l = lexicographical_comparer<Tol>(t)(a, b), r = reverse_lexicographical_point_compare<Tol>(t)(a, b), e = numeric_sequence_equals(a, b, t); CHECK(l == (x > 0.5 || (x >= -0.5 && x <= 0.5 && y > 0.5)), "forward"); CHECK(r == (y > 0.5 || (y >= -0.5 && y <= 0.5 && x > 0.5)), "reverse"); CHECK(e == (x >= -0.5 && x <= 0.5 && y >= -0.5 && y <= 0.5), "equals"); }
SX_REAL(by_dimension, "any two points of space, by any coordinate first and the rest in order") { P3 a = pt3("a"), b = pt3("b"); int d = sx_choose("dim", 0, 2); bool r = d == 0 ? dimension_compare<0, Exact>(Exact())(a, b) : d == 1 ? dimension_compare<1, Exact>(Exact())(a, b) : dimension_compare<2, Exact>(Exact())(a, b); int c = cmp3(a[d], b[d]); CHECK(r == (c ? c < 0 : lex(a, b) < 0), "iff"); }
SX_REAL(segments, "any two segments, drawn either way: by lower end, then by upper end") { P2 p[4] = {pt("a"), pt("b"), pt("c"), pt("d")}; lexicographical_segment_compare<Exact> l; segment_interval_compare<Exact> i; S2 s(p[0], p[1]), t(p[2], p[3]); bool f = lex(p[0], p[1]) < 0, g = lex(p[2], p[3]) < 0; P2 l1 = f ? p[0] : p[1], u1 = f ? p[1] : p[0], l2 = g ? p[2] : p[3], u2 = g ? p[3] : p[2]; int c = lex(l1, l2); CHECK(l(s, t) == (c ? c < 0 : lex(u1, u2) < 0), "lexicographic"); CHECK(i(s, t) == (lex(u1, l2) < 0), "interval"); }
SX_REAL(segments_order, "three segments on one line and any third point: strict weak order") { double x[6]; for (int i = 0; i < 6; ++i) x[i] = in(nm("x", i)); S2 s[3]; for (int i = 0; i < 3; ++i) s[i] = S2(P2(x[2 * i], 0), P2(x[2 * i + 1], 0)); order(lexicographical_segment_compare<Exact>(), s[0], s[1], s[2]); }
SX_REAL(pairs, "any two pairs") { double a = in("a"), b = in("b"), c = in("c"), d = in("d"); auto lt = [](double x, double y) { return x < y; }; std::pair<double, double> p(a, b), q(c, d); pair_first_compare<decltype(lt)> f(lt); pair_second_compare<decltype(lt)> s(lt); CHECK(f(p, q) == (a < c), "first"); CHECK(s(p, q) == (b < d), "second"); }
// angles
static int sector(const V2& a, const V2& v) { double c = cr(a[0], a[1], v[0], v[1]), d = a[0] * v[0] + a[1] * v[1]; return c > 0 ? 1 : c < 0 ? 3 : d > 0 ? 0 : 2; }
static bool before(const V2& a, const V2& v, const V2& w) { int s = sector(a, v), t = sector(a, w); return s != t ? s < t : cr(v[0], v[1], w[0], w[1]) > 0; }
static void nonzero(const V2& v) { ASSUME_GT(v[0] * v[0] + v[1] * v[1], 0.0); }
SX_REAL(angle_vectors, "any reference and two vectors: the first comes earlier counterclockwise from the reference") { V2 r = vec("r"), a = vec("a"), b = vec("b"); nonzero(r); nonzero(a); nonzero(b); CHECK(vector_angle_compare<Exact>(r)(a, b) == before(r, a, b), "iff"); CHECK(vector_angle_compare<Exact>()(a, b) == before(V2(1, 0), a, b), "default"); }
SX_REAL(angle_vectors_order, "any three vectors: a strict weak order") { V2 a = vec("a"), b = vec("b"), c = vec("c"); nonzero(a); nonzero(b); nonzero(c); order(vector_angle_compare<Exact>(), a, b, c); }
SX_REAL(angle_points, "any origin and two other points") { P2 o = pt("o"), a = pt("a"), b = pt("b"); distinct(o, a); distinct(o, b); bool e = before(V2(1, 0), V2(a[0] - o[0], a[1] - o[1]), V2(b[0] - o[0], b[1] - o[1])); CHECK(point_angle_compare<Exact>(o)(a, b) == e, "iff"); }
SX_REAL(angle_pseudo, "any two vectors: the pseudo angle is in [0,4), grows with the angle, and is whole on the axes") { V2 a = vec("a"), b = vec("b"); nonzero(a); nonzero(b); double x = pseudo_angle(a), y = pseudo_angle(b); CHECK_GE(x, 0.0, "low"); CHECK_LT(x, 4.0, "high"); if (before(V2(1, 0), a, b)) CHECK_LT(x, y, "grows"); if (a[1] == 0) CHECK_EQ(x, a[0] > 0 ? 0.0 : 2.0, "x-axis"); if (a[0] == 0) CHECK_EQ(x, a[1] > 0 ? 1.0 : 3.0, "y-axis"); }
SX_FP(angle_pseudo_zero, "powers of two on the x axis with either zero: 0 ahead, 2 behind") { double x = std::ldexp(sx_choose("sign", 0, 1) ? -1.0 : 1.0, 300 * (int)sx_choose("e", -3, 3)); double z = sx_choose("negative", 0, 1) ? -0.0 : 0.0; CHECK_EQ(pseudo_angle(V2(x, z)), x > 0 ? 0.0 : 2.0, "axis"); }
SX_REAL(null_vector, "any vector: null exactly when every coordinate is zero (or within the tolerance)") { V3 v = vec3("v"); CHECK(is_null(v) == (v[0] == 0 && v[1] == 0 && v[2] == 0), "exact"); double t = 0.5; bool e = true; for (int i = 0; i < 3; ++i) e = e && v[i] <= t && v[i] >= -t; CHECK(is_null(v, Tol(t)) == e, "tolerance"); }
// sets of intervals on a line
typedef std::set<S2, segment_interval_compare<Exact>> Set;
static bool inside(double t, double a, double b) { return a < b ? a <= t && t <= b : b <= t && t <= a; }
static void cuts(bool uni) { double a = in("a"), b = in("b"), c = in("c"), d = in("d"), e = in("e"), f = in("f"), t = in("t"); ASSUME_LT(a, b); ASSUME_LT(b, c); ASSUME_LT(c, d); ASSUME_NE(e, f); int dir = sx_choose("direction", 0, 1), way = sx_choose("way", 0, 3); for (double x : {a, b, c, d, e, f}) ASSUME_NE(t, x);
    auto P = [&](double x) { return dir ? P2(0, x) : P2(x, 2 * x); }; auto Sg = [&](double x, double y, bool w) { return w ? S2(P(y), P(x)) : S2(P(x), P(y)); };
    Set s; s.insert(Sg(a, b, way & 1)); s.insert(Sg(c, d, way & 2)); CHECK(s.size() == 2, "disjoint"); if (uni) collinear_segment_union(s, S2(P(e), P(f)), Exact()); else collinear_segment_difference(s, S2(P(e), P(f)), Exact());
    bool had = inside(t, a, b) || inside(t, c, d), it = inside(t, e, f), want = uni ? had || it : had && !it; int n = 0; for (auto& g : s) if (inside(t, get_start(g)[dir], get_end(g)[dir])) ++n; CHECK(n == (want ? 1 : 0), "covers");
    for (auto& g : s) CHECK(get_start(g)[dir] != get_end(g)[dir], "no-empty"); }
SX_REAL(interval_union, "two separate segments of a line drawn either way, any third added: every point is covered by one piece exactly when it was or lies on the third") { cuts(true); }
SX_REAL(interval_difference, "the same, the third removed") { cuts(false); }
// numbers
SX_REAL(numbers, "any three numbers") { double a = in("a"), b = in("b"), c = in("c"); ASSUME_LE(b, c); CHECK_EQ(min_copy(a, b), a < b ? a : b, "min"); CHECK_EQ(max_copy(a, b), a < b ? b : a, "max"); double k = geometrix::clamp(a, b, c); CHECK(k >= b && k <= c && (k == a || (a < b && k == b) || (a > c && k == c)), "clamp"); CHECK(geometrix::sign(a) == (a >= 0 ? 1 : -1), "sign"); CHECK_EQ(absolute_value(a), a < 0 ? -a : a, "absolute"); }
SX_REAL(angles, "angles up to fifty turns either way: the normal form is in range and differs by whole turns") { double a = in("a", -300, 300), tp = constants::two_pi<double>(), pi = constants::pi<double>(); double r = normalize_angle_0_2pi_copy(a), s = normalize_angle_minus_pi_to_pi_copy(a); CHECK(r >= 0 && r <= tp, "range"); CHECK(s > -pi && s <= pi, "range-signed"); double n = (a - r) / tp, m = (a - s) / tp; CHECK_EQ(n, std::floor(n + 0.5), "turns"); CHECK_EQ(m, std::floor(m + 0.5), "turns-signed"); }
SX_REAL(nearer, "any reference and two points: the nearer comes first") { P2 o = pt("o"), a = pt("a"), b = pt("b"); distance_compare<P2, Exact> c(o, Exact()); CHECK(c(a, b) == (d2(o, a) < d2(o, b)), "plane"); P3 u = pt3("u"), v = pt3("v"), w = pt3("w"); distance_compare<P3, Exact> d(u, Exact()); CHECK(d(v, w) == (d2(u, v) < d2(u, w)), "space"); }
SX_REAL(nearer_tolerance, "the same with a tolerance on the squared distances") { P2 o = pt("o"), a = pt("a"), b = pt("b"); double e = in("e", 0, 10); distance_compare<P2, absolute_tolerance_comparison_policy<double>> c(o, absolute_tolerance_comparison_policy<double>(e)); double l = d2(o, a), r = d2(o, b); if (l < r - e) CHECK(c(a, b), "nearer"); if (l > r + e) CHECK(!c(a, b), "farther"); CHECK(!(c(a, b) && c(b, a)), "one-way"); }
