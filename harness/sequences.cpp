#include "g.h"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/algebra/exterior_product.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/polygon_with_holes_as_segment_range.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/point_sequence/find_subsequence.hpp>
#include <geometrix/algorithm/point_sequence/is_congruent.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
using namespace g;
typedef polygon<P2> PG; typedef polyline<P2> PL; typedef std::vector<P2> VP;
static PL line_(const VP& v) { PL r; for (auto& p : v) r.push_back(p); return r; }
static PG poly(const VP& v) { PG r; for (auto& p : v) r.push_back(p); return r; }
static bool eq(const P2& a, const P2& b) { return a[0] == b[0] && a[1] == b[1]; }
template <class B> static void bounds_ok(const VP& v, const B& b, std::size_t f, std::size_t l, double tol) {
    double x0 = std::get<e_xmin>(b), x1 = std::get<e_xmax>(b), y0 = std::get<e_ymin>(b), y1 = std::get<e_ymax>(b); bool hx0 = false, hx1 = false, hy0 = false, hy1 = false;
    for (std::size_t i = f; i <= l; ++i) { CHECK_GE(v[i][0], x0 - tol, "xmin"); CHECK_LE(v[i][0], x1 + tol, "xmax"); CHECK_GE(v[i][1], y0 - tol, "ymin"); CHECK_LE(v[i][1], y1 + tol, "ymax"); hx0 |= v[i][0] == x0; hx1 |= v[i][0] == x1; hy0 |= v[i][1] == y0; hy1 |= v[i][1] == y1; }
    CHECK(hx0 && hx1 && hy0 && hy1, "tight"); }
SX_REAL(bounds, "any 3 points of the plane: every point is within, each side touches one") { VP v; for (int i = 0; i < 3; ++i) v.push_back(pt(nm("p", i))); auto b = get_bounds(line_(v), Exact()); bounds_ok(v, b, 0, 2, 0); }
SX_REAL(bounds_tolerance, "any 3 points, with a tolerance") { VP v; for (int i = 0; i < 3; ++i) v.push_back(pt(nm("p", i), -1000, 1000)); auto b = get_bounds(poly(v), Tol(0.001)); bounds_ok(v, b, 0, 2, 0.001); }
SX_REAL(bounds_range, "any 4 points, bounds of a sub-range") { VP v; for (int i = 0; i < 4; ++i) v.push_back(pt(nm("p", i))); int f = sx_choose("first", 0, 2), l = f + 1; auto b = get_bounds(line_(v), std::make_tuple((std::size_t)f, (std::size_t)l), Exact()); bounds_ok(v, b, f, l, 0); }
SX_REAL(bounds_space, "any 2 points of space, whole and sub-range") { P3 a = pt3("a"), b = pt3("b"); std::vector<P3> v{a, b}; int w = sx_choose("range", 0, 1); auto t = w ? get_bounds(v, std::make_tuple(std::size_t(0), std::size_t(1)), Exact()) : get_bounds(v, Exact()); double lo[3] = {std::get<e_xmin>(t), std::get<e_ymin>(t), std::get<e_zmin>(t)}, hi[3] = {std::get<e_xmax>(t), std::get<e_ymax>(t), std::get<e_zmax>(t)}; for (int i = 0; i < 3; ++i) { CHECK_EQ(lo[i], a[i] < b[i] ? a[i] : b[i], "low"); CHECK_EQ(hi[i], a[i] < b[i] ? b[i] : a[i], "high"); } }
SX_REAL(bounds_union, "the union of any two boxes contains both and is tight") { typedef std::tuple<double, double, double, double> T; P2 a = pt("a"), b = pt("b"), c = pt("c"), d = pt("d"); ASSUME_LE(a[0], b[0]); ASSUME_LE(a[1], b[1]); ASSUME_LE(c[0], d[0]); ASSUME_LE(c[1], d[1]); T u = update_bound(T(a[0], b[0], a[1], b[1]), T(c[0], d[0], c[1], d[1])); VP v{a, b, c, d}; bounds_ok(v, u, 0, 3, 0); }
SX_REAL(bounds_union_space, "the same in space") { typedef std::tuple<double, double, double, double, double, double> T; P3 a = pt3("a"), b = pt3("b"), c = pt3("c"), d = pt3("d"); for (int i = 0; i < 3; ++i) { ASSUME_LE(a[i], b[i]); ASSUME_LE(c[i], d[i]); } T t = update_bound(T(a[0], b[0], a[1], b[1], a[2], b[2]), T(c[0], d[0], c[1], d[1], c[2], d[2])); double lo[3] = {std::get<e_xmin>(t), std::get<e_ymin>(t), std::get<e_zmin>(t)}, hi[3] = {std::get<e_xmax>(t), std::get<e_ymax>(t), std::get<e_zmax>(t)}; for (int i = 0; i < 3; ++i) { CHECK_EQ(lo[i], a[i] < c[i] ? a[i] : c[i], "low"); CHECK_EQ(hi[i], b[i] < d[i] ? d[i] : b[i], "high"); } }
SX_REAL(area_triangle, "any triangle: the signed area is half the determinant, its sign the orientation, and rotation of the vertices or a translation changes nothing") { P2 a = pt("a"), b = pt("b"), c = pt("c"); double s = get_signed_area(poly({a, b, c})); CHECK_EQ(2 * s, cr(a, b, c), "determinant"); CHECK_EQ(get_signed_area(poly({b, c, a})), s, "rotation"); CHECK_EQ(get_signed_area(poly({c, b, a})), -s, "reversal"); double u = get_area(poly({a, b, c})); CHECK_EQ(u * u, s * s, "area"); CHECK_GE(u, 0.0, "area"); }
SX_REAL(area_split, "any pentagon cut along a diagonal: areas add up") { VP v; for (int i = 0; i < 5; ++i) v.push_back(pt(nm("p", i))); int k = sx_choose("k", 2, 3); VP a(v.begin(), v.begin() + k + 1), b(v.begin() + k, v.end()); b.push_back(v[0]); double s = get_signed_area(poly(v)); CHECK_EQ(s, get_signed_area(poly(a)) + get_signed_area(poly(b)), "sum"); }
SX_REAL(centroid_triangle, "any triangle: the mean of its vertices") { P2 a = pt("a"), b = pt("b"), c = pt("c"); ASSUME_NE(cr(a, b, c), 0.0); P2 m = get_centroid(poly({a, b, c})); CHECK_EQ(3 * m[0], a[0] + b[0] + c[0], "x"); CHECK_EQ(3 * m[1], a[1] + b[1] + c[1], "y"); }
SX_REAL(centroid_split, "quadrilaterals with any two vertices: the centroid weighs the parts by their signed area") { P2 a = pt("a"), b(4, 0), c = pt("c"), d(0, 3); double s = cr(a, b, c), t = cr(a, c, d); ASSUME_NE(s + t, 0.0); P2 m = get_centroid(poly({a, b, c, d})); double x = s * (a[0] + b[0] + c[0]) + t * (a[0] + c[0] + d[0]), y = s * (a[1] + b[1] + c[1]) + t * (a[1] + c[1] + d[1]); CHECK_EQ(3 * (s + t) * m[0], x, "x"); CHECK_EQ(3 * (s + t) * m[1], y, "y"); }
SX_REAL(concave, "any triple of neighbours: concave exactly when not a left turn, whatever the index") { P2 a = pt("a"), b = pt("b"), c = pt("c"); VP v{a, b, c, P2(100, 200)}; int s = sx_choose("start", 0, 3); VP r; for (int i = 0; i < 4; ++i) r.push_back(v[(i + s) % 4]); std::size_t i = (1 + 4 - s) % 4; bool g = is_point_concave(poly(r), i), l = cr(a, b, c) > 0; CHECK(g == !l, "turn"); CHECK(next_index(r, i) == (i + 1) % 4 && prev_index(r, i) == (i + 3) % 4, "neighbours"); }
SX_REAL(edges, "any polygon of 4 points: its edges in order with the closing one; polylines without it; holes included") { VP v; for (int i = 0; i < 4; ++i) v.push_back(pt(nm("p", i))); auto e = polygon_as_segment_range<S2>(poly(v)); CHECK(e.size() == 4, "count"); for (std::size_t i = 0; i < e.size(); ++i) { check_same(get_start(e[i]), v[i], "start"); check_same(get_end(e[i]), v[(i + 1) % 4], "end"); } auto f = polyline_as_segment_range<S2>(line_(v)); CHECK(f.size() == 3, "count-open"); for (std::size_t i = 0; i < f.size(); ++i) { check_same(get_start(f[i]), v[i], "start"); check_same(get_end(f[i]), v[i + 1], "end"); } }
SX_REAL(edges_with_holes, "a square with two triangular holes moved anywhere: every edge of every outline once") { double x = in("x"); VP v{P2(x, 0), P2(x + 9, 0), P2(x + 9, 9), P2(x, 9)}, h{P2(x + 1, 1), P2(x + 2, 1), P2(x + 1, 2)}, k{P2(x + 4, 5), P2(x + 6, 5), P2(x + 5, 7)}; polygon_with_holes<P2> w(poly(v), std::vector<PG>{poly(h), poly(k)}); auto q = polygon_with_holes_as_segment_range<S2>(w); CHECK(q.size() == 10, "count-holes"); for (auto& r : {v, h, k}) for (std::size_t i = 0; i < r.size(); ++i) { int n = 0; for (auto& s : q) if (eq(get_start(s), r[i]) && eq(get_end(s), r[(i + 1) % r.size()])) ++n; CHECK(n == 1, "edge-once"); } }
SX_REAL(equality, "sequences of 3 points: equal exactly when every coordinate is, offsets rotate, reversal reverses") { VP v, u; for (int i = 0; i < 3; ++i) v.push_back(pt(nm("p", i))); u = v; int w = sx_choose("which", 0, 2); P2 q = pt("q"); u[w] = q; bool e = eq(q, v[w]); CHECK(point_sequences_equal(line_(v), line_(u), Exact()) == e, "iff"); int o = sx_choose("offset", 0, 2); VP r(3, P2(0, 0)); for (int i = 0; i < 3; ++i) r[(i + o) % 3] = u[i]; CHECK(polygons_equal(poly(v), poly(r), o, Exact()) == e, "rotated"); VP s(v.begin(), v.end() - 1); CHECK(!point_sequences_equal(line_(v), line_(s), Exact()) && !polygons_equal(poly(v), poly(s), 0, Exact()), "length"); auto b = geometrix::reverse(poly(v)); for (int i = 0; i < 3; ++i) check_same(b[i], v[2 - i], "reverse"); }
SX_REAL(equality_tolerance, "a coordinate off by any amount: equal exactly within the tolerance") { double t = in("t", -1, 1); VP v{P2(1, 2), P2(3, 4)}, u = v; int w = sx_choose("w", 0, 3); u[w / 2] = w % 2 ? P2(u[w / 2][0], u[w / 2][1] + t) : P2(u[w / 2][0] + t, u[w / 2][1]); bool e = point_sequences_equal(line_(v), line_(u), Tol(0.125)); if (t > 0.1250001 || t < -0.1250001) CHECK(!e, "apart"); if (t < 0.1249999 && t > -0.1249999) CHECK(e, "within"); }
SX_REAL(offset_of, "the offset of a polygon in a rotated copy is where its first vertex is found first") { VP v; for (int i = 0; i < 4; ++i) v.push_back(pt(nm("p", i))); P2 q = pt("q"); auto o = polygon_polygon_offset(poly({q, v[1], v[2], v[3]}), poly(v), Exact()); std::size_t e = (std::numeric_limits<std::size_t>::max)(); for (std::size_t i = 4; i-- > 0;) if (eq(q, v[i])) e = i; CHECK(o == e, "first"); }
// congruence
SX_REAL(congruent_moved, "chains of 3 points moved by any rotation and translation: congruent; mirrored: congruent only if straight") { V2 u = unit("u"); P2 a = pt("a"), b = pt("b"), d = pt("d"); distinct(a, b); int m = sx_choose("mirror", 0, 1), g = sx_choose("polygon", 0, 1); VP v{a, b, P2(3, 1)}, w; distinct(b, v[2]); distinct(v[2], a); double f = m ? -1 : 1; for (auto& p : v) w.push_back(P2(d[0] + u[0] * p[0] - u[1] * f * p[1], d[1] + u[1] * p[0] + u[0] * f * p[1])); bool r = g ? are_polygons_congruent(poly(v), poly(w), Exact()) : are_polylines_congruent(line_(v), line_(w), Exact()); if (!m) CHECK(r, "moved"); else { bool flat = cr(a, b, v[2]) == 0; CHECK(r == flat, "mirrored"); } }
SX_REAL(congruent_implies, "two chains of 3 points (first legs on the axes): congruent exactly when distances and turns agree") { double L = in("len", 0.01, 100), M = in("len2", 0.01, 100); VP v{P2(0, 0), P2(L, 0), pt("c", -100, 100)}, w{P2(0, 0), P2(0, M), pt("f", -100, 100)}; int g = sx_choose("polygon", 0, 1); bool r = g ? are_polygons_congruent(poly(v), poly(w), Exact()) : are_polylines_congruent(line_(v), line_(w), Exact()); bool e = d2(v[0], v[1]) == d2(w[0], w[1]) && d2(v[1], v[2]) == d2(w[1], w[2]) && d2(v[0], v[2]) == d2(w[0], w[2]) && cr(v[0], v[1], v[2]) == cr(w[0], w[1], w[2]); if (r) CHECK(e, "same"); else CHECK(!e, "differs"); }
SX_REAL(congruent_one_moved, "quadrilaterals and chains of 4 points with one vertex moved anywhere else are not congruent") { VP v{P2(0, 0), P2(5, 1), P2(4, 4), P2(-1, 2)}, w = v; int k = sx_choose("which", 0, 3), g = sx_choose("polygon", 0, 1); w[k] = pt("p"); bool e = eq(w[k], v[k]), r = g ? are_polygons_congruent(poly(v), poly(w), Exact()) : are_polylines_congruent(line_(v), line_(w), Exact()); if (k == 1 || k == 2 || g) CHECK(r == e, "iff"); else { int n = k == 0 ? 1 : 2; int z = k == 0 ? 2 : 1; bool q = d2(w[k], v[n]) == d2(v[k], v[n]) && cr(v[z], v[n], w[k]) == cr(v[z], v[n], v[k]) && dt(v[n], v[z], w[k]) == dt(v[n], v[z], v[k]); CHECK(r == q, "iff-end"); } }
// position on a border
static double cut2(const P2& p, const P2& a, const P2& b) { double L = d2(a, b), t = dt(a, b, p) / L; if (t < 0) t = 0; if (t > 1) t = 1; return d2(p, along(a, b, t)); }
static bool on_seg(const P2& p, const P2& a, const P2& b) { return cr(a, b, p) == 0 && dt(a, b, p) >= 0 && dt(a, b, p) <= d2(a, b); }
SX_REAL(border_edge, "any point and a pentagon: the first edge that holds it, else none; the nearest edge otherwise") { VP v{P2(0, 0), P2(4, 0), P2(6, 3), P2(2, 5), P2(-1, 3)}; P2 p = pt("p", -20, 20); boost::optional<std::size_t> h = find_containing_polygon_border_segment(poly(v), p, Exact()); int e = -1; for (int i = 4; i >= 0; --i) if (on_seg(p, v[i], v[(i + 1) % 5])) e = i; CHECK((bool)h == (e >= 0), "iff-on-border"); if (h && e >= 0) CHECK(*h == (std::size_t)e, "first"); auto c = find_closest_polygon_border_segment(poly(v), p); auto d = find_containing_or_closest_polygon_border_segment(poly(v), p, Exact()); CHECK(c < 5 && d < 5, "range"); if (c < 5) { double m = cut2(p, v[c], v[(c + 1) % 5]); for (int i = 0; i < 5; ++i) CHECK_LE(m, cut2(p, v[i], v[(i + 1) % 5]) + 1e-9, "nearest"); } if (e >= 0) CHECK(d == (std::size_t)e, "containing"); else CHECK(d == c, "or-nearest"); }
SX_REAL(subsequence, "a rectangle of any size, any point of any edge and any extent up to half round: the stretch of outline within the extent, both ways") {
    double w = in("w", 1, 100), h = in("h", 1, 100), t = in("t", 0, 1), x = in("extent", 0.01, 200); int k = sx_choose("edge", 0, 3); VP v{P2(0, 0), P2(w, 0), P2(w, h), P2(0, h)}; ASSUME_LE(x, w + h); double len[4] = {w, h, w, h}; P2 p = along(v[k], v[(k + 1) % 4], t); auto g = polygon_subsequence(poly(v), p, x, Exact()); CHECK(g.size() >= 2, "two"); if (g.size() < 2) return;
    double s = 0; for (std::size_t i = 0; i + 1 < g.size(); ++i) { bool ax = g[i][0] == g[i + 1][0] || g[i][1] == g[i + 1][1]; CHECK(ax, "along-the-outline"); double a = g[i + 1][0] - g[i][0], b = g[i + 1][1] - g[i][1]; if (a < 0) a = -a; if (b < 0) b = -b; s += a + b; } CHECK_EQ(s, 2 * x, "length");
    // the place x further on, and x back
    for (int dir = 0; dir < 2; ++dir) { double left = x; int e = k; P2 q = p; double rem = dir ? t * len[k] : (1 - t) * len[k]; while (left > rem) { left -= rem; q = dir ? v[e] : v[(e + 1) % 4]; e = dir ? (e + 3) % 4 : (e + 1) % 4; rem = len[e]; } P2 to = dir ? v[e] : v[(e + 1) % 4]; double f = rem > 0 ? left / rem : 0; P2 z = along(q, to, f); check_same(dir ? g[0] : g[g.size() - 1], z, "end"); } }
// --- longer sequences than the tests and the symbolic cases above hold
static VP bowl(int n, double x) { VP v; for (int i = 0; i < n; ++i) v.push_back(P2(x + i, i * (i - 9) * 0.5)); return v; }
SX_REAL(edges_many, "polygons and polylines of 3 to 10 points moved anywhere: their edges in order, the closing one for polygons") { int n = sx_choose("n", 3, 10); VP v = bowl(n, in("x")); auto e = polygon_as_segment_range<S2>(poly(v)); CHECK(e.size() == (std::size_t)n, "count"); for (std::size_t i = 0; i < e.size() && i < v.size(); ++i) { check_same(get_start(e[i]), v[i], "start"); check_same(get_end(e[i]), v[(i + 1) % n], "end"); } auto f = polyline_as_segment_range<S2>(line_(v)); CHECK(f.size() + 1 == (std::size_t)n, "count-open"); for (std::size_t i = 0; i < f.size() && i + 1 < v.size(); ++i) { check_same(get_start(f[i]), v[i], "start"); check_same(get_end(f[i]), v[i + 1], "end"); } for (int i = 0; i < n; ++i) CHECK(next_index(v, i) == std::size_t((i + 1) % n) && prev_index(v, i) == std::size_t((i + n - 1) % n), "neighbours"); auto b = geometrix::reverse(poly(v)); for (int i = 0; i < n; ++i) check_same(b[i], v[n - 1 - i], "reversed"); }
SX_REAL(equality_many, "sequences of 9 points with one coordinate of one point off by any amount, rotated by any offset") { double x = in("x"), t = in("t"); VP v = bowl(9, x), u = v; int w = sx_choose("which", 0, 8), c = sx_choose("coordinate", 0, 1), o = sx_choose("offset", 0, 8); u[w] = c ? P2(v[w][0], v[w][1] + t) : P2(v[w][0] + t, v[w][1]); bool e = t == 0; if (!o) CHECK(point_sequences_equal(line_(v), line_(u), Exact()) == e, "iff"); VP r(9, P2(0, 0)); for (int i = 0; i < 9; ++i) r[(i + o) % 9] = u[i]; CHECK(polygons_equal(poly(v), poly(r), o, Exact()) == e, "rotated"); if (w) CHECK(polygon_polygon_offset(poly(v), poly(r), Exact()) <= (std::size_t)o, "offset"); }
SX_REAL(measure_many, "polygons of 5 to 8 vertices, one of them anywhere: area, centroid and bounds from the triangles of a fan") { int n = sx_choose("n", 5, 8), w = sx_choose("which", 0, 7); if (w >= n) return; VP v; static const double Q[8][2] = {{0, 0}, {4, -1}, {7, 1}, {8, 4}, {6, 7}, {3, 8}, {0, 6}, {-1, 3}}; for (int i = 0; i < n; ++i) v.push_back(P2(Q[i][0], Q[i][1])); v[w] = pt("p", -1000, 1000); double s = 0, x = 0, y = 0; for (int i = 1; i + 1 < n; ++i) { double a = cr(v[0], v[i], v[i + 1]); s += a; x += a * (v[0][0] + v[i][0] + v[i + 1][0]); y += a * (v[0][1] + v[i][1] + v[i + 1][1]); } CHECK_EQ(2 * get_signed_area(poly(v)), s, "area"); ASSUME_NE(s, 0.0); P2 m = get_centroid(poly(v)); CHECK_EQ(3 * s * m[0], x, "centroid-x"); CHECK_EQ(3 * s * m[1], y, "centroid-y"); }
SX_REAL(bounds_many, "8 points, one of them anywhere: bounds of the whole and of every sub-range") { int w = 7 * sx_choose("which", 0, 1), f = sx_choose("first", 0, 7), l = sx_choose("last", 0, 7); if (l < f) return; VP v; static const double Q[8][2] = {{0, 0}, {4, -1}, {7, 1}, {8, 4}, {6, 7}, {3, 8}, {0, 6}, {-1, 3}}; for (int i = 0; i < 8; ++i) v.push_back(P2(Q[i][0], Q[i][1])); v[w] = pt("p"); if (f == 0 && l == 7) bounds_ok(v, get_bounds(poly(v), Exact()), 0, 7, 0); bounds_ok(v, get_bounds(line_(v), std::make_tuple((std::size_t)f, (std::size_t)l), Exact()), f, l, 0); }
SX_REAL(congruent_many, "polygons and chains of 7 points turned and moved: congruent; with one vertex anywhere else: not") { static const double Q[7][2] = {{0, 0}, {5, 1}, {6, 4}, {3, 6}, {4, 9}, {-1, 7}, {-2, 3}}; VP v, u; for (auto& q : Q) { v.push_back(P2(q[0], q[1])); u.push_back(P2(3 - q[1], 2 + q[0])); } int k = sx_choose("which", 1, 5), g = sx_choose("polygon", 0, 1), m = sx_choose("line", 0, 1); double t = in("t"); if (m) u[k] = P2(u[k][0], t); else u[k] = P2(t, u[k][1]); bool e = u[k][0] == 3 - Q[k][1] && u[k][1] == 2 + Q[k][0]; bool r = g ? are_polygons_congruent(poly(v), poly(u), Exact()) : are_polylines_congruent(line_(v), line_(u), Exact()); CHECK(r == e, "iff"); }
SX_REAL(border_many, "an outline of 9 edges: points of each edge are found on it, points off the outline on none, the nearest edge is nearest") { static const double Q[9][2] = {{0, 0}, {4, 0}, {4, 2}, {8, 2}, {10, 5}, {7, 9}, {3, 9}, {3, 6}, {0, 6}}; VP v; for (auto& q : Q) v.push_back(P2(q[0], q[1])); int k = sx_choose("edge", 0, 8); double t = in("t", 0.01, 0.99); P2 p = along(v[k], v[(k + 1) % 9], t); auto h = find_containing_polygon_border_segment(poly(v), p, Tol(1e-9)); CHECK(h && *h == (std::size_t)k, "edge"); auto c = find_closest_polygon_border_segment(poly(v), p), d = find_containing_or_closest_polygon_border_segment(poly(v), p, Tol(1e-9)); CHECK(c == (std::size_t)k && d == (std::size_t)k, "closest"); }
SX_REAL(subsequence_many, "a staircase of 8 vertices, any point of any edge, any extent up to 12 of its 36 round") { static const double Q[8][2] = {{0, 0}, {10, 0}, {10, 3}, {6, 3}, {6, 6}, {2, 6}, {2, 8}, {0, 8}}; VP v; for (auto& q : Q) v.push_back(P2(q[0], q[1])); int k = sx_choose("edge", 0, 7); double t = in("t", 0.01, 0.99), x = in("extent", 0.01, 12), len[8] = {10, 3, 4, 3, 4, 2, 2, 8}; P2 p = along(v[k], v[(k + 1) % 8], t); auto g = polygon_subsequence(poly(v), p, x, Tol(1e-9)); CHECK(g.size() >= 2, "two"); if (g.size() < 2) return;
    double s = 0; for (std::size_t i = 0; i + 1 < g.size(); ++i) { double a = g[i + 1][0] - g[i][0], b = g[i + 1][1] - g[i][1]; CHECK(a == 0 || b == 0, "along-the-outline"); if (a < 0) a = -a; if (b < 0) b = -b; s += a + b; } CHECK_EQ(s, 2 * x, "length");
    for (int dir = 0; dir < 2; ++dir) { double left = x; int e = k; P2 q = p; double rem = dir ? t * len[k] : (1 - t) * len[k]; while (left > rem) { left -= rem; q = dir ? v[e] : v[(e + 1) % 8]; e = dir ? (e + 7) % 8 : (e + 1) % 8; rem = len[e]; } P2 to = dir ? v[e] : v[(e + 1) % 8]; double f = rem > 0 ? left / rem : 0; P2 z = along(q, to, f); check_same(dir ? g[0] : g[g.size() - 1], z, "end"); } }
