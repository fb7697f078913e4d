#include "g.h"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
#include <geometrix/algorithm/point_sequence/remove_collinear_points.hpp>
#include <geometrix/algorithm/point_sequence/point_polyline_orientation.hpp>
#include <geometrix/algorithm/intersection/polyline_polyline_intersection.hpp>
#include <geometrix/algorithm/point_sequence/polyline_offset.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
using namespace g;
typedef polygon<P2> PG; typedef polyline<P2> PL; typedef std::vector<P2> VP;
static PL line_(const VP& v) { PL r; for (auto& p : v) r.push_back(p); return r; }
static PG poly(const VP& v) { PG r; for (auto& p : v) r.push_back(p); return r; }
static int sg(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static bool eq(const P2& a, const P2& b) { return a[0] == b[0] && a[1] == b[1]; }
// simplification: distinct first coordinates identify the vertices kept
static void simplified(const VP& v, const PL& g, double eps) {
    CHECK(g.size() >= 2, "two-ends"); if (g.size() < 2) return; CHECK(eq(g[0], v[0]) && eq(g[g.size() - 1], v.back()), "keeps-ends"); std::size_t at = 0;
    for (std::size_t k = 1; k < g.size(); ++k) { std::size_t j = at + 1; while (j < v.size() && !eq(v[j], g[k])) ++j; CHECK(j < v.size(), "vertex-of-input"); if (j >= v.size()) return; for (std::size_t m = at + 1; m < j; ++m) { double c = cr(v[at], v[j], v[m]), L = d2(v[at], v[j]); CHECK_LE(c * c, eps * eps * L * (1 + 1e-9) + 1e-9, "dropped-within-tolerance"); } at = j; }
    CHECK(at + 1 == v.size(), "keeps-order"); }
SX_REAL(simplify_one_free, "polylines of 5 points, one height free, any tolerance: ends kept, order kept, every dropped point within the tolerance of the line that replaces it") { int w = sx_choose("which", 1, 3); double y = in("y", -20, 20), e = in("eps", 0.001, 30); VP v{P2(0, 0), P2(2, 1), P2(5, -2), P2(7, 3), P2(9, 0)}; v[w] = P2(v[w][0], y); simplified(v, ramer_douglas_peucker_algorithm(line_(v), e), e); }
SX_REAL(simplify_three, "polylines of 3 points, the middle anywhere") { double x = in("x", -20, 20), y = in("y", -20, 20), e = in("eps", 0.001, 30); VP v{P2(0, 0), P2(x, y), P2(4, 0)}; distinct(v[0], v[1]); distinct(v[1], v[2]); auto g = ramer_douglas_peucker_algorithm(line_(v), e); CHECK((g.size() == 3) == (sq(y) > e * e), "kept-iff-far"); simplified(v, g, e); }
SX_REAL(simplify_flat, "points on a line collapse to the two ends for any tolerance") { double a = in("a", 0.01, 10), b = in("b", 0.01, 10), c = in("c", 0.01, 10), e = in("eps", 0.001, 30); VP v{P2(0, 3), P2(a, 3), P2(a + b, 3), P2(a + b + c, 3)}; auto g = ramer_douglas_peucker_algorithm(line_(v), e); CHECK(g.size() == 2, "two-points"); simplified(v, g, e); }
SX_REAL(simplify_long, "polylines of 9 points, one height free, any tolerance") { int w = 1 + 3 * sx_choose("which", 0, 2); double y = in("y", -20, 20), e = in("eps", 0.001, 30); static const double Q[9][2] = {{0, 0}, {2, 1}, {5, -2}, {7, 3}, {9, 0}, {12, 5}, {13, -4}, {17, 6}, {20, 1}}; VP v; for (auto& q : Q) v.push_back(P2(q[0], q[1])); v[w] = P2(v[w][0], y); simplified(v, ramer_douglas_peucker_algorithm(line_(v), e), e); }
// collinear points
static bool turn(const P2& a, const P2& b, const P2& c) { return cr(a, b, c) != 0; }
static VP strip(const VP& v, bool closed) { VP r; std::size_t n = v.size(); for (std::size_t i = 0; i < n; ++i) { if (!closed && (i == 0 || i + 1 == n)) { r.push_back(v[i]); continue; } if (turn(v[(i + n - 1) % n], v[i], v[(i + 1) % n])) r.push_back(v[i]); } return r; }
static bool same(const VP& a, const VP& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!eq(a[i], b[i])) return false; return true; }
static bool same_cycle(const VP& a, const VP& b) { if (a.size() != b.size()) return false; for (std::size_t s = 0; s < a.size(); ++s) { bool k = true; for (std::size_t i = 0; i < a.size() && k; ++i) k = eq(a[i], b[(i + s) % a.size()]); if (k) return true; } return false; }
static VP loop(int k, double t, double u) { // outlines with points on their straight edges, at any place of the edge
    if (k == 0) return VP{P2(0, 0), P2(10 * t, 0), P2(10, 0), P2(10, 8), P2(10 * u, 8), P2(0, 8)};
    if (k == 1) return VP{P2(0, 0), P2(10, 0), P2(10, 10 * t), P2(10, 10 * t + (10 - 10 * t) * u), P2(10, 10)};
    if (k == 3) return VP{P2(0, 0), P2(3 * t, 0), P2(3, 0), P2(3 + 4 * u, 0), P2(10, 0), P2(10, 8), P2(5, 11), P2(0, 8), P2(0, 8 - 8 * t)};
    if (k == 4) return VP{P2(0, 0), P2(1, 1), P2(1 + t, 1 + t), P2(6, 6), P2(-1, 7), P2(-1 + u * 0.5, 7 - 3.5 * u), P2(-0.25, 1.75)};
    return VP{P2(0, 0), P2(6, 0), P2(6 - 6 * t, 6 * t), P2(0, 6), P2(0, 6 * u)}; }
static VP rot(const VP& v, int s) { VP r; for (std::size_t i = 0; i < v.size(); ++i) r.push_back(v[(i + s) % v.size()]); return r; }
SX_REAL(collinear_polygon, "5 outlines of up to 9 vertices with two to four points anywhere on their straight edges, from any starting vertex: exactly the corners remain, in order") { int k = sx_choose("k", 0, 4); double t = in("t", 0.01, 0.99), u = in("u", 0.01, 0.99); VP v = loop(k, t, u); int s = sx_choose("start", 0, (int)v.size() - 1); v = rot(v, s); auto g = remove_collinear_points_polygon(poly(v), Exact()); VP r(g.begin(), g.end()), e = strip(v, true); CHECK(same_cycle(r, e), "corners"); }
SX_REAL(collinear_identify, "the indices reported for removal leave exactly the corners") { int k = sx_choose("k", 0, 4); double t = in("t", 0.01, 0.99), u = in("u", 0.01, 0.99); VP v = loop(k, t, u); int s = sx_choose("start", 0, (int)v.size() - 1); v = rot(v, s); auto ix = identify_collinear_points_polygon(poly(v), Exact()); VP r; for (std::size_t i = 0; i < v.size(); ++i) if (!ix.count(i)) r.push_back(v[i]); VP e = strip(v, true); CHECK(same_cycle(r, e), "corners"); }
SX_REAL(collinear_free, "quadrilaterals and pentagons with one vertex anywhere it does not fold an edge back") { int n = sx_choose("n", 4, 5), w = sx_choose("which", 0, n - 1); VP v{P2(0, 0), P2(4, 0), P2(5, 3), P2(2, 6)}; if (n == 5) v.push_back(P2(-1, 3)); v[w] = pt("p", -20, 20); for (int i = 0; i < n; ++i) { const P2 &a = v[(i + n - 1) % n], &b = v[i], &c = v[(i + 1) % n]; distinct(a, b); bool fold = cr(a, b, c) == 0 && dt(b, a, c) > 0; ASSUME(!fold); } auto g = remove_collinear_points_polygon(poly(v), Exact()); VP r(g.begin(), g.end()), e = strip(v, true); CHECK(same_cycle(r, e), "corners"); }
SX_REAL(collinear_polyline, "polylines of 5 points with two anywhere that does not fold back: exactly the turning points and both ends") { int w = sx_choose("which", 0, 4); VP v{P2(0, 0), P2(4, 0), P2(7, 0), P2(9, 2), P2(11, 4)}; v[w] = pt("p", -20, 20); for (int i = 0; i + 1 < 5; ++i) distinct(v[i], v[i + 1]); for (int i = 1; i + 1 < 5; ++i) { bool fold = cr(v[i - 1], v[i], v[i + 1]) == 0 && dt(v[i], v[i - 1], v[i + 1]) > 0; ASSUME(!fold); } auto g = remove_collinear_points_polyline(line_(v), Exact()); VP r(g.begin(), g.end()), e = strip(v, false); CHECK(same(r, e), "turns"); }
SX_REAL(collinear_long, "polylines of 8 points with runs of three and more on a line, two of them anywhere on their line") { double t = in("t", 0.01, 0.99), u = in("u", 0.01, 0.99); int r = sx_choose("reversed", 0, 1); VP v{P2(0, 0), P2(2 * t, 0), P2(2, 0), P2(2 + 3 * u, 0), P2(5, 0), P2(5 + t, 2 * t), P2(6, 2), P2(7, 4)}; if (r) std::reverse(v.begin(), v.end()); auto g = remove_collinear_points_polyline(line_(v), Exact()); VP q(g.begin(), g.end()), e = strip(v, false); CHECK(same(q, e), "turns"); auto h = clean_polyline(line_(v), Exact()); VP z(h.begin(), h.end()); CHECK(same(z, e), "cleaned"); }
static VP gaps(double d, double e) { return VP{P2(0, 0), P2(4, 0), P2(4 + d, 0), P2(4 + d, 4), P2(e, 4), P2(0, e)}; }
SX_REAL(coalesce_polygon, "outlines with two gaps of any size and any starting vertex: no two neighbours nearer than the tolerance, only such points dropped") { double d = in("d", 0, 1), e = in("e", 0, 1); VP v = gaps(d, e); int s = sx_choose("start", 0, 5); v = rot(v, s); Tol c(0.04); auto g = coalesce_adjacent_points_polygon(poly(v), c); for (std::size_t i = 0; i < g.size(); ++i) CHECK_GT(d2(g[i], g[(i + 1) % g.size()]), 0.04, "apart"); std::size_t drop = (d * d <= 0.04) + (e * e * 2 <= 0.04 && false); CHECK(g.size() <= v.size(), "subset"); auto ix = identify_adjacent_points_polygon(poly(v), c); VP r, q(g.begin(), g.end()); for (std::size_t i = 0; i < v.size(); ++i) if (!ix.count(i)) r.push_back(v[i]); CHECK(same(r, q), "indices-agree"); (void)drop; std::size_t m = 0; for (auto& p : v) { bool near = false; for (auto& z : q) if (d2(p, z) <= 0.04) near = true; CHECK(near, "represented"); (void)m; } }
SX_REAL(coalesce_polyline, "polylines of 4 points at any distances along a line") { double a = in("a", 0, 2), b = in("b", 0, 2), f = in("c", 0, 2); VP v{P2(0, 0), P2(a, 0), P2(a + b, 0), P2(a + b + f, 0)}; Tol c(0.25); auto g = coalesce_adjacent_points_polyline(line_(v), c); CHECK(eq(g[0], v[0]), "first"); for (std::size_t i = 0; i + 1 < g.size(); ++i) CHECK_GT(d2(g[i], g[i + 1]), 0.25, "apart"); for (auto& p : v) { bool near = false; for (auto& z : g) if (d2(p, z) <= 0.25) near = true; CHECK(near, "represented"); } auto z = clean_polyline(line_(v), c); CHECK(z.size() >= 1, "clean"); }
SX_REAL(clean_polygon_, "5 outlines with two to four extra points: cleaning leaves the corners") { int k = sx_choose("k", 0, 4); double t = in("t", 0.01, 0.99), u = in("u", 0.01, 0.99); VP v = loop(k, t, u); int s = sx_choose("start", 0, (int)v.size() - 1); v = rot(v, s); auto g = clean_polygon(poly(v), Exact()); VP r(g.begin(), g.end()), e = strip(v, true); CHECK(same_cycle(r, e), "corners"); }
// side of a point
static double cut2(const P2& p, const P2& a, const P2& b) { double L = d2(a, b), t = dt(a, b, p) / L; if (t < 0) t = 0; if (t > 1) t = 1; return d2(p, along(a, b, t)); }
SX_REAL(side, "3 polylines and any point: the side on which the point reaches its nearest place, collinear on the chain") {
    int k = sx_choose("k", 0, 2); VP v = k == 0 ? VP{P2(0, 0), P2(4, 0), P2(4, 3)} : k == 1 ? VP{P2(0, 0), P2(4, 0), P2(6, -3)} : VP{P2(0, 0), P2(4, 0), P2(4, 3), P2(8, 3)}; P2 p = pt("p", -20, 20); std::size_t best = 0; double d = cut2(p, v[0], v[1]); for (std::size_t i = 1; i + 1 < v.size(); ++i) { double e = cut2(p, v[i], v[i + 1]); if (e < d) { d = e; best = i; } }
    int want; if (d == 0) want = 0; else { const P2 &a = v[best], &b = v[best + 1]; double t = dt(a, b, p), L = d2(a, b); if (t >= L && best + 2 < v.size()) want = -sg(cr(a, b, v[best + 2])); else want = sg(cr(a, b, p)); if (t >= L && best + 2 == v.size()) want = sg(cr(a, b, p)); }
    auto o = point_polyline_orientation(p, line_(v), Exact()); int got = o == oriented_left ? 1 : o == oriented_right ? -1 : 0; CHECK(got == want, "side"); 
    if (d > 0) for (std::size_t i = best + 1; i + 1 < v.size(); ++i) { double L = d2(v[i], v[i + 1]), t = dt(v[i], v[i + 1], p); const P2 &q = v[i]; if (t <= 0 && t > -1e9 && d2(p, q) == d && i == best + 1) { auto u = point_polyline_orientation(p, line_(v), d, i, Exact()); int w = u == oriented_left ? 1 : u == oriented_right ? -1 : 0; CHECK(w == want, "side-from-next-piece"); } (void)L; } }
// offset
static void offset_ok(const VP& v, const PL& g, double off, int side, double slack) { CHECK(g.size() == v.size(), "as-many-points"); if (g.size() != v.size()) return; std::size_t n = v.size(); for (std::size_t i = 0; i + 1 < n; ++i) for (std::size_t m = i; m < i + 2; ++m) { double L2 = d2(v[i], v[i + 1]), c = cr(v[i], v[i + 1], g[m]) * side; CHECK_LE(c * c, off * off * L2 * (1 + slack), "at-offset"); CHECK_GE(c * c, off * off * L2 * (1 - slack), "at-offset"); CHECK_GT(c, 0.0, "on-side"); } double s = dt(v[0], v[1], g[0]), e = dt(v[n - 1], v[n - 2], g[n - 1]); CHECK_LE(s * s, 1e-9, "square-start"); CHECK_LE(e * e, 1e-9, "square-end"); }
SX_REAL(offset_axis, "axis-parallel chains with any leg lengths, turns both ways and straight joints, any offset, both sides: every vertex at the offset from both its edges") { int sh = sx_choose("shape", 0, 2), side = sx_choose("left", 0, 1) ? 1 : -1; double w = in("w", 1, 1000), h = in("h", 1, 1000), o = in("off", 0.01, 100); VP v = sh == 0 ? VP{P2(0, 0), P2(w, 0), P2(w, h), P2(2 * w, h)} : sh == 1 ? VP{P2(0, 0), P2(w, 0), P2(w + h, 0), P2(w + h, -h)} : VP{P2(0, 0), P2(0, h), P2(w, h), P2(w, 0)}; auto g = polyline_offset(line_(v), side > 0 ? oriented_left : oriented_right, o, Exact()); offset_ok(v, g, o, side, 1e-9); }
SX_REAL(offset_oblique, "3-4-5 chains, any offset and place") { int side = sx_choose("left", 0, 1) ? 1 : -1; double x = in("x", -100, 100), o = in("off", 0.01, 100); VP v{P2(x, 1), P2(x + 3, 5), P2(x + 9, 13), P2(x + 13, 10), P2(x + 13, 2)}; auto g = polyline_offset(line_(v), side > 0 ? oriented_left : oriented_right, o, Tol(1e-10)); offset_ok(v, g, o, side, 1e-6); }
SX_REAL(offset_segment, "a single segment in any direction") { P2 a = pt("a", -100, 100); V2 u = unit("u"); double L = in("len", 0.01, 100), o = in("off", 0.01, 100); int side = sx_choose("left", 0, 1) ? 1 : -1; P2 b(a[0] + L * u[0], a[1] + L * u[1]); auto g = polyline_offset(PL{a, b}, side > 0 ? oriented_left : oriented_right, o, Exact()); CHECK(g.size() == 2, "two"); check_same(g[0], P2(a[0] - side * o * u[1], a[1] + side * o * u[0]), "start"); check_same(g[1], P2(b[0] - side * o * u[1], b[1] + side * o * u[0]), "end"); }
SX_REAL(liu_offset, "offsets small against the legs have no self-crossings: one chain, the plain offset") { int side = sx_choose("left", 0, 1) ? 1 : -1; double w = in("w", 10, 1000), h = in("h", 10, 1000), o = in("off", 0.01, 1); VP v{P2(0, 0), P2(w, 0), P2(w, h), P2(2 * w, h)}; auto g = liu_polyline_offset(line_(v), side > 0 ? oriented_left : oriented_right, o, Exact()); CHECK(g.size() == 1, "one"); if (g.size() == 1) { bool mid = g[0].size() == 4; CHECK(mid, "points"); if (mid) offset_ok(v, g[0], o, side, 1e-9); } }
// curvature: sign of the turn, and pieces at sign changes
SX_REAL(curvature_sign, "a turn at any middle point: the curvature has the sign of the turn and the size 2 sin / distance") { double x = in("x", -20, 20), y = in("y", -20, 20); VP v{P2(0, 0), P2(x, y), P2(4, 0)}; distinct(v[0], v[1]); distinct(v[1], v[2]); double k = polyline_signed_curvature_at_index(line_(v), 1), c = cr(v[0], v[1], v[2]); CHECK(sg(k) == sg(c), "sign"); double m = d2(v[0], v[1]) * d2(v[1], v[2]) * d2(v[0], v[2]), r = k * k * m - 4 * c * c; CHECK_EQ(r, 0.0, "size"); CHECK_EQ(polyline_signed_curvature_at_index(line_(v), 0), 0.0, "ends"); CHECK_EQ(polyline_signed_curvature_at_index(line_(v), 2), 0.0, "ends"); }
SX_REAL(inflections, "polylines of 5 points with one height free: indices where the turn changes sign, and pieces that chain up to the input") { int w = sx_choose("which", 1, 3); double y = in("y", -20, 20); VP v{P2(0, 0), P2(2, 1), P2(5, -2), P2(7, 3), P2(9, 0)}; v[w] = P2(v[w][0], y); int s[5] = {0, 0, 0, 0, 0}; for (int i = 1; i < 4; ++i) s[i] = sg(cr(v[i - 1], v[i], v[i + 1])); auto g = inflection_points(line_(v)); for (std::size_t i = 2; i < 4; ++i) { bool in = std::find(g.begin(), g.end(), i) != g.end(); if (s[i] * s[i - 1] < 0) CHECK(in, "change-reported"); if (s[i] * s[i - 1] > 0) CHECK(!in, "no-change"); } for (std::size_t i = 1; i < g.size(); ++i) CHECK(g[i - 1] < g[i], "ascending"); auto p = split_polyline_by_inflection_points(line_(v)); VP j; for (std::size_t m = 0; m < p.size(); ++m) { CHECK(p[m].size() > 1, "piece"); if (m && p[m].size()) CHECK(eq(j.back(), p[m][0]), "joined"); for (std::size_t i = m ? 1 : 0; i < p[m].size(); ++i) j.push_back(p[m][i]); } CHECK(same(j, v), "whole"); }
SX_REAL(total_curvature, "axis-parallel chains with two turns of any leg lengths: total and absolute total are the sums over the vertices, absolute ignores the turn's side") { double w = in("w", 1, 100), h = in("h", 1, 100); int s = sx_choose("shape", 0, 1); VP v = s ? VP{P2(0, 0), P2(w, 0), P2(w, h), P2(0, h)} : VP{P2(0, 0), P2(w, 0), P2(w, h), P2(2 * w, h)}; auto l = line_(v); double a = polyline_total_curvature(l), b = polyline_total_absolute_curvature(l), i = polyline_total_curvature_over_index(l, 1), j = polyline_total_curvature_over_index(l, 2); CHECK_EQ(b, i + j, "absolute"); CHECK_EQ(a, s ? i + j : i - j, "signed"); double D = w * w + h * h, q = i * i * D - sq(w + h); CHECK_EQ(q, 0.0, "size"); auto p = split_by_total_curvature(l, 0.5); CHECK(p.size() >= 1, "pieces"); VP t; for (std::size_t m = 0; m < p.size(); ++m) for (std::size_t n = m ? 1 : 0; n < p[m].size(); ++n) t.push_back(p[m][n]); CHECK(same(t, v), "whole"); }
SX_REAL(split_curvature, "a zigzag of 6 points with any leg, any threshold: a piece ends at the first vertex where the turning collected since the last cut exceeds it") { double w = in("w", 1, 10), t = in("threshold", 0.01, 6); VP v{P2(0, 0), P2(w, 0), P2(w, 1), P2(2 * w, 1), P2(2 * w, 3), P2(0, 3)}; auto l = line_(v); auto p = split_by_total_curvature(l, t); std::size_t g = 0, n = 1; double sum = 0; for (std::size_t i = 1; i < v.size(); ++i) { sum += polyline_total_curvature_over_index(l, i); ++n; if (sum > t) { CHECK(g < p.size(), "piece"); if (g >= p.size()) return; CHECK(p[g].size() == n, "cut-at"); if (p[g].size() == n) CHECK(eq(p[g][n - 1], v[i]) && eq(p[g][0], v[i + 1 - n]), "cut-point"); ++g; n = 1; sum = 0; } } if (n > 1) { CHECK(g < p.size(), "rest"); if (g < p.size()) CHECK(p[g].size() == n, "rest-size"); ++g; } CHECK(g == p.size(), "pieces"); }
// the offset chain before trimming: miter where the lines meet on both pieces or beyond the first on both, else both ends
static VP raw_offset(const VP& v, double o, int side) { VP r; std::size_t n = v.size(); std::vector<V2> m; for (std::size_t i = 0; i + 1 < n; ++i) { double dx = v[i + 1][0] - v[i][0], dy = v[i + 1][1] - v[i][1], L = (dx > 0 ? dx : -dx) + (dy > 0 ? dy : -dy); m.push_back(V2(-side * o * dy / L, side * o * dx / L)); }
    auto at = [&](std::size_t i, std::size_t k) { return P2(v[i][0] + m[k][0], v[i][1] + m[k][1]); }; r.push_back(at(0, 0));
    for (std::size_t i = 1; i + 1 < n; ++i) { P2 a = at(i - 1, i - 1), b = at(i, i - 1), c = at(i, i), d = at(i + 1, i); P2 x(v[i][0] + m[i - 1][0] + m[i][0], v[i][1] + m[i - 1][1] + m[i][1]); double s = dt(a, b, x) / d2(a, b), t = dt(c, d, x) / d2(c, d); bool ts = s >= 0 && s <= 1, tt = t >= 0 && t <= 1; if ((ts && tt) || (!ts && !tt && s > 1)) r.push_back(x); else { r.push_back(b); r.push_back(c); } }
    r.push_back(at(n - 1, n - 2)); return r; }
static bool touch(const P2& a, const P2& b, const P2& c, const P2& d) { double x = std::min(a[0], b[0]), X = std::max(a[0], b[0]), y = std::min(a[1], b[1]), Y = std::max(a[1], b[1]), u = std::min(c[0], d[0]), U = std::max(c[0], d[0]), w = std::min(c[1], d[1]), W = std::max(c[1], d[1]); if (X < u || U < x || Y < w || W < y) return false; int p = sg(cr(a, b, c)), q = sg(cr(a, b, d)), r = sg(cr(c, d, a)), z = sg(cr(c, d, b)); return p * q <= 0 && r * z <= 0; }
SX_REAL(liu_slot, "axis-parallel chains with a slot, any offset up to twice the slot on both sides: the parts between the crossings of the offset chain that stay clear of the input, in order") {
    int side = sx_choose("left", 0, 1) ? 1 : -1, k = sx_choose("k", 0, 2); double o = in("off", 0.01, 2); VP v = k == 0 ? VP{P2(0, 0), P2(5, 0), P2(5, -1), P2(6, -1), P2(6, 0.25), P2(11, 0.25)} : k == 1 ? VP{P2(0, 0), P2(4, 0), P2(4, 3), P2(5.5, 3), P2(5.5, -0.5), P2(9, -0.5)} : VP{P2(0, 4), P2(0, 0), P2(3, 0), P2(3, 2), P2(1, 2), P2(1, 6)};
    VP u = raw_offset(v, o, side); struct X { std::size_t i; double d; P2 p; }; std::vector<X> xs; for (std::size_t i = 0; i + 1 < u.size(); ++i) ASSUME(d2(u[i], u[i + 1]) > 0);
    for (std::size_t i = 0; i + 1 < u.size(); ++i) for (std::size_t j = i + 1; j + 1 < u.size(); ++j) { if (j == i + 1) { bool back = cr(u[i], u[j], u[j + 1]) == 0 && dt(u[j], u[i], u[j + 1]) > 0; ASSUME(!back); continue; } if (!touch(u[i], u[i + 1], u[j], u[j + 1])) continue; double A = cr(u[i], u[i + 1], u[j]), B = cr(u[i], u[i + 1], u[j + 1]), C = cr(u[j], u[j + 1], u[i]), D = cr(u[j], u[j + 1], u[i + 1]); ASSUME(A * B < 0 && C * D < 0); P2 p = along(u[j], u[j + 1], A / (A - B)); xs.push_back({i, d2(u[i], p), p}); xs.push_back({j, d2(u[j], p), p}); }
    std::sort(xs.begin(), xs.end(), [](const X& a, const X& b) { return a.i != b.i ? a.i < b.i : a.d < b.d; });
    std::vector<VP> parts; VP cur{u[0]}; std::size_t e = 0; for (auto& x : xs) { while (e < x.i) { ++e; cur.push_back(u[e]); } cur.push_back(x.p); parts.push_back(cur); cur = VP{x.p}; } while (e + 1 < u.size()) { ++e; cur.push_back(u[e]); } parts.push_back(cur);
    std::vector<VP> want; for (auto& q : parts) { bool clear = true; if (!xs.empty()) for (std::size_t i = 0; clear && i + 1 < q.size(); ++i) for (std::size_t j = 0; clear && j + 1 < v.size(); ++j) if (touch(q[i], q[i + 1], v[j], v[j + 1])) clear = false; if (clear) want.push_back(q); }
    auto g = liu_polyline_offset(line_(v), side > 0 ? oriented_left : oriented_right, o, Exact()); CHECK(g.size() == want.size(), "parts"); if (g.size() != want.size()) return; for (std::size_t i = 0; i < g.size(); ++i) { CHECK(g[i].size() == want[i].size(), "points"); if (g[i].size() != want[i].size()) continue; for (std::size_t m = 0; m < g[i].size(); ++m) check_same(g[i][m], want[i][m], "vertex"); } }
// longer chains
static VP steps(const P2& o, const int (*d)[2], int n) { VP v{o}; for (int i = 0; i < n; ++i) v.push_back(P2(v.back()[0] + d[i][0], v.back()[1] + d[i][1])); return v; }
SX_REAL(offset_many, "chains of 11 points with legs along 3-4-5 directions, turns both ways and straight joints, any offset and place") { int side = sx_choose("left", 0, 1) ? 1 : -1, k = sx_choose("k", 0, 1); double x = in("x", -100, 100), o = in("off", 0.01, 100); static const int D[2][10][2] = {{{3, 4}, {6, 8}, {5, 0}, {10, 0}, {4, -3}, {8, 6}, {0, 5}, {-3, 4}, {-6, 8}, {5, 0}}, {{-4, 3}, {0, 7}, {3, 4}, {4, -3}, {12, -9}, {0, -6}, {3, -4}, {8, 6}, {4, 3}, {4, -3}}}; VP v = steps(P2(x, 1), D[k], 10); auto g = polyline_offset(line_(v), side > 0 ? oriented_left : oriented_right, o, Tol(1e-10)); offset_ok(v, g, o, side, 1e-6); }
SX_REAL(inflections_many, "chains of 11 points with one height free: indices where the turn changes sign, and pieces that chain up to the input") { int w = sx_choose("which", 1, 9); double y = in("y", -20, 20); VP v{P2(0, 0), P2(2, 1), P2(5, -2), P2(7, 3), P2(9, 4), P2(12, 3), P2(13, -1), P2(17, -2), P2(18, 0), P2(20, 5), P2(22, 1)}; v[w] = P2(v[w][0], y); int s[11] = {0}; for (int i = 1; i < 10; ++i) s[i] = sg(cr(v[i - 1], v[i], v[i + 1])); auto g = inflection_points(line_(v)); for (std::size_t i = 2; i < 10; ++i) { bool in = std::find(g.begin(), g.end(), i) != g.end(); if (s[i] * s[i - 1] < 0) CHECK(in, "change-reported"); if (s[i] * s[i - 1] > 0) CHECK(!in, "no-change"); } for (std::size_t i = 1; i < g.size(); ++i) CHECK(g[i - 1] < g[i], "ascending"); auto p = split_polyline_by_inflection_points(line_(v)); VP j; for (std::size_t m = 0; m < p.size(); ++m) { CHECK(p[m].size() > 1, "piece"); if (m && p[m].size()) CHECK(eq(j.back(), p[m][0]), "joined"); for (std::size_t i = m ? 1 : 0; i < p[m].size(); ++i) j.push_back(p[m][i]); } CHECK(same(j, v), "whole"); CHECK(p.size() <= g.size() + 1, "pieces"); }
SX_REAL(curvature_many, "a zigzag of 10 points with any leg: total and absolute total are the sums over the vertices, over every stretch") { double w = in("w", 1, 10); VP v{P2(0, 0), P2(w, 0), P2(w, 1), P2(2 * w, 1), P2(2 * w, 3), P2(0, 3), P2(0, 4), P2(-w, 4), P2(-w, 2), P2(-2 * w, 2)}; static const int S[10] = {0, 1, -1, 1, 1, -1, 1, 1, -1, 0}; auto l = line_(v); double a = 0, b = 0; for (int i = 1; i < 9; ++i) { double c = polyline_total_curvature_over_index(l, i); CHECK_GT(c, 0.0, "positive"); a += S[i] * c; b += c; } CHECK_LE(std::fabs(polyline_total_curvature(l) - a), 1e-9, "signed"); CHECK_LE(std::fabs(polyline_total_absolute_curvature(l) - b), 1e-9, "absolute"); }
SX_REAL(split_curvature_many, "the same, any threshold: a piece ends at the first vertex where the turning collected since the last cut exceeds it") { double w = in("w", 1, 10), t = in("threshold", 0.01, 12); VP v{P2(0, 0), P2(w, 0), P2(w, 1), P2(2 * w, 1), P2(2 * w, 3), P2(0, 3), P2(0, 4), P2(-w, 4), P2(-w, 2), P2(-2 * w, 2)}; auto l = line_(v); auto p = split_by_total_curvature(l, t); std::size_t g = 0, n = 1; double sum = 0; for (std::size_t i = 1; i < v.size(); ++i) { sum += polyline_total_curvature_over_index(l, i); ++n; if (sum > t) { CHECK(g < p.size(), "piece"); if (g >= p.size()) return; CHECK(p[g].size() == n, "cut-at"); if (p[g].size() == n) CHECK(eq(p[g][n - 1], v[i]) && eq(p[g][0], v[i + 1 - n]), "cut-point"); ++g; n = 1; sum = 0; } } if (n > 1) { CHECK(g < p.size(), "rest"); if (g < p.size()) CHECK(p[g].size() == n, "rest-size"); ++g; } CHECK(g == p.size(), "pieces"); }
SX_REAL(coalesce_polygon_many, "an outline of 11 vertices, two runs of near vertices with any two gaps, any starting vertex") { double d = in("d", 0, 0.5), e = in("e", 0, 0.5); VP v{P2(0, 0), P2(3, -1), P2(6, 0), P2(6 + d, 0), P2(6 + d, 0.25), P2(6 + d, 4), P2(4, 6), P2(2, 5), P2(2 - e, 5), P2(2 - e - 0.1, 5), P2(-1, 3)}; v = rot(v, sx_choose("start", 0, 10)); Tol c(0.04); auto g = coalesce_adjacent_points_polygon(poly(v), c); VP q(g.begin(), g.end()), r; for (std::size_t i = 0; i < q.size(); ++i) CHECK_GT(d2(q[i], q[(i + 1) % q.size()]), 0.04, "apart"); auto ix = identify_adjacent_points_polygon(poly(v), c); for (std::size_t i = 0; i < v.size(); ++i) if (!ix.count(i)) r.push_back(v[i]); CHECK(same(r, q), "indices-agree"); for (std::size_t i = 0; i < v.size(); ++i) if (d2(v[i], v[(i + 1) % v.size()]) > 0.04 && d2(v[i], v[(i + v.size() - 1) % v.size()]) > 0.04) CHECK(!ix.count(i), "kept"); }
SX_REAL(coalesce_polyline_many, "a polyline of 10 points, two runs of near points with any two gaps") { double d = in("d", 0, 1), e = in("e", 0, 1); VP v{P2(0, 0), P2(2, 0), P2(2 + d, 0), P2(2 + d + e, 0), P2(5, 1), P2(5, 3), P2(5, 3 + e), P2(5, 3.3 + e), P2(4, 6), P2(1, 7)}; Tol c(0.25); auto g = coalesce_adjacent_points_polyline(line_(v), c); VP q(g.begin(), g.end()); CHECK(eq(q[0], v[0]), "first"); for (std::size_t i = 0; i + 1 < q.size(); ++i) CHECK_GT(d2(q[i], q[i + 1]), 0.25, "apart"); std::size_t m = 0; for (std::size_t i = 0; i < v.size(); ++i) { bool alone = (i == 0 || d2(v[i], v[i - 1]) > 0.25) && (i + 1 == v.size() || d2(v[i], v[i + 1]) > 0.25); if (m < q.size() && eq(q[m], v[i])) ++m; else CHECK(!alone, "kept"); } CHECK(m == q.size(), "in-order"); }
SX_REAL(side_many, "a chain of 9 points and any point of six lines: the side on which the point reaches its nearest place") { VP v{P2(0, 0), P2(4, 0), P2(4, 3), P2(8, 3), P2(10, -1), P2(13, -1), P2(14, 4), P2(11, 7), P2(3, 7)}; int w = sx_choose("line", 0, 5), rev = sx_choose("reversed", 0, 1); if (rev) std::reverse(v.begin(), v.end()); double x = in("x", -20, 20); P2 p = w < 3 ? P2(x, -2.25 + 4 * w) : w < 5 ? P2(2 + 7 * (w - 3), x) : P2(x, x / 2 - 0.7); std::size_t best = 0; double d = cut2(p, v[0], v[1]); for (std::size_t i = 1; i + 1 < v.size(); ++i) { double e = cut2(p, v[i], v[i + 1]); if (e < d) { d = e; best = i; } }
    int want; if (d == 0) want = 0; else { const P2 &a = v[best], &b = v[best + 1]; double t = dt(a, b, p), L = d2(a, b); want = t >= L && best + 2 < v.size() ? -sg(cr(a, b, v[best + 2])) : sg(cr(a, b, p)); } auto o = point_polyline_orientation(p, line_(v), Exact()); CHECK((o == oriented_left ? 1 : o == oriented_right ? -1 : 0) == want, "side"); }
