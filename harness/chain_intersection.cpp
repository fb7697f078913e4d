#include "g.h"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polygon_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_polyline_intersection.hpp>
#include <geometrix/algorithm/point_sequence/self_intersection.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
using namespace g;
typedef polygon<P2> PG; typedef polyline<P2> PL; typedef std::vector<P2> VP;
static int sg(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static bool on_seg(const P2& p, const P2& a, const P2& b) { return cr(a, b, p) == 0 && dt(a, b, p) >= 0 && dt(a, b, p) <= d2(a, b); }
// 0 apart, 1 proper crossing, 2 one shared point that is an end of one, 3 overlap
static int meet(const P2& a, const P2& b, const P2& c, const P2& d) {
    int s = sg(cr(a, b, c)), t = sg(cr(a, b, d)), u = sg(cr(c, d, a)), v = sg(cr(c, d, b)); if (s * t < 0 && u * v < 0) return 1;
    if (s == 0 && t == 0) { double L = d2(a, b), x = dt(a, b, c), y = dt(a, b, d), lo = x < y ? x : y, hi = x < y ? y : x; if (lo < 0) lo = 0; if (hi > L) hi = L; return hi < lo ? 0 : hi > lo ? 3 : 2; }
    if ((s == 0 && on_seg(c, a, b)) || (t == 0 && on_seg(d, a, b)) || (u == 0 && on_seg(a, c, d)) || (v == 0 && on_seg(b, c, d))) return 2; return 0; }
static int kind(intersection_type t) { return t == e_crossing ? 1 : t == e_endpoint ? 2 : t == e_overlapping ? 3 : 0; }
static PG poly(const VP& v) { PG r; for (auto& p : v) r.push_back(p); return r; }
static PL line_(const VP& v) { PL r; for (auto& p : v) r.push_back(p); return r; }
struct Hit { int k; std::size_t i, j, m, n; P2 x, y; };
static void on_both(const Hit& h, const P2& a, const P2& b, const P2& c, const P2& d) { check_on_segment(h.x, a, b, "x-on-first"); check_on_segment(h.x, c, d, "x-on-second"); if (h.k == 3) { check_on_segment(h.y, a, b, "y-on-first"); check_on_segment(h.y, c, d, "y-on-second"); CHECK_GT(d2(h.x, h.y), 0.0, "overlap-extent"); } }
static const double CH[3][12] = {{0, 0, 6, 0, 6, 5, 4, 5, 3, 2, 0, 5}, {0, 0, 3, 0, 3, 1, 6, 1, 6, 3, 2, 3}, {0, 0, 2, 2, 4, 0, 4, 4, 2, 6, 0, 4}};
static VP chain(int k) { VP v; for (int i = 0; i < 6; ++i) v.push_back(P2(CH[k][2 * i], CH[k][2 * i + 1])); return v; }
template <class F> static void seg_chain(const P2& a, const P2& b, const VP& v, bool closed, int stop, F f) {
    std::vector<Hit> got; bool r = f([&](intersection_type t, std::size_t i, std::size_t j, const P2& x, const P2& y) { got.push_back({kind(t), i, j, 0, 0, x, y}); return stop == (int)got.size(); });
    std::size_t n = v.size() - (closed ? 0 : 1), g = 0; bool any = false, stopped = false; for (std::size_t i = 0; i < n && !stopped; ++i) { std::size_t j = (i + 1) % v.size(); int k = meet(a, b, v[i], v[j]); if (!k) continue; any = true; CHECK(g < got.size(), "missing"); if (g >= got.size()) return; Hit& h = got[g++]; CHECK(h.k == k, "kind"); CHECK(h.i == i && h.j == j, "indices"); on_both(h, a, b, v[i], v[j]); if (stop == (int)g) stopped = true; }
    CHECK(g == got.size(), "extra"); CHECK(r == any, "result"); }
static void ends(P2& a, P2& b) { static const double S[3][2] = {{0, 0}, {3, 2}, {1, 1}}; int m = sx_choose("from", 0, 2); a = P2(S[m][0], S[m][1]); b = pt("b"); distinct(a, b); }
SX_REAL(segment_polyline, "segments from 3 points to any end against 3 polylines of 6 points: the visitor sees exactly the pieces that meet, in order, until it stops") { int k = sx_choose("k", 0, 2), s = sx_choose("stop", 0, 1); P2 a, b; ends(a, b); auto v = chain(k); auto l = line_(v); seg_chain(a, b, v, false, s, [&](std::function<bool(intersection_type, std::size_t, std::size_t, const P2&, const P2&)> f) { return s ? segment_polyline_intersect(S2(a, b), l, f, Exact()) : segment_polyline_intersect(a, b, l, f, Exact()); }); }
SX_REAL(segment_border, "the same for polygon outlines with the closing edge") { int k = sx_choose("k", 0, 2), s = sx_choose("stop", 0, 1); P2 a, b; ends(a, b); auto v = chain(k); auto l = poly(v); seg_chain(a, b, v, true, s, [&](std::function<bool(intersection_type, std::size_t, std::size_t, const P2&, const P2&)> f) { return s ? segment_polygon_border_intersect(S2(a, b), l, f, Exact()) : segment_polygon_border_intersect(a, b, l, f, Exact()); }); }
SX_REAL(polyline_polyline, "two polylines of 4 and 6 points at any horizontal offset on 4 heights") {
    int k = sx_choose("k", 0, 2), h = sx_choose("h", 0, 3), s = sx_choose("stop", 0, 1) * 2; double x = in("x"); VP u{P2(x, h), P2(2 + x, h), P2(3 + x, 1 + h), P2(5 + x, h - 1)}, v = chain(k); std::vector<Hit> got;
    bool r = polyline_polyline_intersect(line_(u), line_(v), [&](intersection_type t, std::size_t i, std::size_t j, std::size_t m, std::size_t n, const P2& p, const P2& q) { got.push_back({kind(t), i, j, m, n, p, q}); return s == (int)got.size(); }, Exact());
    std::size_t g = 0; bool stopped = false, any = false; for (std::size_t i = 0; i + 1 < u.size() && !stopped; ++i) for (std::size_t j = 0; j + 1 < v.size() && !stopped; ++j) { int kk = meet(u[i], u[i + 1], v[j], v[j + 1]); if (!kk) continue; any = true; CHECK(g < got.size(), "missing"); if (g >= got.size()) return; Hit& q = got[g++]; CHECK(q.k == kk, "kind"); CHECK(q.i == i && q.j == i + 1 && q.m == j && q.n == j + 1, "indices"); on_both(q, u[i], u[i + 1], v[j], v[j + 1]); if (s == (int)g) stopped = true; }
    CHECK(g == got.size(), "extra"); CHECK(r == any, "result"); }
SX_REAL(self_intersection, "polylines of 5 points, one of them anywhere: exactly the pairs of pieces that meet apart from shared ends") {
    int w = sx_choose("which", 0, 4); VP v{P2(0, 0), P2(4, 0), P2(4, 3), P2(1, 3), P2(1, -2)}; v[w] = pt("p"); for (int i = 0; i < 4; ++i) distinct(v[i], v[i + 1]); std::vector<Hit> got; bool r = polyline_self_intersection(line_(v), [&](std::size_t i, std::size_t j, intersection_type t, const P2& x, const P2& y) { got.push_back({kind(t), i, j, 0, 0, x, y}); }, Exact());
    std::size_t g = 0; for (std::size_t i = 0; i < 4; ++i) for (std::size_t j = i + 1; j < 4; ++j) { int k = meet(v[i], v[i + 1], v[j], v[j + 1]); if (!k || (j == i + 1 && k != 3)) continue; CHECK(g < got.size(), "missing"); if (g >= got.size()) return; Hit& q = got[g++]; CHECK(q.k == k && q.i == i && q.j == j, "pair"); on_both(q, v[i], v[i + 1], v[j], v[j + 1]); }
    CHECK(g == got.size(), "extra"); CHECK(r == (g > 0), "result"); }
SX_REAL(self_intersection_many, "polylines of 9 points, one of them anywhere on 2 lines: exactly the pairs of pieces that meet apart from shared ends") {
    int w = sx_choose("which", 0, 8), l = sx_choose("line", 0, 1); VP v{P2(0, 0), P2(6, 0), P2(6, 5), P2(1, 5), P2(1, 2), P2(4, 2), P2(4, 8), P2(-2, 8), P2(-2, 1)}; double x = in("x", -50, 50); v[w] = l ? P2(x, 3) : P2(3, x); for (int i = 0; i < 8; ++i) distinct(v[i], v[i + 1]); std::vector<Hit> got; bool r = polyline_self_intersection(line_(v), [&](std::size_t i, std::size_t j, intersection_type t, const P2& x, const P2& y) { got.push_back({kind(t), i, j, 0, 0, x, y}); }, Exact());
    std::size_t g = 0; for (std::size_t i = 0; i < 8; ++i) for (std::size_t j = i + 1; j < 8; ++j) { int k = meet(v[i], v[i + 1], v[j], v[j + 1]); if (!k || (j == i + 1 && k != 3)) continue; CHECK(g < got.size(), "missing"); if (g >= got.size()) return; Hit& q = got[g++]; CHECK(q.k == k && q.i == i && q.j == j, "pair"); on_both(q, v[i], v[i + 1], v[j], v[j + 1]); }
    CHECK(g == got.size(), "extra"); CHECK(r == (g > 0), "result"); }
static bool simple(const VP& v) { std::size_t n = v.size(); for (std::size_t i = 0; i < n; ++i) for (std::size_t j = i + 1; j < n; ++j) { int k = meet(v[i], v[(i + 1) % n], v[j], v[(j + 1) % n]); bool adj = j == i + 1 || (i == 0 && j == n - 1); if (adj ? k == 3 : k != 0) return false; } return true; }
SX_REAL(simple_quadrilateral, "quadrilaterals with one vertex anywhere") { int w = sx_choose("which", 0, 3); VP v{P2(0, 0), P2(4, 0), P2(3, 3), P2(1, 2)}; v[w] = pt("p"); for (int i = 0; i < 4; ++i) distinct(v[i], v[(i + 1) % 4]); bool s = simple(v); CHECK(is_polygon_simple(poly(v), Exact()) == s, "iff-simple"); CHECK(is_polygon_simple_memoized(poly(v), Exact()) == s, "memoized"); }
SX_REAL(simple_hexagon, "hexagons with one vertex anywhere on 3 lines, both orientations") { int w = sx_choose("which", 0, 5), l = sx_choose("line", 0, 2), rev = sx_choose("rev", 0, 1); VP v = chain(0); double x = in("x"); v[w] = l == 0 ? P2(x, 2) : l == 1 ? P2(3, x) : P2(x, 2 * x); if (rev) { VP r(v.rbegin(), v.rend()); v = r; } for (int i = 0; i < 6; ++i) distinct(v[i], v[(i + 1) % 6]); bool s = simple(v); CHECK(is_polygon_simple(poly(v), Exact()) == s, "iff-simple"); CHECK(is_polygon_simple_memoized(poly(v), Exact()) == s, "memoized"); }
SX_REAL(simple_many, "polygons of 7 to 10 vertices with one of them anywhere on 2 lines") { int n = 7 + 3 * sx_choose("n", 0, 1), w = sx_choose("which", 0, 9), l = sx_choose("line", 0, 1); if (w >= n || (n != 10 && w != 0 && w < n - 2)) return; static const double Q[10][2] = {{0, 0}, {4, -1}, {8, 0}, {10, 3}, {10, 7}, {7, 9}, {4, 8}, {2, 10}, {-1, 7}, {-2, 3}}; VP v; for (int i = 0; i < n; ++i) v.push_back(P2(Q[i][0], Q[i][1])); double x = in("x", -50, 50); v[w] = l ? P2(x, 5) : P2(3, x); for (int i = 0; i < n; ++i) distinct(v[i], v[(i + 1) % n]); bool s = simple(v); CHECK(is_polygon_simple(poly(v), Exact()) == s, "iff-simple"); CHECK(is_polygon_simple_memoized(poly(v), Exact()) == s, "memoized"); }
SX_REAL(holes_many, "an octagon with three holes of 4 to 6 vertices, one vertex of one outline anywhere on a line") { int o = sx_choose("outline", 0, 3), w = sx_choose("which", 0, 1), n = 1 + 2 * sx_choose("holes", 0, 1); if (o > n || (o % 2 == w && o)) return; std::vector<VP> q{VP{P2(0, 0), P2(20, -1), P2(30, 0), P2(31, 10), P2(30, 20), P2(20, 21), P2(0, 20), P2(-1, 10)}, VP{P2(2, 2), P2(6, 3), P2(5, 8), P2(1, 7)}, VP{P2(10, 4), P2(14, 3), P2(15, 7), P2(12, 9), P2(9, 7)}, VP{P2(20, 5), P2(24, 4), P2(26, 8), P2(25, 12), P2(21, 13), P2(19, 9)}}; q.resize(n + 1); double x = in("x", -50, 50); std::size_t at = w ? q[o].size() - 1 : 1; q[o][at] = P2(x, q[o][at][1]); for (auto& r : q) for (std::size_t i = 0; i < r.size(); ++i) distinct(r[i], r[(i + 1) % r.size()]);
    bool s = true; for (auto& r : q) if (!simple(r)) s = false; for (std::size_t i = 0; s && i < q.size(); ++i) for (std::size_t j = i + 1; j < q.size(); ++j) for (std::size_t m = 0; m < q[i].size(); ++m) for (std::size_t k = 0; k < q[j].size(); ++k) if (meet(q[i][m], q[i][(m + 1) % q[i].size()], q[j][k], q[j][(k + 1) % q[j].size()])) s = false;
    std::vector<PG> h; for (int i = 1; i <= n; ++i) h.push_back(poly(q[i])); polygon_with_holes<P2> p(poly(q[0]), h); CHECK(is_polygon_with_holes_simple(p, Exact()) == s, "iff-simple"); }
SX_REAL(holes, "a hexagon with two triangular holes, one anywhere horizontally on 3 heights: simple exactly when no outline crosses itself or another") { int h = sx_choose("h", 0, 2); double x = in("x"); VP o{P2(0, 0), P2(10, 0), P2(12, 4), P2(10, 8), P2(0, 8), P2(-2, 4)}, a{P2(2, 2), P2(4, 3), P2(2, 5)}, b{P2(x, h), P2(x + 1, h), P2(x, h + 2)}; typedef polygon_with_holes<P2> PH; PH p(poly(o), std::vector<PG>{poly(a), poly(b)}); bool s = true; VP* q[3] = {&o, &a, &b}; for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 3; ++j) for (std::size_t m = 0; m < q[i]->size(); ++m) for (std::size_t n = 0; n < q[j]->size(); ++n) if (meet((*q[i])[m], (*q[i])[(m + 1) % q[i]->size()], (*q[j])[n], (*q[j])[(n + 1) % q[j]->size()])) s = false; CHECK(is_polygon_with_holes_simple(p, Exact()) == s, "iff-simple"); }
// pieces of a segment inside a polygon
static bool inside(const P2& p, const VP& v) { bool r = false; for (std::size_t i = 0; i < v.size(); ++i) { const P2 &a = v[i], &b = v[(i + 1) % v.size()]; if ((a[0] <= p[0]) != (b[0] <= p[0]) && (cr(a, b, p) < 0) == (b[0] > a[0])) r = !r; } return r; }
static bool border(const P2& p, const VP& v) { for (std::size_t i = 0; i < v.size(); ++i) if (on_seg(p, v[i], v[(i + 1) % v.size()])) return true; return false; }
SX_REAL(segment_polygon, "segments from 3 points to any end on 3 lines against 2 polygons: any point of the segment is in a visited piece exactly when it is in the polygon") {
    static const double S[3][2] = {{0, 0}, {3, 2.5}, {1, 1}}; int k = sx_choose("k", 0, 1), m = sx_choose("from", 0, 2), w = sx_choose("line", 0, 2); double t = in("b"), s = in("s", 0, 1); P2 a(S[m][0], S[m][1]), b = w == 0 ? P2(t, 4) : w == 1 ? P2(5, t) : P2(t, 0); distinct(a, b); auto v = chain(k); std::vector<S2> got; bool r = segment_polygon_intersection(S2(a, b), poly(v), [&](const S2& q) { got.push_back(q); }, Exact());
    P2 y = along(a, b, s); bool onb = border(y, v), ins = inside(y, v), in_piece = false; for (auto& q : got) { P2 c = get_start(q), d = get_end(q); check_on_segment(c, a, b, "piece-on-segment"); check_on_segment(d, a, b, "piece-on-segment"); if (on_seg(y, c, d)) in_piece = true; }
    if (ins && !onb) { CHECK(in_piece, "inside-covered"); CHECK(r, "result"); } if (!ins && !onb) CHECK(!in_piece, "outside-excluded"); if (onb) CHECK(r, "result-touch");
    for (std::size_t i = 0; i < v.size(); ++i) { const P2 &e = v[i], &f = v[(i + 1) % v.size()]; if (cr(a, b, e) == 0 && cr(a, b, f) == 0 && on_seg(y, e, f) && d2(y, e) > 0 && d2(y, f) > 0) CHECK(in_piece, "border-covered"); }
    for (std::size_t i = 0; i < got.size(); ++i) { P2 c = get_start(got[i]), d = get_end(got[i]); for (std::size_t j = i + 1; j < got.size(); ++j) { P2 e = get_start(got[j]), f = get_end(got[j]); double l = dt(a, b, c), h = dt(a, b, d), m = dt(a, b, e), n = dt(a, b, f); CHECK((l > m - 1e-6 && l > n - 1e-6 && h > m - 1e-6 && h > n - 1e-6) || (l < m + 1e-6 && l < n + 1e-6 && h < m + 1e-6 && h < n + 1e-6), "pieces-apart"); } } }
// more points
static VP far_(int k) { return k ? VP{P2(0, 0), P2(4, -3), P2(9, -2), P2(7, 1), P2(12, 0), P2(12, 5), P2(8, 4), P2(10, 9), P2(5, 6), P2(3, 10), P2(2, 5), P2(-3, 6), P2(-1, 3)} : VP{P2(0, 0), P2(12, 0), P2(12, 8), P2(10, 8), P2(10, 2), P2(8, 2), P2(8, 6), P2(6, 3), P2(4, 6), P2(4, 2), P2(2, 2), P2(2, 8), P2(0, 8)}; }
SX_REAL(segment_many, "segments from 3 points to any end of 4 lines against 2 chains and outlines of 13 points: the pieces that meet, in order, until the visitor stops at the first, third or never") { int k = sx_choose("k", 0, 1), s = sx_choose("stop", 0, 2), m = sx_choose("from", 0, 2), l = sx_choose("line", 0, 3), c = sx_choose("closed", 0, 1); s = s == 2 ? 3 : s; static const double S[3][2] = {{-4, 2}, {6, 4}, {2, 2}}; P2 a(S[m][0], S[m][1]); double x = in("x", -20, 30); P2 b = l == 0 ? P2(x, 2) : l == 1 ? P2(14, x) : l == 2 ? P2(x, 7.5) : P2(5, x); distinct(a, b); auto v = far_(k); typedef std::function<bool(intersection_type, std::size_t, std::size_t, const P2&, const P2&)> F; if (c) { auto g = poly(v); seg_chain(a, b, v, true, s, [&](F f) { return segment_polygon_border_intersect(S2(a, b), g, f, Exact()); }); } else { auto g = line_(v); seg_chain(a, b, v, false, s, [&](F f) { return segment_polyline_intersect(S2(a, b), g, f, Exact()); }); } }
SX_REAL(polyline_polyline_many, "chains of 8 and 13 points at any horizontal offset on 4 heights") { int k = sx_choose("k", 0, 1), h = sx_choose("h", 0, 3), s = sx_choose("stop", 0, 1) * 5; double x = in("x", -40, 40); VP u{P2(x, h), P2(2 + x, h), P2(3 + x, 1 + h), P2(5 + x, h - 1), P2(5 + x, h + 4), P2(7 + x, h + 4), P2(9 + x, h + 1), P2(10 + x, h + 6)}, v = far_(k); std::vector<Hit> got;
    bool r = polyline_polyline_intersect(line_(u), line_(v), [&](intersection_type t, std::size_t i, std::size_t j, std::size_t m, std::size_t n, const P2& p, const P2& q) { got.push_back({kind(t), i, j, m, n, p, q}); return s == (int)got.size(); }, Exact());
    std::size_t g = 0; bool stopped = false, any = false; for (std::size_t i = 0; i + 1 < u.size() && !stopped; ++i) for (std::size_t j = 0; j + 1 < v.size() && !stopped; ++j) { int kk = meet(u[i], u[i + 1], v[j], v[j + 1]); if (!kk) continue; any = true; CHECK(g < got.size(), "missing"); if (g >= got.size()) return; Hit& q = got[g++]; CHECK(q.k == kk, "kind"); CHECK(q.i == i && q.j == i + 1 && q.m == j && q.n == j + 1, "indices"); on_both(q, u[i], u[i + 1], v[j], v[j + 1]); if (s == (int)g) stopped = true; }
    CHECK(g == got.size(), "extra"); CHECK(r == any, "result"); }

#include <geometrix/algorithm/intersection/segment_projects_outside_polygon.hpp>
static bool in_ell(const P2& p) { return p[0] >= 0 && p[0] <= 4 && p[1] >= 0 && p[1] <= 4 && (p[0] <= 1 || p[1] <= 1); }
// both ends within the L: does the segment leave it through the notch?
static bool notch(const P2& a, const P2& b) { double dx = b[0] - a[0], dy = b[1] - a[1], fa = a[0] - a[1], fb = b[0] - b[1]; if (!((fa > 0 && fb < 0) || (fa < 0 && fb > 0))) return false; double den = fa - fb, x = (a[0] - 1) * den + fa * dx; (void)dy; return den > 0 ? x > 0 : x < 0; }
SX_REAL(projects_outside, "segments from three points to any end against an L and a convex quadrangle, both ways round: whether one that meets the outline has a part outside") {
    static const double F[3][2] = {{0.5, 3}, {-1, 2}, {3, 0}}; int k = sx_choose("shape", 0, 1), m = sx_choose("from", 0, 2), r = sx_choose("round", 0, 1); P2 a(F[m][0], F[m][1]), b = pt("b"); distinct(a, b); if (sx_choose("swap", 0, 1)) std::swap(a, b); VP v = k ? VP{P2(0, 0), P2(4, -1), P2(3, 3), P2(0, 4)} : VP{P2(0, 0), P2(4, 0), P2(4, 1), P2(1, 1), P2(1, 4), P2(0, 4)}; if (r) std::reverse(v.begin(), v.end());
    bool touch = false; for (std::size_t i = 0; i < v.size(); ++i) touch = touch || meet(a, b, v[i], v[(i + 1) % v.size()]); auto within = [&](const P2& p) { if (!k) return in_ell(p); for (std::size_t i = 0; i < v.size(); ++i) { double c = cr(v[i], v[(i + 1) % v.size()], p); if (r ? c > 0 : c < 0) return false; } return true; };
    bool out = !within(a) || !within(b) || (!k && notch(a, b)); CHECK(segment_projects_outside_polygon(S2(a, b), poly(v), Exact()) == (touch && out), "outside"); }
