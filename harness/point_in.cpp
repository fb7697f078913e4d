#include "g.h"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polygon_containment.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp>
using namespace g;
typedef polygon<P2> PG; typedef polyline<P2> PL; typedef std::vector<P2> VP; typedef polygon_containment PC;
static int sg(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static PG poly(const VP& v) { PG r; for (auto& p : v) r.push_back(p); return r; }
// oracle: on the outline, or number of edges crossed by the vertical ray upwards
static bool on_seg(const P2& p, const P2& a, const P2& b) { return cr(a, b, p) == 0 && dt(a, b, p) >= 0 && dt(a, b, p) <= d2(a, b); }
static bool on_border(const P2& p, const VP& v) { for (std::size_t i = 0; i < v.size(); ++i) if (on_seg(p, v[i], v[(i + 1) % v.size()])) return true; return false; }
static bool inside(const P2& p, const VP& v) { bool r = false; for (std::size_t i = 0; i < v.size(); ++i) { const P2 &a = v[i], &b = v[(i + 1) % v.size()]; if ((a[0] <= p[0]) != (b[0] <= p[0]) && (cr(a, b, p) < 0) == (b[0] > a[0])) r = !r; } return r; }
static const double SH[6][16] = {{0, 0, 6, 0, 6, 5, 4, 5, 3, 2, 0, 5}, {0, 0, 5, -2, 4, 3, 2, 1, -1, 4, -3, 1}, {0, 0, 4, 0, 1, 3}, {0, 0, 3, 0, 3, 1, 6, 1, 6, 3, 2, 3, 2, 2, 0, 2}, {0, 0, 2, 2, 4, 0, 4, 4, 2, 6, 0, 4}, {0, 3, -2, 0, 0, 1, 2, 0}}; static const int SN[6] = {6, 6, 3, 8, 6, 4};
static VP shape(int k, bool rev = false, int rot = 0) { VP r; int n = SN[k]; for (int i = 0; i < n; ++i) { int j = (i + rot) % n; if (rev) j = n - 1 - j; r.push_back(P2(SH[k][2 * j], SH[k][2 * j + 1])); } return r; }
static void classify(const P2& p, const VP& v) {
    PG g = poly(v); bool b = on_border(p, v), in_ = !b && inside(p, v), r = point_in_polygon(p, g); if (!b) CHECK(r == in_, "in-polygon");
    bool vx = false; for (auto& q : v) if (q[0] == p[0] && q[1] == p[1]) vx = true; PC c = point_polygon_containment_or_on_border(p, g, Exact());
    CHECK(c == (vx ? PC::vertex : b ? PC::border : in_ ? PC::interior : PC::exterior), "classification"); }
SX_REAL(simple_polygons, "any point against 6 polygons of 3 to 8 vertices, convex and concave, both orientations and 2 first vertices") { int k = sx_choose("k", 0, 5), r = sx_choose("rev", 0, 1), s = sx_choose("rot", 0, 1); classify(pt("p"), shape(k, r, s * 2)); }
SX_REAL(moving_vertex, "quadrilaterals (0,0),(4,0),(any point right of 1 and above the x axis),(0,3) and points on 5 horizontal lines") { static const double H[5] = {0, 1, 2, 3, 5}; P2 q = pt("q"); ASSUME_GT(q[0], 1.0); ASSUME_GT(q[1], 0.0); int h = sx_choose("h", 0, 4); double x = in("x"); VP v{P2(0, 0), P2(4, 0), q, P2(0, 3)}; classify(P2(x, H[h]), v); }
SX_REAL(tiling, "a quadrilateral region split at a point into 4 triangles, and the region itself: every point is in as many pieces as in the whole") {
    P2 p = pt("p"); int k = sx_choose("k", 0, 1); VP o = k ? VP{P2(0, 0), P2(6, 1), P2(5, 5), P2(-1, 4)} : VP{P2(0, 0), P2(4, 0), P2(4, 4), P2(0, 4)}; P2 c(2, 2); int n = 0; for (int i = 0; i < 4; ++i) if (point_in_polygon(p, poly(VP{o[i], o[(i + 1) % 4], c}))) ++n; CHECK(n == (point_in_polygon(p, poly(o)) ? 1 : 0), "partition"); }
SX_REAL(triangle, "any point and any counterclockwise triangle") { P2 p = pt("p"), a = pt("a"), b = pt("b"), c = pt("c"); ASSUME_GT(cr(a, b, c), 0.0); bool in_ = cr(a, b, p) >= 0 && cr(b, c, p) >= 0 && cr(c, a, p) >= 0; CHECK(point_in_triangle(p, a, b, c, Exact()) == in_, "iff-inside"); }
SX_REAL(triangle_hull, "any convex combination of the corners of any counterclockwise triangle") { P2 a = pt("a"), b = pt("b"), c = pt("c"); double s = in("s"), t = in("t"); ASSUME_GT(cr(a, b, c), 0.0); ASSUME_GE(s, 0.0); ASSUME_GE(t, 0.0); ASSUME_LE(s + t, 1.0); P2 p(a[0] + s * (b[0] - a[0]) + t * (c[0] - a[0]), a[1] + s * (b[1] - a[1]) + t * (c[1] - a[1])); CHECK(point_in_triangle(p, a, b, c, Exact()), "inside"); }
static const double CV[4][12] = {{0, 0, 4, 0, 1, 3}, {0, 0, 3, -1, 5, 1, 2, 4}, {0, 0, 2, -2, 5, -1, 5, 2, 1, 3}, {-2, -1, 0, -2, 2, -1, 2, 1, 0, 2, -2, 1}};
static bool convex_in(const P2& p, const VP& v) { for (std::size_t i = 0; i < v.size(); ++i) if (cr(v[i], v[(i + 1) % v.size()], p) < 0) return false; return true; }
SX_REAL(convex, "any point against 4 convex counterclockwise polygons of 3 to 6 vertices, every first vertex") { int k = sx_choose("k", 0, 3), r = sx_choose("rot", 0, 5); if (r >= 3 + k) return; VP v; for (int i = 0; i < 3 + k; ++i) { int j = (i + r) % (3 + k); v.push_back(P2(CV[k][2 * j], CV[k][2 * j + 1])); } P2 p = pt("p"); CHECK(point_in_convex_polygon(p, poly(v), Exact()) == convex_in(p, v), "iff-inside"); if (k == 1) CHECK(point_in_convex_quadrilateral(p, poly(v), Exact()) == convex_in(p, v), "quadrilateral"); }
SX_REAL(quadrilateral, "any point against quadrilaterals (0,0),(4,0),(any point that keeps it convex),(0,3)") { P2 p = pt("p"), q = pt("q"); VP v{P2(0, 0), P2(4, 0), q, P2(0, 3)}; ASSUME_GT(q[1], 0.0); ASSUME_GT(q[0], 0.0); ASSUME_GT(cr(v[1], q, v[3]), 0.0); bool in_ = convex_in(p, v); CHECK(point_in_convex_quadrilateral(p, poly(v), Exact()) == in_, "quadrilateral"); CHECK(point_in_convex_polygon(p, poly(v), Exact()) == in_, "iff-inside"); }
// containment of chains
static bool outside(const P2& p, const VP& v) { return !on_border(p, v) && !inside(p, v); }
template <class F> static void chain(const VP& c, bool closed, const VP& v, F f) {
    bool r = f(); int n = (int)c.size() - (closed ? 0 : 1);
    // complete oracle: no vertex outside, no proper crossing, midpoints between contacts not outside
    bool out = false; for (auto& q : c) if (outside(q, v)) out = true; if (!out) for (int i = 0; i < n && !out; ++i) { const P2 &a = c[i], &b = c[(i + 1) % c.size()]; std::vector<double> t{0, 1}; double L = d2(a, b); for (std::size_t j = 0; j < v.size() && !out; ++j) { const P2 &p = v[j], &q = v[(j + 1) % v.size()]; if (sg(cr(a, b, p)) * sg(cr(a, b, q)) < 0 && sg(cr(p, q, a)) * sg(cr(p, q, b)) < 0) out = true; if (on_seg(p, a, b)) t.push_back(dt(a, b, p) / L); }
        if (!out) { for (std::size_t x = 0; x < t.size(); ++x) for (std::size_t z = x + 1; z < t.size(); ++z) if (t[z] < t[x]) std::swap(t[x], t[z]); for (std::size_t x = 0; x + 1 < t.size() && !out; ++x) if (t[x] < t[x + 1] && outside(along(a, b, (t[x] + t[x + 1]) / 2), v)) out = true; } }
    CHECK(r == !out, "iff-contained"); }
SX_REAL(polygon_containment_, "triangles of 3 kinds at any horizontal offset on 4 heights in 3 polygons") { static const double T[3][6] = {{0, 0, 2, 0, 1, 1}, {0, 0, 1, -2, 2, 2}, {0, 0, 5, 1, 0, 1}}; static const double H[4] = {0, 1, 2, 3}; static const int K[3] = {0, 3, 4}; int k = sx_choose("k", 0, 2), m = sx_choose("m", 0, 2), h = sx_choose("h", 0, 3); double x = in("x"); VP v = shape(K[k]), c; for (int i = 0; i < 3; ++i) c.push_back(P2(T[m][2 * i] + x, T[m][2 * i + 1] + H[h])); chain(c, true, v, [&] { return polygon_polygon_containment(poly(c), poly(v), Exact()); }); }
SX_REAL(polyline_containment, "segments from 4 starts to any end on 3 lines and two-piece polylines in 4 polygons") { static const double S[4][2] = {{0, 0}, {3, 2}, {1, 1}, {4, 3}}; static const int K[4] = {0, 1, 3, 4}; int k = sx_choose("k", 0, 3), m = sx_choose("m", 0, 3), w = sx_choose("line", 0, 2), two = sx_choose("two", 0, 1); VP v = shape(K[k]), c{P2(S[m][0], S[m][1]), two ? P2(2, 1) : w == 0 ? P2(in("b"), 4) : w == 1 ? P2(3, in("b")) : P2(5, in("b"))}; if (two) { double x = in("x"); c.push_back(P2(x, w)); } distinct(c[0], c[1]); PL l; for (auto& q : c) l.push_back(q); chain(c, false, v, [&] { return polygon_polyline_containment(l, poly(v), Exact()); }); }
SX_REAL(containment_many, "a polygon and a polyline of 7 points, one of them anywhere on 2 lines, in a concave octagon") { int w = sx_choose("which", 0, 6), l = sx_choose("line", 0, 1), g = sx_choose("polygon", 0, 1); VP v{P2(0, 0), P2(20, -2), P2(22, 10), P2(20, 20), P2(12, 19), P2(11, 12), P2(9, 20), P2(-1, 18)}, c{P2(2, 2), P2(10, 1), P2(18, 3), P2(17, 10), P2(11, 9), P2(5, 14), P2(1, 9)}; double x = in("x", -60, 60); c[w] = l ? P2(x, 10) : P2(11, x); distinct(c[w], c[(w + 1) % 7]); distinct(c[w], c[(w + 6) % 7]); if (g) chain(c, true, v, [&] { return polygon_polygon_containment(poly(c), poly(v), Exact()); }); else { PL q; for (auto& z : c) q.push_back(z); chain(c, false, v, [&] { return polygon_polyline_containment(q, poly(v), Exact()); }); } }
// more vertices
static VP comb(int k) { return k ? VP{P2(0, 0), P2(4, -3), P2(9, -2), P2(7, 1), P2(12, 0), P2(12, 5), P2(8, 4), P2(10, 9), P2(5, 6), P2(3, 10), P2(2, 5), P2(-3, 6), P2(-1, 3)} : VP{P2(0, 0), P2(12, 0), P2(12, 8), P2(10, 8), P2(10, 2), P2(8, 2), P2(8, 6), P2(6, 3), P2(4, 6), P2(4, 2), P2(2, 2), P2(2, 8), P2(0, 8)}; }
SX_REAL(simple_polygons_many, "any point of 8 lines against 2 polygons of 13 vertices, both orientations and 4 first vertices") { int k = sx_choose("k", 0, 1), r = sx_choose("rev", 0, 1), s = sx_choose("rot", 0, 3), l = sx_choose("line", 0, 7); VP v = comb(k); if (r) std::reverse(v.begin(), v.end()); std::rotate(v.begin(), v.begin() + 3 * s, v.end()); double x = in("x", -20, 30); classify(l < 4 ? P2(x, 2 * l) : l < 7 ? P2(2 + 3.5 * (l - 4), x) : P2(x, x / 2), v); }
static VP round_(int k) { static const int E[2][9][2] = {{{4, -1}, {3, 2}, {1, 3}, {-1, 4}, {-3, 2}, {-4, -1}, {-2, -4}, {2, -5}, {0, 0}}, {{3, 0}, {2, 1}, {1, 2}, {0, 3}, {-2, 2}, {-3, 0}, {-2, -2}, {-1, -3}, {2, -3}}}; VP v{P2(0, 0)}; for (int i = 0; i + 1 < 8 + k; ++i) v.push_back(P2(v.back()[0] + E[k][i][0], v.back()[1] + E[k][i][1])); return v; }
SX_REAL(convex_many, "any point of 6 lines against convex polygons of 8 and 9 vertices, every first vertex") { int k = sx_choose("k", 0, 1), r = sx_choose("rot", 0, 8), l = sx_choose("line", 0, 5); VP v = round_(k); if (r >= (int)v.size()) return; std::rotate(v.begin(), v.begin() + r, v.end()); double x = in("x", -20, 20); P2 p = l < 3 ? P2(x, -1 + 4 * l) : l < 5 ? P2(-1 + 4 * (l - 3), x) : P2(x, x - 1); CHECK(point_in_convex_polygon(p, poly(v), Exact()) == convex_in(p, v), "iff-inside"); }
SX_REAL(containment_notch, "a hexagon, every first vertex and both orientations, in an octagon whose notch reaches any depth; the same as a closed polyline") { int r = sx_choose("rot", 0, 5), f = sx_choose("rev", 0, 1), g = sx_choose("polygon", 0, 1); double y = in("y", 0, 19); VP v{P2(0, 0), P2(20, -2), P2(22, 10), P2(20, 20), P2(12, 19), P2(11, y), P2(9, 20), P2(-1, 18)}, c{P2(2, 2), P2(10, 1), P2(18, 3), P2(17, 10), P2(5, 9), P2(1, 8)}; if (f) std::reverse(c.begin(), c.end()); std::rotate(c.begin(), c.begin() + r, c.end()); if (g) chain(c, true, v, [&] { return polygon_polygon_containment(poly(c), poly(v), Exact()); }); else { c.push_back(P2(c[0])); PL q; for (auto& z : c) q.push_back(z); chain(c, false, v, [&] { return polygon_polyline_containment(q, poly(v), Exact()); }); } }
