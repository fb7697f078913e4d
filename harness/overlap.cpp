#include "g.h"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/aabb_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp>
#include <geometrix/algorithm/intersection/polygon_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/eberly_triangle_aabb_intersection.hpp>
using namespace g;
typedef sphere<2, P2> C2; typedef axis_aligned_bounding_box<P2> B2; typedef axis_aligned_bounding_box<P3> B3; typedef oriented_bounding_box<P2, V2> O2; typedef polygon<P2> PG; typedef polyline<P2> PL;
// separation of convex point sets along the normals of their edges (complete in the plane)
static bool sep(double n0, double n1, const std::vector<P2>& a, const std::vector<P2>& b) { double amx = -1e300, amn = 1e300, bmx = -1e300, bmn = 1e300; for (auto& p : a) { double x = n0 * p[0] + n1 * p[1]; amx = x > amx ? x : amx; amn = x < amn ? x : amn; } for (auto& p : b) { double x = n0 * p[0] + n1 * p[1]; bmx = x > bmx ? x : bmx; bmn = x < bmn ? x : bmn; } return amx < bmn || bmx < amn; }
static bool apart(const std::vector<P2>& a, const std::vector<P2>& b) { for (int w = 0; w < 2; ++w) { auto& c = w ? b : a; for (std::size_t i = 0; i < c.size(); ++i) { std::size_t j = (i + 1) % c.size(); if (sep(c[j][1] - c[i][1], c[i][0] - c[j][0], a, b)) return true; } } return false; }
// --- boxes
SX_REAL(aabb_aabb, "all pairs of planar boxes") { P2 a = pt("a"), c = pt("c"); double w = in("w"), h = in("h"), u = in("u"), v = in("v"); ASSUME_GE(w, 0.0); ASSUME_GE(h, 0.0); ASSUME_GE(u, 0.0); ASSUME_GE(v, 0.0); B2 A(a, P2(a[0] + w, a[1] + h)), B(c, P2(c[0] + u, c[1] + v));
    bool no = a[0] + w < c[0] || c[0] + u < a[0] || a[1] + h < c[1] || c[1] + v < a[1]; CHECK(aabb_aabb_intersection(A, B, Exact()) == !no, "iff-overlap"); CHECK(aabb_aabb_intersection(B, A, Exact()) == !no, "symmetric"); CHECK(A.intersects(B) == !no, "member");
    bool in_ = c[0] >= a[0] && c[0] + u <= a[0] + w && c[1] >= a[1] && c[1] + v <= a[1] + h; CHECK(A.contains(B) == in_, "contains"); CHECK(A.contains(B, Exact()) == in_, "contains-policy"); CHECK(A.intersects(c) == (c[0] >= a[0] && c[0] <= a[0] + w && c[1] >= a[1] && c[1] <= a[1] + h), "point"); }
SX_REAL(aabb_aabb_space, "boxes in space, the first with corners (0,0,0) and (3,2,1)") { P3 c = pt3("c"); double u = in("u"), v = in("v"), w = in("w"); ASSUME_GE(w, 0.0); ASSUME_GE(u, 0.0); ASSUME_GE(v, 0.0); B3 A(P3(0, 0, 0), P3(3, 2, 1)), B(c, P3(c[0] + u, c[1] + v, c[2] + w));
    bool no = 3 < c[0] || c[0] + u < 0 || 2 < c[1] || c[1] + v < 0 || 1 < c[2] || c[2] + w < 0; CHECK(aabb_aabb_intersection(A, B, Exact()) == !no, "iff-overlap"); CHECK(aabb_aabb_intersection(B, A, Exact()) == !no, "symmetric"); bool in_ = c[0] >= 0 && c[0] + u <= 3 && c[1] >= 0 && c[1] + v <= 2 && c[2] >= 0 && c[2] + w <= 1; CHECK(A.contains(B) == in_, "contains"); CHECK(A.intersects(c) == (c[0] >= 0 && c[0] <= 3 && c[1] >= 0 && c[1] <= 2 && c[2] >= 0 && c[2] <= 1), "point"); }
static std::vector<P2> corners(const P2& c, const V2& u, const V2& v, double a, double b) { std::vector<P2> r; for (int i = 0; i < 4; ++i) { double x = (i == 1 || i == 2) ? a : -a, y = i >= 2 ? b : -b; r.push_back(P2(c[0] + x * u[0] + y * v[0], c[1] + x * u[1] + y * v[1])); } return r; }
static void obbs(V2 u, P2 c, double g = 0) { V2 v(-u[1], u[0]); bool r = obb_obb_intersection(O2(P2(0, 0), V2(1, 0), V2(0, 1), 2, 1), O2(c, u, v, 3, 1), Exact()); CHECK(obb_obb_intersection(O2(c, u, v, 3, 1), O2(P2(0, 0), V2(1, 0), V2(0, 1), 2, 1), Exact()) == r, "symmetric");
    if (!apart(corners(P2(0, 0), V2(1, 0), V2(0, 1), 2, 1), corners(c, u, v, 3 - g, 1 - g))) CHECK(r, "overlap-reported"); if (apart(corners(P2(0, 0), V2(1, 0), V2(0, 1), 2, 1), corners(c, u, v, 3 + g, 1 + g))) CHECK(!r, "apart-reported"); }
SX_REAL(obb_obb, "first box upright with half widths 2 and 1, second with half widths 3 and 1 turned by any angle, at 6 places") { static const double Q[6][2] = {{0, 0}, {4, 0.5}, {-4.5, -1}, {3, 3}, {0.5, -3.25}, {-4, 2}}; int m = sx_choose("m", 0, 5); obbs(unit("u"), P2(Q[m][0], Q[m][1])); }
SX_REAL(obb_obb_moved, "the same at any horizontal offset and 3 heights, turned by 6 oblique angles with rational sine and cosine up to rounding") { static const double Q[6][2] = {{0.6, 0.8}, {-0.8, 0.6}, {-0.28, -0.96}, {0.96, -0.28}, {-0.384615384615384615, 0.92307692307692313}, {0.8, -0.6}}; int k = sx_choose("k", 0, 5), m = sx_choose("m", 0, 2); double x = in("x", -20, 20); obbs(V2(Q[k][0], Q[k][1]), P2(x, m == 0 ? 0.5 : m == 1 ? 3 : -4), 1e-9); }
SX_REAL(obb_obb_quarter, "boxes turned by quarter turns, any place and half widths") {
    static const double Q[4][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}}; int k = sx_choose("k", 0, 3); P2 c = pt("c"); double a = in("a"), b = in("b"); ASSUME_GE(a, 0.0); ASSUME_GE(b, 0.0); V2 u(Q[k][0], Q[k][1]), v(-u[1], u[0]); double hx = k % 2 ? b : a, hy = k % 2 ? a : b;
    bool r = obb_obb_intersection(O2(P2(1, 1), V2(1, 0), V2(0, 1), 2, 1), O2(c, u, v, a, b), Exact()); CHECK(r == !(c[0] - 1 > 2 + hx || 1 - c[0] > 2 + hx || c[1] - 1 > 1 + hy || 1 - c[1] > 1 + hy), "iff-overlap"); }
SX_REAL(obb_corners, "oriented boxes of any angle and size: corners in order, rectangle and rebuilt box agree") { V2 u = unit("u"), v(-u[1], u[0]); P2 c = pt("c"); double a = in("a"), b = in("b"); ASSUME_GT(a, 0.0); ASSUME_GT(b, 0.0); O2 o(c, u, v, a, b); auto q = corners(c, u, v, a, b); auto r = o.get_rectangle(); for (int i = 0; i < 4; ++i) { check_same(o[i], q[i], "corner"); check_same(r[i], q[i], "rectangle"); }
    auto o2 = make_obb<P2, V2>(r); check_same(o2.get_center(), c, "rebuilt-centre"); CHECK_EQ(o2.get_halfwidth(0), a, "rebuilt-width"); CHECK_EQ(o2.get_halfwidth(1), b, "rebuilt-width"); check_same(o2.get_axis(0), u, "rebuilt-axis"); check_same(o2.get_axis(1), v, "rebuilt-axis"); }
// --- convex polygons by separating axes
static const double SH[4][10] = {{0, 0, 4, 0, 1, 3}, {0, 0, 3, -1, 5, 1, 2, 4}, {0, 0, 2, -2, 5, -1, 5, 2, 1, 3}, {-1, -1, 1, -1, 1, 1, -1, 1}}; static const int SN[4] = {3, 4, 5, 4};
static std::vector<P2> shape(int k, double x, double y) { std::vector<P2> r; for (int i = 0; i < SN[k]; ++i) r.push_back(P2(SH[k][2 * i] + x, SH[k][2 * i + 1] + y)); return r; }
static PG poly(const std::vector<P2>& v, bool ccw) { PG r; if (ccw) for (auto& p : v) r.push_back(p); else for (std::size_t i = v.size(); i-- > 0;) r.push_back(v[i]); return r; }
SX_REAL(sat_clockwise, "pairs of 4 convex clockwise polygons at any horizontal offset and 5 vertical ones") { int k = sx_choose("k", 0, 3), m = sx_choose("m", 0, 3), h = sx_choose("h", 0, 4); double x = in("x", -20, 20); static const double H[5] = {0, 2.5, -3, 5, -7}; auto a = shape(k, 0, 0), b = shape(m, x, H[h]); CHECK(convex_polygons_intersection(poly(a, false), poly(b, false), Exact()) == !apart(a, b), "iff-overlap"); }
SX_REAL(sat_counterclockwise, "the same for counterclockwise polygons") { int k = sx_choose("k", 0, 3), m = sx_choose("m", 0, 3); double x = in("x", -20, 20); auto a = shape(k, 0, 0), b = shape(m, x, 0.5); CHECK(convex_polygons_intersection(poly(a, true), poly(b, true), Exact()) == !apart(a, b), "iff-overlap-ccw"); }
// --- intersection of convex polygons, general position
static bool in_poly(const P2& p, const std::vector<P2>& a) { for (std::size_t i = 0; i < a.size(); ++i) if (cr(a[i], a[(i + 1) % a.size()], p) < 0) return false; return true; }
SX_REAL(convex_convex, "pairs of 4 convex polygons at any horizontal offset in general position and 4 vertical ones") {
    int k = sx_choose("k", 0, 3), m = sx_choose("m", 0, 3), h = sx_choose("h", 0, 3); double x = in("x", -20, 20); static const double H[4] = {0.2969, 2.5937, -3.1718, 0.7031}; auto a = shape(k, 0, 0), b = shape(m, x, H[h]);
    for (auto& p : a) for (std::size_t i = 0; i < b.size(); ++i) ASSUME_NE(cr(b[i], b[(i + 1) % b.size()], p), 0.0); for (auto& p : b) for (std::size_t i = 0; i < a.size(); ++i) ASSUME_NE(cr(a[i], a[(i + 1) % a.size()], p), 0.0);
    std::vector<P2> got; auto r = convex_polygon_polygon_intersection(poly(a, true), poly(b, true), [&](const P2& p) { if (got.size() < 40) got.push_back(p); }, Exact()); bool ap = apart(a, b);
    CHECK((r == polygon_intersection_type::none) == ap, "kind"); if (ap) { CHECK(got.empty(), "nothing"); return; } CHECK(r == polygon_intersection_type::overlapping, "overlapping");
    for (auto& p : got) { for (std::size_t i = 0; i < a.size(); ++i) CHECK_GE(cr(a[i], a[(i + 1) % a.size()], p), 0.0, "in-first"); for (std::size_t i = 0; i < b.size(); ++i) CHECK_GE(cr(b[i], b[(i + 1) % b.size()], p), 0.0, "in-second"); }
    for (int w = 0; w < 2; ++w) for (auto& p : (w ? b : a)) if (in_poly(p, w ? a : b)) { bool f = false; for (auto& q : got) if (q[0] == p[0] && q[1] == p[1]) f = true; CHECK(f, "inner-vertex-visited"); } }
// contained polygons of different size
SX_REAL(convex_contained, "a small polygon of 3 to 5 vertices anywhere inside a big one: exactly its vertices are visited") {
    int k = sx_choose("k", 0, 2), sw = sx_choose("swap", 0, 1), n = sx_choose("big", 0, 1); double x = in("x", -10, 10), y = in("y", -10, 10); auto a = shape(k, x, y); std::vector<P2> b = n ? std::vector<P2>{P2(-60, -60), P2(60, -60), P2(0, 90)} : std::vector<P2>{P2(-40, -30), P2(40, -30), P2(50, 0), P2(40, 30), P2(-40, 30), P2(-50, 0)};
    std::vector<P2> got; auto vis = [&](const P2& p) { if (got.size() < 40) got.push_back(p); }; auto r = sw ? convex_polygon_polygon_intersection(poly(b, true), poly(a, true), vis, Exact()) : convex_polygon_polygon_intersection(poly(a, true), poly(b, true), vis, Exact());
    CHECK(r == polygon_intersection_type::overlapping, "overlapping"); CHECK(got.size() == a.size(), "count"); for (std::size_t i = 0; i < got.size() && i < a.size(); ++i) check_same(got[i], a[i], "vertices"); }
// --- polygon or polyline and box
static const double PC[2][12] = {{0, 0, 6, 0, 6, 5, 4, 5, 3, 2, 0, 5}, {0, 0, 5, -2, 4, 3, 2, 1, -1, 4, -3, 1}};
static bool crosses(const P2& a, const P2& b, const P2& c, const P2& d) { auto sg = [](double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }; return sg(cr(a, b, c)) * sg(cr(a, b, d)) <= 0 && sg(cr(c, d, a)) * sg(cr(c, d, b)) <= 0 && std::min(a[0], b[0]) <= std::max(c[0], d[0]) && std::min(c[0], d[0]) <= std::max(a[0], b[0]) && std::min(a[1], b[1]) <= std::max(c[1], d[1]) && std::min(c[1], d[1]) <= std::max(a[1], b[1]); }
static bool seg_box(const P2& a, const P2& b, double x0, double y0, double x1, double y1) { auto in_ = [&](const P2& p) { return p[0] >= x0 && p[0] <= x1 && p[1] >= y0 && p[1] <= y1; }; return in_(a) || in_(b) || crosses(a, b, P2(x0, y0), P2(x1, y1)) || crosses(a, b, P2(x1, y0), P2(x0, y1)); }
static bool inside_even_odd(const P2& p, const std::vector<P2>& v) { bool in_ = false; for (std::size_t i = 0; i < v.size(); ++i) { const P2 &a = v[i], &b = v[(i + 1) % v.size()]; bool up = a[1] > p[1], dn = b[1] > p[1]; if (up != dn) { double c = cr(a, b, p); if ((b[1] > a[1]) == (c > 0)) in_ = !in_; } } return in_; }
static void poly_box(int k, double x0, double y0, double w, double h) {
    std::vector<P2> v; for (int i = 0; i < 6; ++i) v.push_back(P2(PC[k][2 * i], PC[k][2 * i + 1])); B2 b(P2(x0, y0), P2(x0 + w, y0 + h)); const double g = 1e-9;
    bool r = polygon_aabb_intersection(poly(v, true), b), e = false, eg = false, el = false, egl = false; for (int i = 0; i < 6; ++i) { bool c = seg_box(v[i], v[(i + 1) % 6], x0, y0, x0 + w, y0 + h), d = seg_box(v[i], v[(i + 1) % 6], x0 - g, y0 - g, x0 + w + g, y0 + h + g); if (c) e = true; if (d) eg = true; if (i < 5) { if (c) el = true; if (d) egl = true; } }
    bool ins = inside_even_odd(P2(x0, y0), v); if (e || ins) CHECK(r, "overlap-reported"); if (!eg && !ins) CHECK(!r, "apart-reported");
    PL pl; for (auto& p : v) pl.push_back(p); bool q = polyline_aabb_intersection(pl, b); if (el) CHECK(q, "polyline-overlap"); if (!egl) CHECK(!q, "polyline-apart"); }
SX_REAL(polygon_aabb, "2 concave polygons and polylines of 6 vertices, boxes of widths 1 and 9 at any horizontal and 3 vertical positions") { int k = sx_choose("k", 0, 1), m = sx_choose("m", 0, 2); double x = in("x", -30, 30), w = sx_choose("w", 0, 1) ? 9 : 1; poly_box(k, x, m == 0 ? 1 : m == 1 ? 2.5 : -4, w, m == 1 ? 0.25 : 3); }
// --- circles
SX_REAL(circle_aabb, "all circles against boxes with any corners") { P2 c = pt("c"); double r = in("r"), w = in("w"), h = in("h"); ASSUME_GE(r, 0.0); ASSUME_GE(w, 0.0); ASSUME_GE(h, 0.0); double dx = c[0] < 0 ? -c[0] : c[0] > w ? c[0] - w : 0, dy = c[1] < 0 ? -c[1] : c[1] > h ? c[1] - h : 0; bool o = dx * dx + dy * dy <= r * r;
    P2 q(77, 77); B2 b(P2(0, 0), P2(w, h)); CHECK(sphere_aabb_intersection(C2(c, r), b) == o, "iff-overlap"); CHECK(sphere_aabb_intersection(C2(c, r), b, q) == o, "overload"); CHECK_EQ(d2(q, c), dx * dx + dy * dy, "nearest"); CHECK(q[0] >= 0 && q[0] <= w && q[1] >= 0 && q[1] <= h, "in-box"); }
SX_REAL(circle_obb, "all circles against oriented boxes of any angle and size about (1,2)") { V2 u = unit("u"), v(-u[1], u[0]); double a = in("a"), b = in("b"), r = in("r"); P2 c = pt("c"); ASSUME_GE(r, 0.0); ASSUME_GE(a, 0.0); ASSUME_GE(b, 0.0); double x = (c[0] - 1) * u[0] + (c[1] - 2) * u[1], y = (c[0] - 1) * v[0] + (c[1] - 2) * v[1]; double dx = x < -a ? -a - x : x > a ? x - a : 0, dy = y < -b ? -b - y : y > b ? y - b : 0; CHECK(sphere_obb_intersection(C2(c, r), O2(P2(1, 2), u, v, a, b)) == (dx * dx + dy * dy <= r * r), "iff-overlap"); }
template <class F> static void circles(P2 c, double r0, double r1, F f) {
    auto x = f(C2(P2(1, 2), r0), C2(c, r1)); typedef decltype(x.State) E; double D = d2(P2(1, 2), c), s = r0 + r1, d = r0 - r1;
    if (D > s * s) CHECK(x.State == E::non_intersecting, "apart"); else if (D < d * d) CHECK(x.State == E::circumscribed, "nested"); else if (D == 0) CHECK(x.State == E::coincident, "same");
    else if (D == s * s || D == d * d) { CHECK(x.State == E::one_intersection, "tangent"); if (x.IntersectionPoint0) { CHECK_EQ(d2(*x.IntersectionPoint0, P2(1, 2)), r0 * r0, "on-first"); CHECK_EQ(d2(*x.IntersectionPoint0, c), r1 * r1, "on-second"); } }
    else { CHECK(x.State == E::two_intersections, "two"); CHECK(bool(x.IntersectionPoint0) && bool(x.IntersectionPoint1), "points"); if (x.IntersectionPoint0 && x.IntersectionPoint1) { P2 p = *x.IntersectionPoint0, q = *x.IntersectionPoint1; CHECK_EQ(d2(p, P2(1, 2)), r0 * r0, "on-first"); CHECK_EQ(d2(p, c), r1 * r1, "on-second"); CHECK_EQ(d2(q, P2(1, 2)), r0 * r0, "on-first"); CHECK_EQ(d2(q, c), r1 * r1, "on-second"); CHECK_GT(d2(p, q), 0.0, "distinct"); } } }
SX_REAL(circle_circle, "all pairs of circles of positive radius, the second beside the first") { double x = in("x"), r0 = in("r0"), r1 = in("r1"); ASSUME_GT(r0, 0.0); ASSUME_GT(r1, 0.0); circles(P2(1 + x, 2), r0, r1, [](const C2& a, const C2& b) { return circle_circle_intersection(a, b, Exact()); }); }
SX_REAL(circle_circle_any, "circles of radius 2 and 3 at any place") { P2 c = pt("c"); circles(c, 2, 3, [](const C2& a, const C2& b) { return circle_circle_intersection(a, b, Exact()); }); }
SX_REAL(sphere_sphere, "the same for the sphere entry point") { double x = in("x"), r0 = in("r0"), r1 = in("r1"); ASSUME_GT(r0, 0.0); ASSUME_GT(r1, 0.0); int v = sx_choose("v", 0, 1); circles(v ? P2(1, 2 + x) : P2(1 + x, 2), r0, r1, [](const C2& a, const C2& b) { return sphere_sphere_intersection(a, b, Exact()); }); }
// --- triangle and box
SX_REAL(triangle_aabb, "4 triangles of right and oblique shape against boxes of any size at any horizontal and 3 vertical positions") {
    static const double T[4][6] = {{0, 0, 4, 0, 1, 3}, {0, 0, 3, 4, -4, 3}, {1, 1, -2, 5, -2, -3}, {0, 0, 4, 3, 0, 3}}; int k = sx_choose("k", 0, 3), m = sx_choose("m", 0, 2); double x = in("x", -30, 30), w = in("w", 0.125, 20); double y = m == 0 ? -1 : m == 1 ? 2 : 3.5, h = m == 0 ? 2 : m == 1 ? 0.5 : 6; P2 a(T[k][0], T[k][1]), b(T[k][2], T[k][3]), c(T[k][4], T[k][5]);
    bool r = eberly_triangle_aabb_intersection_2d(a, b, c, B2(P2(x, y), P2(x + w, y + h)), Tol(1e-12)); std::vector<P2> t{a, b, c}; auto bx = [&](double g) { return std::vector<P2>{P2(x - g, y - g), P2(x + w + g, y - g), P2(x + w + g, y + h + g), P2(x - g, y + h + g)}; }; if (!apart(t, bx(0))) CHECK(r, "overlap-reported"); if (apart(t, bx(1e-9))) CHECK(!r, "apart-reported"); }
// more vertices
static std::vector<P2> round_(int k, double x, double y) { static const int E[2][9][2] = {{{4, -1}, {3, 2}, {1, 3}, {-1, 4}, {-3, 2}, {-4, -1}, {-2, -4}, {2, -5}, {0, 0}}, {{3, 0}, {2, 1}, {1, 2}, {0, 3}, {-2, 2}, {-3, 0}, {-2, -2}, {-1, -3}, {2, -3}}}; std::vector<P2> v{P2(x, y)}; for (int i = 0; i + 1 < 8 + k; ++i) v.push_back(P2(v.back()[0] + E[k][i][0], v.back()[1] + E[k][i][1])); return v; }
SX_REAL(sat_clockwise_many, "convex clockwise polygons of 8 and 9 vertices, and with a triangle, at any horizontal offset on 6 heights") { int m = sx_choose("m", 0, 3), h = sx_choose("h", 0, 5); double x = in("x", -30, 30); static const double H[6] = {0, 6.5, -7, 9, -9.25, 3}; auto a = round_(m % 2, 0, 0), b = m < 2 ? round_(1 - m, x, H[h]) : shape(m - 2, x, H[h]); CHECK(convex_polygons_intersection(poly(a, false), poly(b, false), Exact()) == !apart(a, b), "iff-overlap"); CHECK(convex_polygons_intersection(poly(b, false), poly(a, false), Exact()) == !apart(a, b), "swapped"); }
SX_REAL(convex_many, "convex polygons of 8 and 9 vertices at any horizontal offset in general position on 2 heights: the part in common, all its corners and only points of it") { int h = 1 + sx_choose("h", 0, 1), sw = sx_choose("swap", 0, 1); double x = in("x", -30, 30); static const double H[4] = {0.2969, 6.5937, -7.1718, 3.3031}; auto a = round_(sw, 0, 0), b = round_(1 - sw, x, H[h]);
    for (auto& p : a) for (std::size_t i = 0; i < b.size(); ++i) ASSUME_NE(cr(b[i], b[(i + 1) % b.size()], p), 0.0); for (auto& p : b) for (std::size_t i = 0; i < a.size(); ++i) ASSUME_NE(cr(a[i], a[(i + 1) % a.size()], p), 0.0);
    std::vector<P2> got; auto r = convex_polygon_polygon_intersection(poly(a, true), poly(b, true), [&](const P2& p) { if (got.size() < 40) got.push_back(p); }, Exact()); bool ap = apart(a, b); CHECK((r == polygon_intersection_type::none) == ap, "kind"); if (ap) { CHECK(got.empty(), "nothing"); return; }
    for (auto& p : got) { for (std::size_t i = 0; i < a.size(); ++i) CHECK_GE(cr(a[i], a[(i + 1) % a.size()], p), 0.0, "in-first"); for (std::size_t i = 0; i < b.size(); ++i) CHECK_GE(cr(b[i], b[(i + 1) % b.size()], p), 0.0, "in-second"); }
    for (int w = 0; w < 2; ++w) for (auto& p : (w ? b : a)) if (in_poly(p, w ? a : b)) { bool f = false; for (auto& q : got) if (q[0] == p[0] && q[1] == p[1]) f = true; CHECK(f, "inner-vertex-visited"); }
    for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) { const P2 &p = a[i], &q = a[(i + 1) % a.size()], &u = b[j], &v = b[(j + 1) % b.size()]; double s = cr(u, v, p), t = cr(u, v, q); if ((s > 0) == (t > 0) || (cr(p, q, u) > 0) == (cr(p, q, v) > 0)) continue; P2 z = along(p, q, s / (s - t)); bool f = false; for (auto& y : got) f = f || d2(y, z) < 1e-9; CHECK(f, "crossing-visited"); } }
SX_REAL(polygon_aabb_many, "polygons and polylines of 13 vertices, boxes of widths 0.5 and 20 at any horizontal and 2 vertical positions") { static const double C[2][26] = {{0, 0, 12, 0, 12, 8, 10, 8, 10, 2, 8, 2, 8, 6, 6, 3, 4, 6, 4, 2, 2, 2, 2, 8, 0, 8}, {0, 0, 4, -3, 9, -2, 7, 1, 12, 0, 12, 5, 8, 4, 10, 9, 5, 6, 3, 10, 2, 5, -3, 6, -1, 3}}; int k = sx_choose("k", 0, 1), m = 2 * sx_choose("m", 0, 1), n = 13; double x0 = in("x", -40, 40), w = sx_choose("w", 0, 1) ? 20 : 0.5, y0 = m == 0 ? 3.5 : m == 1 ? 6.25 : m == 2 ? -1 : 9.5, h = m == 3 ? 4 : 0.25; std::vector<P2> v; for (int i = 0; i < n; ++i) v.push_back(P2(C[k][2 * i], C[k][2 * i + 1])); std::rotate(v.begin(), v.begin() + 6 * sx_choose("first", 0, 1), v.end()); B2 b(P2(x0, y0), P2(x0 + w, y0 + h)); const double g = 1e-9;
    bool r = polygon_aabb_intersection(poly(v, true), b), e = false, eg = false, el = false, egl = false; for (int i = 0; i < n; ++i) { bool c = seg_box(v[i], v[(i + 1) % n], x0, y0, x0 + w, y0 + h), d = seg_box(v[i], v[(i + 1) % n], x0 - g, y0 - g, x0 + w + g, y0 + h + g); e = e || c; eg = eg || d; if (i + 1 < n) { el = el || c; egl = egl || d; } }
    bool ins = inside_even_odd(P2(x0, y0), v); if (e || ins) CHECK(r, "overlap-reported"); if (!eg && !ins) CHECK(!r, "apart-reported"); PL pl; for (auto& p : v) pl.push_back(p); bool q = polyline_aabb_intersection(pl, b); if (el) CHECK(q, "polyline-overlap"); if (!egl) CHECK(!q, "polyline-apart"); }
// touching up to a tolerance: points within it of both circles
template <class F> static void near_circles(F f) { int k = sx_choose("radii", 0, 2), turn = sx_choose("turn", 0, 2); static const double R[3][2] = {{2, 3}, {5, 1}, {2, 2}}, D[3][2] = {{1, 0}, {0, -1}, {0.6, 0.8}}; double d = in("d", 0.5, 8), r0 = R[k][0], r1 = R[k][1], t = 1e-3, s = r0 + r1, g = r0 > r1 ? r0 - r1 : r1 - r0; P2 a(1, 2), b(1 + d * D[turn][0], 2 + d * D[turn][1]);
    f(C2(a, r0), C2(b, r1), [&](int state, const boost::optional<P2>& p, const boost::optional<P2>& q) { double m = 1e-9; if (d > s + t + m) CHECK(state == 0, "apart"); if (d < g - t - m) CHECK(state == 1, "within"); if (d > s + t - m || d < g - t + m) return; CHECK(state == 2 || state == 3, "touching"); CHECK(bool(p), "first"); CHECK(bool(q) == (state == 3), "second"); for (auto& x : {p, q}) if (x) { double e = 8 * t; for (int i = 0; i < 2; ++i) { double h = d2(*x, i ? b : a), r = i ? r1 : r0; CHECK_LE(h, (r + e) * (r + e), "on"); CHECK_GE(h, (r - e) * (r - e), "on"); } } }); }
SX_REAL(circle_circle_near, "three pairs of radii, centres at any distance in three directions, a tolerance of 0.001: apart or within only beyond it, otherwise points that near to both circles") { near_circles([](const C2& a, const C2& b, auto v) { auto r = circle_circle_intersection(a, b, Tol(1e-3)); v((int)r.State, r.IntersectionPoint0, r.IntersectionPoint1); }); }
SX_REAL(sphere_sphere_near, "the same for the sphere entry point") { near_circles([](const C2& a, const C2& b, auto v) { auto r = sphere_sphere_intersection(a, b, Tol(1e-3)); v((int)r.State, r.IntersectionPoint0, r.IntersectionPoint1); }); }
