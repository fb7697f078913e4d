#include "g.h"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/moving_obb_obb_intersection.hpp>
using namespace g;
typedef sphere<2, P2> C2; typedef axis_aligned_bounding_box<P2> B2; typedef oriented_bounding_box<P2, V2> O2;
static P2 at(const P2& c, const V2& v, double t) { return P2(c[0] + t * v[0], c[1] + t * v[1]); }
// every direction, up to a positive factor
static V2 dir(const char* n) { int k = sx_choose(n, 0, 3); double w = in("w", -1, 1); return k == 0 ? V2(w, 1) : k == 1 ? V2(w, -1) : k == 2 ? V2(1, w) : V2(-1, w); }
static double seg_d2(const P2& x, const P2& p, const P2& q) { double u = dt(p, q, x), L = d2(p, q); if (u <= 0) return d2(x, p); if (u >= L) return d2(x, q); return sq(cr(p, q, x)) / L; }
static double box_d2(const P2& x, double x0, double y0, double x1, double y1) { double dx = x[0] < x0 ? x0 - x[0] : x[0] > x1 ? x[0] - x1 : 0, dy = x[1] < y0 ? y0 - x[1] : x[1] > y1 ? x[1] - y1 : 0; return dx * dx + dy * dy; }
static const double LN[3][4] = {{0, 0, 4, 0}, {1, 1, 4, 5}, {2, -1, 2, -6}};
// --- line
static void plane_case(P2 a, P2 b, P2 c, double r, V2 v, double s) {
    line<P2> l(a, b); double L = std::sqrt(d2(a, b)), t = -7; P2 q(77, 77); auto res = moving_sphere_plane_intersection(C2(c, r), v, l, t, q, Exact());
    auto off = [&](const P2& x) { double o = cr(a, b, x) / L; return o < 0 ? -o : o; };
    double side = cr(a, b, c), turn = (b[0] - a[0]) * v[1] - (b[1] - a[1]) * v[0]; CHECK(res.is_moving_away() == (side * turn >= 0), "moving-away"); CHECK(res.is_touching() == (off(c) == r), "touching-at-start");
    P2 m = at(c, v, s); // any later place
    if (!res.is_intersecting()) { CHECK_GT(off(m), r, "miss-is-apart"); CHECK(res.is_moving_away(), "away"); return; }
    CHECK_GE(t, 0.0, "forward"); CHECK_EQ(cr(a, b, q), 0.0, "on-line"); if (s < t) CHECK_GT(off(m), r, "first");
    if (t > 0) CHECK_EQ(off(at(c, v, t)), r, "contact"); else CHECK_LE(off(c), r, "contact-at-start"); P2 e = at(c, v, t); CHECK_EQ((q[0] - e[0]) * (b[0] - a[0]) + (q[1] - e[1]) * (b[1] - a[1]), 0.0, "foot");
    if (off(c) <= r) CHECK(res.is_penetrating() == (off(c) < r), "penetrating-or-touching"); }
SX_REAL(sphere_line, "3 lines, any centre, radius and velocity") { int k = sx_choose("k", 0, 2); P2 c = pt("c"); V2 v = vec("v"); double r = in("r"), s = in("s"); ASSUME_GT(r, 0.0); ASSUME_GE(s, 0.0); plane_case(P2(LN[k][0], LN[k][1]), P2(LN[k][2], LN[k][3]), c, r, v, s); }
// --- segment
static void seg_case(P2 a, P2 b, P2 c, double r, V2 v, double s) {
    double t = -7; P2 q(77, 77); auto res = moving_sphere_segment_intersection(C2(c, r), v, S2(a, b), t, q, Exact()); P2 m = at(c, v, s);
    if (!res.is_intersecting()) { CHECK_GE(seg_d2(m, a, b), r * r, "miss-is-apart"); return; }
    CHECK_GE(t, 0.0, "forward"); if (s < t) CHECK_GE(seg_d2(m, a, b), r * r, "first"); P2 e = at(c, v, t);
    double side = cr(a, b, c), turn = (b[0] - a[0]) * v[1] - (b[1] - a[1]) * v[0], w = r * r * d2(a, b); CHECK(res.is_on_line_at_start() == (side * side <= w), "on-line-at-start"); CHECK(res.is_touching() == (side * side == w), "touching-line-at-start"); CHECK(res.is_moving_away() == (side * turn >= 0), "moving-away"); if (res.is_endpoint()) CHECK((q[0] == a[0] && q[1] == a[1]) || (q[0] == b[0] && q[1] == b[1]), "endpoint"); else check_on_segment(q, a, b, "inner");
    if (t > 0) { CHECK_EQ(seg_d2(e, a, b), r * r, "contact"); CHECK_EQ(d2(e, q), r * r, "on-circle"); check_on_segment(q, a, b, "on-segment"); } else CHECK_LE(seg_d2(e, a, b), r * r, "contact-at-start"); }
SX_REAL(sphere_segment_down, "segment (0,0)-(4,0), radius 1, centre anywhere, velocity (0,-2)") { P2 c = pt("c"); double s = in("s"); ASSUME_GE(s, 0.0); ASSUME_GT(seg_d2(c, P2(0, 0), P2(4, 0)), 1.0); seg_case(P2(0, 0), P2(4, 0), c, 1, V2(0, -2), s); }
SX_REAL(sphere_segment_dir, "3 segments, radius 1, 4 starts, any velocity") { static const double S[4][2] = {{-3, 2}, {2, 4}, {9, 0.5}, {6, -3}}; int k = sx_choose("k", 0, 2), m = sx_choose("m", 0, 3); P2 c(S[m][0], S[m][1]); P2 a(LN[k][0], LN[k][1]), b(LN[k][2], LN[k][3]); V2 v = vec("v"); ASSUME(v[0] != 0 || v[1] != 0); double s = in("s"); ASSUME_GE(s, 0.0); ASSUME_GT(seg_d2(c, a, b), 1.0); seg_case(a, b, c, 1, v, s); }
SX_REAL(sphere_segment_from, "segment (0,0)-(4,0), any radius, starts on 3 heights, velocities (3,-4), (-5,0), (4,3)") { static const double U[3][2] = {{3, -4}, {-5, 0}, {4, 3}}; int k = sx_choose("k", 0, 2), m = sx_choose("m", 0, 2); double x = in("x", -50, 50), r = in("r", 0.125, 50), s = in("s"); ASSUME_GE(s, 0.0); P2 c(x, m == 0 ? 3 : m == 1 ? 0 : -2); ASSUME_GT(seg_d2(c, P2(0, 0), P2(4, 0)), r * r); seg_case(P2(0, 0), P2(4, 0), c, r, V2(U[k][0], U[k][1]), s); }
SX_REAL(sphere_segment_overlap, "discs that already overlap the segment are reported at time 0") { P2 c = pt("c"); ASSUME_LT(seg_d2(c, P2(0, 0), P2(4, 0)), 4.0); ASSUME(d2(c, P2(0, 0)) > 0 && d2(c, P2(4, 0)) > 0); int k = sx_choose("k", 0, 1); double t = -7; P2 q; auto res = moving_sphere_segment_intersection(C2(c, 2), k ? V2(3, 4) : V2(0, -1), S2(P2(0, 0), P2(4, 0)), t, q, Exact()); CHECK(res.is_intersecting(), "reported"); CHECK_EQ(t, 0.0, "at-once"); }
// --- boxes
static void box_case(P2 c, double r, V2 v, double s) {
    double t = -7; P2 q(77, 77); bool hit = moving_sphere_aabb_intersection(C2(c, r), v, B2(P2(1, 2), P2(4, 3)), t, q, Exact()); P2 m = at(c, v, s);
    if (!hit) { CHECK_GE(box_d2(m, 1, 2, 4, 3), r * r, "miss-is-apart"); return; }
    CHECK_GE(t, 0.0, "forward"); if (s < t) CHECK_GE(box_d2(m, 1, 2, 4, 3), r * r, "first"); P2 e = at(c, v, t);
    if (t > 0) { CHECK_EQ(box_d2(e, 1, 2, 4, 3), r * r, "contact"); CHECK_EQ(d2(e, q), r * r, "on-circle"); CHECK_EQ(box_d2(q, 1, 2, 4, 3), 0.0, "on-box"); } else CHECK_LE(box_d2(e, 1, 2, 4, 3), r * r, "contact-at-start"); }
SX_REAL(sphere_aabb_axis, "box (1,2)-(4,3), radius 1, centre anywhere off the box, 4 axis velocities") { static const double U[4][2] = {{2, 0}, {0, -1}, {-1, 0}, {0, 3}}; int k = sx_choose("k", 0, 3); P2 c = pt("c"); double s = in("s"); ASSUME_GE(s, 0.0); ASSUME_GT(box_d2(c, 1, 2, 4, 3), 1.0); box_case(c, 1, V2(U[k][0], U[k][1]), s); }
SX_REAL(sphere_aabb_dir, "box (1,2)-(4,3), radius 1, 6 starts, any direction") { static const double S[6][2] = {{-3, 2.5}, {2, 9}, {9, 4}, {6, -3}, {0.125, 1.125}, {4.875, 3.875}}; int m = sx_choose("m", 0, 5); P2 c(S[m][0], S[m][1]); V2 v = dir("v"); double s = in("s"); ASSUME_GE(s, 0.0); box_case(c, 1, v, s); }
static void obb_case(P2 c, double r, V2 v, double s, int k) {
    // centre (2,1), half widths 2 and 1, axes turned by an angle with exact sine and cosine
    static const double A[2][4] = {{0, 1, -1, 0}, {1, 0, 0, 1}}; V2 u(A[k][0], A[k][1]), w(A[k][2], A[k][3]); O2 o(P2(2, 1), u, w, 2, 1); double hx = k ? 2 : 1, hy = k ? 1 : 2, x0 = 2 - hx, x1 = 2 + hx, y0 = 1 - hy, y1 = 1 + hy;
    double t = -7; P2 q(77, 77); auto res = moving_sphere_obb_intersection(C2(c, r), v, o, t, q, Exact()); P2 m = at(c, v, s); bool hit = res.is_intersecting();
    if (!hit) { CHECK_GE(box_d2(m, x0, y0, x1, y1), r * r, "miss-is-apart"); return; }
    CHECK_GE(t, 0.0, "forward"); if (s < t) CHECK_GE(box_d2(m, x0, y0, x1, y1), r * r, "first"); P2 e = at(c, v, t);
    if (t > 0) { CHECK_EQ(box_d2(e, x0, y0, x1, y1), r * r, "contact"); CHECK_EQ(d2(e, q), r * r, "on-circle"); CHECK_EQ(box_d2(q, x0, y0, x1, y1), 0.0, "on-box"); } else CHECK_LE(box_d2(e, x0, y0, x1, y1), r * r, "contact-at-start"); }
SX_REAL(sphere_obb_axis, "oriented boxes turned by 0 and 90 degrees, radius 1, centre anywhere off the box, 2 velocities") { static const double U[2][2] = {{2, 0}, {0, -1}}; int k = sx_choose("k", 0, 1), m = sx_choose("m", 0, 1); P2 c = pt("c"); double s = in("s"); ASSUME_GE(s, 0.0); double hx = k ? 2 : 1, hy = k ? 1 : 2; ASSUME_GT(box_d2(c, 2 - hx, 1 - hy, 2 + hx, 1 + hy), 1.0); obb_case(c, 1, V2(U[m][0], U[m][1]), s, k); }
SX_REAL(sphere_obb_dir, "oriented boxes turned by 0 and 90 degrees, radius 1, 5 starts, any direction") { static const double S[5][2] = {{-4, 1.5}, {2, 9}, {9, 4}, {0.25, -1.75}, {4.875, 2.75}}; int k = sx_choose("k", 0, 1), m = sx_choose("m", 0, 4); P2 c(S[m][0], S[m][1]); double hx = k ? 2 : 1, hy = k ? 1 : 2; ASSUME_GT(box_d2(c, 2 - hx, 1 - hy, 2 + hx, 1 + hy), 1.0); V2 v = dir("v"); double s = in("s"); ASSUME_GE(s, 0.0); obb_case(c, 1, v, s, k); }
// --- two spheres
static void two(P2 c0, P2 c1, double r0, double r1, V2 v0, V2 v1, double s) {
    double t = -7; P2 q(77, 77); bool hit = moving_sphere_sphere_intersection(C2(c0, r0), C2(c1, r1), v0, v1, t, q, Exact()); CHECK(moving_sphere_sphere_intersection(C2(c0, r0), C2(c1, r1), v0, v1, Exact()) == hit, "overload");
    double R = r0 + r1; auto D = [&](double u) { return d2(at(c0, v0, u), at(c1, v1, u)); };
    if (!hit) { CHECK_GE(D(s), R * R, "miss-is-apart"); return; }
    CHECK_GE(t, 0.0, "forward"); if (s < t) CHECK_GE(D(s), R * R, "first"); if (d2(c0, c1) < R * R) { CHECK_EQ(t, 0.0, "at-once"); return; }
    CHECK_EQ(D(t), R * R, "contact"); CHECK_EQ(d2(at(c0, v0, t), q), r0 * r0, "on-first"); CHECK_EQ(d2(at(c1, v1, t), q), r1 * r1, "on-second"); }
SX_REAL(sphere_sphere_rel, "second disc anywhere with any radius, moving along an axis at any speeds") { P2 c = pt("c"); double r = in("r"), a = in("a"), b = in("b"), s = in("s"); ASSUME_GT(r, 0.0); ASSUME_GE(s, 0.0); two(P2(1, 1), c, 2, r, V2(a, 0), V2(b, 0), s); }
SX_REAL(sphere_sphere_dir, "4 starts, any velocities, radii 1 and 2") { static const double S[4][2] = {{6, 0}, {-4, 3}, {1, 2}, {3, 0}}; int k = sx_choose("k", 0, 3); V2 a = vec("a"), b = vec("b"); double s = in("s"); ASSUME_GE(s, 0.0); two(P2(0, 0), P2(S[k][0], S[k][1]), 1, 2, a, b, s); }
// --- moving polygons: overlap of a triangle and a moving square in closed form by edge normals
static const double TRI[3][2] = {{0, 0}, {4, 0}, {1, 3}};
static bool sep(double n0, double n1, const P2* a, int n, const P2* b, int m) { double amx = -1e300, amn = 1e300, bmx = -1e300, bmn = 1e300; for (int i = 0; i < n; ++i) { double x = n0 * a[i][0] + n1 * a[i][1]; amx = x > amx ? x : amx; amn = x < amn ? x : amn; } for (int i = 0; i < m; ++i) { double x = n0 * b[i][0] + n1 * b[i][1]; bmx = x > bmx ? x : bmx; bmn = x < bmn ? x : bmn; } return amx < bmn || bmx < amn; }
static bool apart(const P2* a, int n, const P2* b, int m) { for (int i = 0; i < n; ++i) { int j = (i + 1) % n; if (sep(a[j][1] - a[i][1], a[i][0] - a[j][0], a, n, b, m)) return true; } for (int i = 0; i < m; ++i) { int j = (i + 1) % m; if (sep(b[j][1] - b[i][1], b[i][0] - b[j][0], a, n, b, m)) return true; } return false; }
static void poly_case(double x, double y, V2 v0, V2 v1, double s, double tmax, bool ccw) {
    typedef polygon<P2> PG; P2 t0(0, 0), t1(4, 0), t2(1, 3); P2 b0(x, y), b1(x + 1, y), b2(x + 1, y + 1), b3(x, y + 1); PG A = ccw ? PG{t0, t1, t2} : PG{t0, t2, t1}, B = ccw ? PG{b0, b1, b2, b3} : PG{b0, b3, b2, b1};
    double tf = -7, tl = -7; bool hit = moving_convex_polygons_intersection(A, v0, B, v1, tmax, tf, tl, Exact());
    P2 p[3] = {at(t0, v0, s), at(t1, v0, s), at(t2, v0, s)}, q[4] = {at(b0, v1, s), at(b1, v1, s), at(b2, v1, s), at(b3, v1, s)}; bool ap = apart(p, 3, q, 4);
    if (!hit) { if (s <= tmax) CHECK(ap, "miss-is-apart"); return; }
    CHECK_GE(tf, 0.0, "forward"); CHECK_LE(tf, tl, "ordered"); CHECK_LE(tf, tmax, "in-time"); if (s < tf) CHECK(ap, "first"); else if (s <= tl) CHECK(!ap, "during"); else CHECK(ap, "last"); }
SX_REAL(moving_polygons, "a triangle at rest and a unit square at any height moving along 4 directions at any speed, both orientations") { static const double W[4][3] = {{-3, 1, 0}, {6, -1, 0.5}, {2, 0, -1}, {-1, 1, 1}}; int k = sx_choose("k", 0, 3), o = sx_choose("ccw", 0, 1); double y = in("y", -10, 10), s = in("s", 0, 100), w = in("w", 0, 10); poly_case(W[k][0], y, V2(0, 0), V2(w * W[k][1], w * W[k][2]), s, 50, o); }
SX_REAL(moving_polygons_limit, "as above from 3 starts with any velocities and any time limit") { static const double W[3][2] = {{-3, 1}, {6, -2}, {1, 1}}; int k = sx_choose("k", 0, 2); V2 v = vec("v"); double s = in("s", 0, 100), tm = in("tmax", 0, 1000); poly_case(W[k][0], W[k][1], V2(1, -1), v, s, tm, true); }
SX_REAL(moving_obbs, "two oriented boxes with axis directions, any distance and velocities") {
    O2 a(P2(0, 0), V2(1, 0), V2(0, 1), 2, 1); double x = in("x", -20, 20), s = in("s", 0, 100); int k = sx_choose("k", 0, 1), m = sx_choose("m", 0, 2); V2 v = vec("v"), w(1, -2); double y = m == 0 ? 4 : m == 1 ? -1 : -3; O2 b = k ? O2(P2(x, y), V2(0, 1), V2(-1, 0), 3, 1) : O2(P2(x, y), V2(1, 0), V2(0, 1), 1, 2); double hx = k ? 1 : 1, hy = k ? 3 : 2;
    double tf = -7, tl = -7, tmax = in("tmax", 0, 100); bool hit = moving_obb_obb_intersection(a, w, b, v, tmax, tf, tl); double dx = x + s * (v[0] - w[0]), dy = y + s * (v[1] - w[1]); bool ap = dx > 2 + hx || dx < -2 - hx || dy > 1 + hy || dy < -1 - hy;
    if (!hit) { if (s <= tmax) CHECK(ap, "miss-is-apart"); return; }
    CHECK_GE(tf, 0.0, "forward"); CHECK_LE(tf, tl, "ordered"); CHECK_LE(tf, tmax, "in-time"); if (s < tf) CHECK(ap, "first"); else if (s <= tl) CHECK(!ap, "during"); else CHECK(ap, "last"); }
SX_REAL(sphere_obb_turned, "oriented box turned by any angle, radius 1, 3 starts and velocities") {
    static const double S[3][4] = {{-6, 0.5, 1, 0}, {5, 5, -1, -2}, {0.5, -7, 0, 1}}; int m = sx_choose("m", 0, 2); V2 u = unit("u"), w(-u[1], u[0]); O2 o(P2(0, 0), u, w, 2, 1); P2 c(S[m][0], S[m][1]); V2 v(S[m][2], S[m][3]); double s = in("s"); ASSUME_GE(s, 0.0);
    auto loc = [&](const P2& p) { return P2(p[0] * u[0] + p[1] * u[1], p[0] * w[0] + p[1] * w[1]); }; auto D = [&](const P2& p) { return box_d2(loc(p), -2, -1, 2, 1); };
    double t = -7; P2 q(77, 77); auto res = moving_sphere_obb_intersection(C2(c, 1), v, o, t, q, Exact()); P2 x = at(c, v, s);
    if (!res.is_intersecting()) { CHECK_GE(D(x), 1.0, "miss-is-apart"); return; }
    CHECK_GE(t, 0.0, "forward"); if (s < t) CHECK_GE(D(x), 1.0, "first"); P2 e = at(c, v, t); CHECK_EQ(D(e), 1.0, "contact"); CHECK_EQ(d2(e, q), 1.0, "on-circle"); CHECK_EQ(D(q), 0.0, "on-box"); }
static void cases(const P2* a, int n, const P2* b, int m, bool hit, double tf, double tl, double tmax, double s, V2 v0, V2 v1) {
    P2 p[8], q[8]; for (int i = 0; i < n; ++i) p[i] = at(a[i], v0, s); for (int i = 0; i < m; ++i) q[i] = at(b[i], v1, s); bool ap = apart(p, n, q, m);
    if (!hit) { if (s <= tmax) CHECK(ap, "miss-is-apart"); return; }
    CHECK_GE(tf, 0.0, "forward"); CHECK_LE(tf, tl, "ordered"); CHECK_LE(tf, tmax, "in-time"); if (s < tf) CHECK(ap, "first"); else if (s <= tl) CHECK(!ap, "during"); else CHECK(ap, "last"); }
// every side of both polygons has a direction of its own, so each side matters
SX_REAL(moving_polygons_many, "a pentagon and a hexagon without parallel sides, 6 starts around, moving towards each other at any sideways offset") {
    typedef polygon<P2> PG; static const double A[5][2] = {{-3, -2}, {1, -3}, {4, 0}, {2, 3}, {-2, 2.5}}, B[6][2] = {{-2, 0.25}, {-1.5, -1.25}, {0.5, -1.75}, {2, -0.5}, {1.25, 1.5}, {-0.25, 2.25}}, D[6][2] = {{1, 0}, {1, 2}, {-1, 1}, {-2, -1}, {1, -3}, {-0.5, -3}};
    int k = sx_choose("from", 0, 5); double x = in("x", -8, 8), s = in("s", 0, 10); double cx = 6 * D[k][0] - x * D[k][1], cy = 6 * D[k][1] + x * D[k][0]; P2 a[5], b[6]; PG g, h; for (int i = 0; i < 5; ++i) { a[i] = P2(A[i][0], A[i][1]); g.push_back(a[i]); } for (int i = 0; i < 6; ++i) { b[i] = P2(B[i][0] + cx, B[i][1] + cy); h.push_back(b[i]); }
    V2 v0(D[k][0], D[k][1]), v1(-D[k][0], -D[k][1]); double tf = -7, tl = -7; bool hit = moving_convex_polygons_intersection(g, v0, h, v1, 50.0, tf, tl, Exact()); cases(a, 5, b, 6, hit, tf, tl, 50, s, v0, v1); }
SX_REAL(moving_obbs_turned, "two boxes of different shapes, one turned by 2 angles, 6 starts around, moving towards each other at any sideways offset") {
    static const double U[2][3] = {{3, 4, 5}, {-7, 24, 25}}, D[6][2] = {{1, 0}, {1, 2}, {-1, 1}, {-2, -1}, {1, -3}, {-0.5, -3}}; int k = sx_choose("from", 0, 5), r = sx_choose("turn", 0, 1); double x = in("x", -8, 8), s = in("s", 0, 10); double cx = 6 * D[k][0] - x * D[k][1], cy = 6 * D[k][1] + x * D[k][0];
    double n = in("n", 0, 1), f = in("f", 0, 1); ASSUME_EQ(n * U[r][2], 1.0); ASSUME_EQ(f * 5, 1.0); V2 u(U[r][0] * n, U[r][1] * n), w(-u[1], u[0]), uo(4 * f, -3 * f), wo(3 * f, 4 * f), v0(D[k][0], D[k][1]), v1(-D[k][0], -D[k][1]); P2 c(cx, cy); O2 o(P2(1, -1), uo, wo, 2, 0.5), e(c, u, w, 1.5, 3); auto corners = [](const P2& c, const V2& u, const V2& w, double hx, double hy, P2* p) { for (int i = 0; i < 4; ++i) { double a = i == 0 || i == 3 ? -hx : hx, b = i < 2 ? -hy : hy; p[i] = P2(c[0] + a * u[0] + b * w[0], c[1] + a * u[1] + b * w[1]); } };
    P2 a[4], b[4]; corners(P2(1, -1), uo, wo, 2, 0.5, a); corners(c, u, w, 1.5, 3, b); double tf = -7, tl = -7; bool hit = moving_obb_obb_intersection(o, v0, e, v1, 50.0, tf, tl); cases(a, 4, b, 4, hit, tf, tl, 50, s, v0, v1); }
