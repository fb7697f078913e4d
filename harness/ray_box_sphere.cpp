#include "g.h"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_capsule_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_triangle_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_polyline_intersection.hpp>
using namespace g;
typedef axis_aligned_bounding_box<P2> B2; typedef axis_aligned_bounding_box<P3> B3; typedef sphere<2, P2> C2;
static int sg(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static bool in_box(const P2& p, double w, double h) { return p[0] >= 0 && p[0] <= w && p[1] >= 0 && p[1] <= h; }
static bool crosses(const P2& a, const P2& b, const P2& c, const P2& d) { return sg(cr(a, b, c)) * sg(cr(a, b, d)) <= 0 && sg(cr(c, d, a)) * sg(cr(c, d, b)) <= 0; }
// a segment meets a box exactly when one of its ends is inside or it meets a diagonal
static bool seg_box(const P2& a, const P2& b, double x0, double y0, double x1, double y1) {
    P2 s(a[0] - x0, a[1] - y0), e(b[0] - x0, b[1] - y0); double w = x1 - x0, h = y1 - y0; if (in_box(s, w, h) || in_box(e, w, h)) return true;
    return crosses(s, e, P2(0, 0), P2(w, h)) || crosses(s, e, P2(w, 0), P2(0, h)); }
static const double AS[5][2] = {{1, 1}, {-3, 2}, {5, -4}, {0, 0}, {2, 7}};
SX_REAL(segment_aabb_miss, "planar segments from 5 starts to any end, any box with its lower corner on 3 lines: a reported miss shares no point") {
    int k = sx_choose("k", 0, 4), m = sx_choose("m", 0, 2); P2 a(AS[k][0], AS[k][1]), b = pt("b"); double lx = in("lx"), w = in("w"), h = in("h"); P2 lo(lx, m == 0 ? -1 : m == 1 ? 1 : 3); ASSUME_GE(w, 0.0); ASSUME_GE(h, 0.0);
    if (segment_aabb_intersection(a, b, B2(lo, P2(lo[0] + w, lo[1] + h)))) { COVER("hit"); return; }
    double t = in("t", 0, 1); P2 x = along(a, b, t); CHECK(!(x[0] >= lo[0] && x[0] <= lo[0] + w && x[1] >= lo[1] && x[1] <= lo[1] + h), "miss-is-disjoint"); }
SX_REAL(segment_aabb_hit, "planar segments from 5 starts to ends at least 2^-10 and at most 1024 away, boxes at 3 places of size 1 to 1024: a reported hit meets the box grown by 1e-9") {
    int k = sx_choose("k", 0, 4), m = sx_choose("m", 0, 2); double w = in("w", 1, 1024), h = in("h", 1, 1024); P2 a(AS[k][0], AS[k][1]), b = pt("b", -1024, 1024); double dx = b[0] - a[0], dy = b[1] - a[1]; ASSUME(dx >= 0.0009765625 || dx <= -0.0009765625 || dy >= 0.0009765625 || dy <= -0.0009765625);
    static const double L[3][2] = {{0, 0}, {-2, 3}, {3, -9}}; double x = L[m][0], y = L[m][1]; bool r = segment_aabb_intersection(a, b, B2(P2(x, y), P2(x + w, y + h))); if (!r) return; const double g = 1e-9; CHECK(seg_box(a, b, x - g, y - g, x + w + g, y + h + g), "hit-is-near"); }
SX_REAL(T_segment_aabb_miss, "all planar segments and boxes: a reported miss shares no point") {
    P2 a = pt("a"), b = pt("b"), lo = pt("lo"); double w = in("w"), h = in("h"); ASSUME_GE(w, 0.0); ASSUME_GE(h, 0.0);
    if (segment_aabb_intersection(a, b, B2(lo, P2(lo[0] + w, lo[1] + h)))) return;
    double t = in("t", 0, 1); P2 x = along(a, b, t); CHECK(!(x[0] >= lo[0] && x[0] <= lo[0] + w && x[1] >= lo[1] && x[1] <= lo[1] + h), "miss-is-disjoint"); }
SX_REAL(segment_aabb_space_miss, "segments in space from 3 starts to any end, unit-wide boxes of any height at any place: a reported miss shares no point") {
    static const double S[3][3] = {{0, 0, 0}, {-3, 2, 1}, {5, 5, -4}}; int k = sx_choose("k", 0, 2); P3 a(S[k][0], S[k][1], S[k][2]), b = pt3("b"); double h = in("h", 0, 100); static const double L[3][3] = {{1, 1, 1}, {-2, 0, -1}, {-1, -7, 0.5}}; int m = sx_choose("m", 0, 2);
    if (segment_aabb_intersection(a, b, B3(P3(L[m][0], L[m][1], L[m][2]), P3(L[m][0] + 1, L[m][1] + 2, L[m][2] + h)))) { COVER("hit"); return; }
    double t = in("t", 0, 1); P3 x = along(a, b, t); bool inside = true; double ext[3] = {1, 2, h}; for (int i = 0; i < 3; ++i) if (x[i] < L[m][i] || x[i] > L[m][i] + ext[i]) inside = false; CHECK(!inside, "miss-is-disjoint"); }
SX_REAL(segment_aabb_space_hit, "segments in space from 3 starts, boxes as above of height 1 to 100: a reported hit meets the box grown by 1e-9") {
    static const double S[3][3] = {{0, 0, 0}, {-3, 2, 1}, {5, 5, -4}}; int k = sx_choose("k", 0, 2); double h = in("h", 1, 100); P3 a(S[k][0], S[k][1], S[k][2]); double bx = in("bx", -100, 100), by = in("by", -100, 100), bz = in("bz", -100, 100); P3 b(bx, by, bz);
    static const double L[3][3] = {{1, 1, 1}, {-2, 0, -1}, {-1, -7, 0.5}}; int m = sx_choose("m", 0, 2); ASSUME(bx - a[0] >= 1 || bx - a[0] <= -1); ASSUME(by - a[1] >= 1 || by - a[1] <= -1); ASSUME(bz - a[2] >= 1 || bz - a[2] <= -1);
    if (!segment_aabb_intersection(a, b, B3(P3(L[m][0], L[m][1], L[m][2]), P3(L[m][0] + 1, L[m][1] + 2, L[m][2] + h)))) return;
    double ext[3] = {1, 2, h}, t0 = 0, t1 = 1; for (int i = 0; i < 3; ++i) { double d = b[i] - a[i], u = (L[m][i] - 1e-9 - a[i]) / d, v = (L[m][i] + ext[i] + 1e-9 - a[i]) / d; if (u > v) { double z = u; u = v; v = z; } if (u > t0) t0 = u; if (v < t1) t1 = v; }
    CHECK_LE(t0, t1, "hit-is-near"); }
// --- ray and box
static void ray_box(P2 p, V2 d, P2 lo, P2 hi, double s) {
    double t = -7, t0 = -7, t1 = -7; P2 q(77, 77), q0(77, 77), q1(77, 77); auto r = ray_aabb_intersection(p, d, B2(lo, hi), t, q, Exact()); auto r2 = ray_aabb_intersection(p, d, B2(lo, hi), t0, q0, t1, q1, Exact());
    CHECK(r.is_intersecting() == r2.is_intersecting(), "overloads"); auto inside = [&](const P2& x) { return x[0] >= lo[0] && x[0] <= hi[0] && x[1] >= lo[1] && x[1] <= hi[1]; };
    P2 x(p[0] + s * d[0], p[1] + s * d[1]); // any point of the ray
    if (!r.is_intersecting()) { CHECK(!inside(x), "miss-is-disjoint"); return; }
    bool in0 = inside(p); CHECK(r.is_origin_inside() == in0, "origin-inside"); CHECK(r2.is_origin_inside() == in0, "origin-inside"); CHECK_EQ(t, t0, "overload-parameter"); CHECK_GE(t0, 0.0, "forward"); CHECK_LE(t0, t1, "ordered");
    check_same(q0, P2(p[0] + t0 * d[0], p[1] + t0 * d[1]), "entrance-point"); check_same(q1, P2(p[0] + t1 * d[0], p[1] + t1 * d[1]), "exit-point"); check_same(q, in0 ? q1 : q0, "reported-point");
    CHECK(inside(q0), "entrance-in-box"); CHECK(inside(q1), "exit-in-box"); if (inside(x)) { CHECK_GE(s, t0, "first"); CHECK_LE(s, t1, "last"); } }
SX_REAL(ray_aabb, "any origin, direction and box") { P2 p = pt("p"), lo = pt("lo"); V2 d = vec("d"); ASSUME(d[0] != 0 || d[1] != 0); double w = in("w"), h = in("h"), s = in("s"); ASSUME_GE(w, 0.0); ASSUME_GE(h, 0.0); ASSUME_GE(s, 0.0); ray_box(p, d, lo, P2(lo[0] + w, lo[1] + h), s); }
SX_REAL(ray_aabb_axis, "axis directions, any origin, box with corners (1,2) and (4,3)") { static const double U[4][2] = {{1, 0}, {0, -1}, {-1, 0}, {0, 1}}; int k = sx_choose("k", 0, 3); P2 p = pt("p"); double s = in("s"); ASSUME_GE(s, 0.0); ray_box(p, V2(U[k][0], U[k][1]), P2(1, 2), P2(4, 3), s); }
// --- ray, segment and circle
static void ray_circle(P2 p, V2 d, P2 c, double r, double s) {
    double t = -7; P2 q(77, 77); bool hit = ray_sphere_intersection(p, d, C2(c, r), t, q, Exact()); P2 x(p[0] + s * d[0], p[1] + s * d[1]);
    if (!hit) { CHECK_GT(d2(x, c), r * r, "miss-is-disjoint"); return; }
    CHECK_GE(t, 0.0, "forward"); check_same(q, P2(p[0] + t * d[0], p[1] + t * d[1]), "point"); CHECK_LE(d2(q, c), r * r, "in-circle"); if (s < t) CHECK_GT(d2(x, c), r * r, "first"); }
SX_REAL(ray_circle_axis, "axis directions, any origin and radius, centre (1,2)") { static const double U[4][2] = {{1, 0}, {0, -1}, {-1, 0}, {0, 1}}; int k = sx_choose("k", 0, 3); P2 p = pt("p"); double r = in("r"), s = in("s"); ASSUME_GE(r, 0.0); ASSUME_GE(s, 0.0); ray_circle(p, V2(U[k][0], U[k][1]), P2(1, 2), r, s); }
SX_REAL(ray_circle_unit, "any unit direction, circle of radius 2, 3 origins") { static const double S[3][2] = {{-5, 0}, {1, 1}, {0, 2}}; int k = sx_choose("k", 0, 2); V2 d = unit("d"); double s = in("s"); ASSUME_GE(s, 0.0); ray_circle(P2(S[k][0], S[k][1]), d, P2(0, 0), 2, s); }
static void segment_circle(P2 a, P2 b, P2 c, double r, double s) {
    double t = -7; P2 q(77, 77); bool hit = segment_sphere_intersection(a, b, C2(c, r), t, q, Exact()); double t2 = -7; P2 q2; CHECK(segment_sphere_intersection(S2(a, b), C2(c, r), t2, q2, Exact()) == hit, "overload");
    P2 x = along(a, b, s);
    if (!hit) CHECK_GT(d2(x, c), r * r, "miss-is-disjoint"); else { CHECK_GE(t, 0.0, "from"); CHECK_LE(t, 1.0, "to"); CHECK_LE(d2(along(a, b, t), c), r * r + 1e-9, "in-circle"); check_same(q, along(a, b, t), "point"); if (s < t) CHECK_GT(d2(x, c), r * r, "first"); }
    double u[2]; P2 p[2]; auto res = segment_sphere_intersection(a, b, C2(c, r), u, p, Exact()); double A = d2(a, b);
    if (res.is_t0_intersecting() || res.is_t1_intersecting()) { for (int i = 0; i < 2; ++i) { CHECK_EQ(d2(p[i], c), r * r, "on-circle"); check_same(p[i], along(a, b, u[i]), "points"); } CHECK_LE(u[0], u[1], "order"); CHECK(res.is_t0_intersecting() == (u[0] >= 0 && u[0] <= 1), "first-in-segment"); CHECK(res.is_t1_intersecting() == (u[1] >= 0 && u[1] <= 1), "second-in-segment"); }
    else { // the segment does not meet the circle line: its ends are both inside, or all of it is outside
        bool i0 = d2(a, c) < r * r, i1 = d2(b, c) < r * r; CHECK(i0 == i1, "same-side"); if (!i0) CHECK_GT(d2(x, c), r * r, "no-contact"); }
    (void)A; }
SX_REAL(segment_circle_axis, "horizontal and vertical segments anywhere, circle with centre (1,2) and any radius") { P2 a = pt("a"); double l = in("l"), r = in("r"), s = in("s", 0, 1); ASSUME_GT(l, 0.0); ASSUME_GT(r, 0.0); int k = sx_choose("k", 0, 3); P2 b(a[0] + (k == 0 ? l : k == 1 ? -l : 0), a[1] + (k == 2 ? l : k == 3 ? -l : 0)); segment_circle(a, b, P2(1, 2), r, s); }
SX_REAL(segment_circle_end, "4 starts, any end, circle of radius 2 about the origin") { static const double S[4][2] = {{-5, 0}, {1, 1}, {0, 2}, {3, 3}}; int k = sx_choose("k", 0, 3); P2 a(S[k][0], S[k][1]), b = pt("b"); distinct(a, b); double s = in("s", 0, 1); segment_circle(a, b, P2(0, 0), 2, s); }
SX_REAL(circle_polyline, "circle of any radius at any height, polyline of 4 points: the visitor sees exactly the segments that meet the circle line, in order, until it asks to stop") {
    polyline<P2> pl{P2(-4, 0), P2(0, 0), P2(0, 3), P2(5, 3)}; double y = in("y", -5, 5), r = in("r"); ASSUME_GT(r, 0.0); P2 c(1, y); int stop = sx_choose("stop", 1, 4), n = 0; std::size_t last = 0; bool seen[4] = {0, 0, 0, 0};
    bool any = sphere_polyline_intersect(C2(c, r), pl, [&](const segment_sphere_intersection_result& res, std::size_t i, std::size_t j, double t0, P2 q0, double t1, P2 q1) {
        CHECK(j == i + 1 && i < 3, "indices"); CHECK(n == 0 || i > last, "order"); last = i; seen[i] = true; ++n; if (res.is_t0_intersecting()) CHECK_EQ(d2(q0, c), r * r, "on-circle"); if (res.is_t1_intersecting()) CHECK_EQ(d2(q1, c), r * r, "on-circle"); return n == stop; }, Exact());
    CHECK(any == (n > 0), "result"); CHECK(n <= stop, "stops");
    double s = in("s", 0, 1); if (n < stop) for (int i = 0; i < 3; ++i) if (!seen[i]) CHECK_NE(d2(along(pl[i], pl[i + 1], s), c), r * r, "complete"); }
// --- capsule: start outside
static double seg_d2(const P2& x, const P2& p, const P2& q) { double u = dt(p, q, x), L = d2(p, q); if (u <= 0) return d2(x, p); if (u >= L) return d2(x, q); return sq(cr(p, q, x)) / L; }
static void capsule(P2 a, P2 b, P2 p, P2 q, double r, double s) {
    double t = -7; P2 x(77, 77); ASSUME_GT(seg_d2(a, p, q), r * r); bool hit = segment_capsule_intersection(a, b, p, q, r, t, x, Exact()); P2 y = along(a, b, s);
    if (!hit) CHECK_GT(seg_d2(y, p, q), r * r, "miss-is-disjoint"); else { CHECK_GE(t, 0.0, "from"); CHECK_LE(t, 1.0, "to"); check_same(x, along(a, b, t), "point"); CHECK_EQ(seg_d2(x, p, q), r * r, "on-surface"); if (s < t) CHECK_GT(seg_d2(y, p, q), r * r, "first"); } }
SX_REAL(capsule_across, "vertical segments anywhere against a capsule (0,0)-(4,0) of radius 1") { double ax = in("ax"), ay = in("ay"), by = in("by"), s = in("s", 0, 1); ASSUME_NE(ay, by); capsule(P2(ax, ay), P2(ax, by), P2(0, 0), P2(4, 0), 1, s); }
SX_REAL(capsule_parallel, "segments along the axis direction anywhere against a capsule (0,0)-(4,0) of radius 1") { double ax = in("ax"), ay = in("ay"), bx = in("bx"), s = in("s", 0, 1); ASSUME_NE(ax, bx); capsule(P2(ax, ay), P2(bx, ay), P2(0, 0), P2(4, 0), 1, s); }
SX_REAL(capsule_oblique, "segments in 4 oblique directions of length 5 or 10 from anywhere on 3 lines") { static const double U[4][2] = {{3, 4}, {-4, 3}, {8, -6}, {-6, -8}}; int k = sx_choose("k", 0, 3), m = sx_choose("m", 0, 2); double ax = in("ax", -20, 20), s = in("s", 0, 1); P2 a(ax, m == 0 ? -2 : m == 1 ? 0 : 3); capsule(a, P2(a[0] + U[k][0], a[1] + U[k][1]), P2(0, 0), P2(4, 0), 1, s); }
// --- triangle
static const double T[3][6] = {{0, 0, 4, 0, 1, 3}, {-2, -1, 3, 1, 0, 2}, {1, 5, -3, 2, 2, -4}};
static bool in_tri(const P2& p, const P2& a, const P2& b, const P2& c) { return cr(a, b, p) >= 0 && cr(b, c, p) >= 0 && cr(c, a, p) >= 0; }
static void tri(P2 a, P2 b, P2 t0, P2 t1, P2 t2, double s) {
    bool hit = segment_triangle_intersect(a, b, t0, t1, t2); CHECK(segment_triangle_intersect(S2(a, b), t0, t1, t2) == hit, "overload");
    bool shared = in_tri(a, t0, t1, t2) || in_tri(b, t0, t1, t2) || crosses(a, b, t0, t1) || crosses(a, b, t1, t2) || crosses(a, b, t2, t0);
    if (cr(a, b, t0) == 0 && cr(a, b, t1) == 0) shared = (dt(a, b, t0) >= 0 && dt(a, b, t0) <= d2(a, b)) || (dt(t0, t1, a) >= 0 && dt(t0, t1, a) <= d2(t0, t1)) || (dt(t0, t1, b) >= 0 && dt(t0, t1, b) <= d2(t0, t1));
    else if (cr(a, b, t1) == 0 && cr(a, b, t2) == 0) shared = (dt(a, b, t1) >= 0 && dt(a, b, t1) <= d2(a, b)) || (dt(t1, t2, a) >= 0 && dt(t1, t2, a) <= d2(t1, t2)) || (dt(t1, t2, b) >= 0 && dt(t1, t2, b) <= d2(t1, t2));
    else if (cr(a, b, t2) == 0 && cr(a, b, t0) == 0) shared = (dt(a, b, t2) >= 0 && dt(a, b, t2) <= d2(a, b)) || (dt(t2, t0, a) >= 0 && dt(t2, t0, a) <= d2(t2, t0)) || (dt(t2, t0, b) >= 0 && dt(t2, t0, b) <= d2(t2, t0));
    CHECK(hit == shared, "iff-shared");
    P2 x[2] = {P2(77, 77), P2(77, 77)}; std::size_t n = segment_triangle_intersect(a, b, t0, t1, t2, x, Exact()); CHECK((n > 0) == shared, "clip-iff-shared"); CHECK(n <= 2, "at-most-two");
    for (std::size_t i = 0; i < n; ++i) { CHECK(in_tri(x[i], t0, t1, t2), "in-triangle"); check_on_segment(x[i], a, b, "on-segment"); }
    if (n) { P2 y = along(a, b, s); if (in_tri(y, t0, t1, t2)) { P2& z = x[n - 1]; CHECK_LE((y[0] - x[0][0]) * (y[0] - z[0]) + (y[1] - x[0][1]) * (y[1] - z[1]), 0.0, "whole-overlap"); } } }
SX_REAL(triangle, "3 counterclockwise triangles, segments from 4 starts to any end") { static const double S[4][2] = {{1, 1}, {-3, 0}, {0, 0}, {6, -1}}; int k = sx_choose("k", 0, 2), m = sx_choose("m", 0, 3); P2 a(S[m][0], S[m][1]), b = pt("b"); distinct(a, b); double s = in("s", 0, 1); tri(a, b, P2(T[k][0], T[k][1]), P2(T[k][2], T[k][3]), P2(T[k][4], T[k][5]), s); }
SX_REAL(triangle_moved, "segments in 3 directions and of any length from anywhere, one triangle") { static const double U[3][2] = {{1, 0}, {1, 2}, {-3, 1}}; int k = sx_choose("k", 0, 2); P2 a = pt("a"); double l = in("l"), s = in("s", 0, 1); ASSUME_GT(l, 0.0); tri(a, P2(a[0] + l * U[k][0], a[1] + l * U[k][1]), P2(0, 0), P2(4, 0), P2(1, 3), s); }

SX_REAL(triangle_either_way, "3 triangles in either orientation, segments from 4 starts to any end: the yes-or-no query does not depend on the orientation") { static const double S[4][2] = {{1, 1}, {-3, 0}, {0, 0}, {6, -1}}; int k = sx_choose("k", 0, 2), m = sx_choose("m", 0, 3), o = sx_choose("o", 0, 2); static const int O[5][3] = {{0, 2, 1}, {2, 1, 0}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}}; P2 a(S[m][0], S[m][1]), b = pt("b"); distinct(a, b); P2 v[3]; for (int i = 0; i < 3; ++i) v[i] = P2(T[k][2 * i], T[k][2 * i + 1]);
    CHECK(segment_triangle_intersect(a, b, v[O[o][0]], v[O[o][1]], v[O[o][2]]) == segment_triangle_intersect(a, b, v[0], v[1], v[2]), "same answer"); }
// touching up to a tolerance: a point that near to the circle
SX_REAL(ray_circle_near, "rays of four directions passing a circle of radius 2 at any distance, a tolerance of 0.001: missed only beyond it, otherwise the point is that near to the circle and on the ray") { static const double D[4][2] = {{1, 0}, {0, -1}, {0.6, 0.8}, {-0.96, 0.28}}; int k = sx_choose("dir", 0, 3), w = sx_choose("how", 0, 2); double h = in("h", -3, 3), e = 1e-3, m = 1e-9; V2 d(D[k][0], D[k][1]); P2 c(1, 2), p(c[0] - 5 * d[0] - h * d[1], c[1] - 5 * d[1] + h * d[0]), q(77, 77); P2 end(p[0] + 10 * d[0], p[1] + 10 * d[1]); double t = -7;
    bool hit = w == 0 ? ray_sphere_intersection(p, d, C2(c, 2), t, q, Tol(e)) : w == 1 ? segment_sphere_intersection(p, end, C2(c, 2), t, q, Tol(e)) : segment_capsule_intersection(p, end, c, P2(c[0] - 3 * d[1], c[1] + 3 * d[0]), 2, t, q, Tol(e)); if (w == 2 && h > 0) return; if (h * h < 4 - m) CHECK(hit, "hit"); if (h * h > 4 + e + m) CHECK(!hit, "miss"); if (!hit) return; double r = d2(q, c); CHECK_LE(r, 4 + e + m, "near"); CHECK_GE(r, 4 - e - m, "near"); double s = w ? 10 * t : t; CHECK_LE(s, 5 + m, "first"); CHECK_GE(s, 0.0, "forward"); P2 x(p[0] + s * d[0], p[1] + s * d[1]); CHECK_LE(d2(x, q), m, "on-ray"); }
