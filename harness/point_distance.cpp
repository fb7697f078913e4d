#include "g.h"
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/distance/point_polyline_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polygon_closest_point.hpp>
using namespace g;
SX_REAL(point_point, "all points in 2 and 3 dimensions") {
    P2 a = pt("a"), b = pt("b"); P3 c = pt3("c"), d = pt3("d");
    CHECK_EQ(point_point_distance_sqrd(a, b), d2(a, b), "sqrd2");
    CHECK_EQ(point_point_distance_sqrd(c, d), d2(c, d), "sqrd3");
    double r = point_point_distance(a, b), r3 = point_point_distance(d, c);
    CHECK_GE(r, 0.0, "nonneg"); CHECK_EQ(r * r, d2(a, b), "dist2"); CHECK_GE(r3, 0.0, "nonneg3"); CHECK_EQ(r3 * r3, d2(c, d), "dist3");
}
SX_REAL(segment_min, "all points and segments, the degenerate one included") {
    P2 a = pt("a"), b = pt("b"), p = pt("p"); double t = in("t", 0, 1);
    double d = point_segment_distance_sqrd(p, S2(a, b));
    CHECK_LE(d, d2(p, along(a, b, t)), "minimal"); CHECK_GE(d, 0.0, "nonneg");
    CHECK_EQ(point_segment_distance_sqrd(p, a, b), d, "overloads");
}
SX_REAL(segment_min3, "all points and non-degenerate segments in 3 dimensions") {
    P3 a = pt3("a"), b = pt3("b"), p = pt3("p"); distinct(a, b);
    double d = point_segment_distance_sqrd(p, S3(a, b));
    P3 q = point_segment_closest_point(p, S3(a, b));
    CHECK_EQ(d2(p, q), d, "attained");
    double e = 0; for (int i = 0; i < 3; ++i) e += (p[i] - a[i]) * (b[i] - a[i]); double f = d2(a, b);
    if (e <= 0) check_same(q, a, "before"); else if (e >= f) check_same(q, b, "after"); else check_same(q, along(a, b, e / f), "foot");
}
SX_REAL(segment_closest, "all points and non-degenerate segments") {
    P2 a = pt("a"), b = pt("b"), p = pt("p"); distinct(a, b);
    P2 q = point_segment_closest_point(p, S2(a, b)), q2 = point_segment_closest_point(p, a, b);
    double d = point_segment_distance_sqrd(p, S2(a, b));
    CHECK_EQ(d2(p, q), d, "attained"); check_on_segment(q, a, b, "on"); check_same(q, q2, "overloads");
    double u; P2 q3 = point_segment_closest_point_and_param(p, a, b, u); check_same(q, q3, "param-overload");
    CHECK_EQ(u * d2(a, b), dt(a, b, p), "param");
}
SX_REAL(segment_root, "all points and segments") {
    P2 a = pt("a"), b = pt("b"), p = pt("p"); distinct(a, b);
    double r = point_segment_distance(p, S2(a, b)), d = point_segment_distance_sqrd(p, S2(a, b));
    CHECK_GE(r, 0.0, "nonneg"); CHECK_EQ(r * r, d, "root");
}
SX_REAL(line_dist, "all points and lines through two distinct points") {
    P2 a = pt("a"), b = pt("b"), p = pt("p"); distinct(a, b);
    line<P2> l(a, b);
    double s = signed_point_line_distance(p, l), u = point_line_distance(p, l);
    CHECK_EQ(s * s * d2(a, b), sq(cr(a, b, p)), "magnitude"); CHECK_EQ(u * u, s * s, "unsigned"); CHECK_GE(u, 0.0, "nonneg");
    double t = in("t"); CHECK_LE(u * u * d2(a, b), d2(p, along(a, b, t)) * d2(a, b), "minimal");
    CHECK_EQ(signed_point_line_distance(a, l), 0.0, "zero-a"); CHECK_EQ(signed_point_line_distance(b, l), 0.0, "zero-b");
}
SX_REAL(line_sides, "all pairs of points and lines") {
    P2 a = pt("a"), b = pt("b"), p = pt("p"), q = pt("q"); distinct(a, b);
    line<P2> l(a, b); double s = signed_point_line_distance(p, l), u = signed_point_line_distance(q, l);
    // equal sign exactly on the same side
    CHECK_EQ(s * cr(a, b, q), u * cr(a, b, p), "antisymmetric");
    CHECK_GE(s * cr(a, b, p), 0.0, "left-positive");
}
SX_REAL(aabb2, "all boxes and points") {
    double lx = in("lx"), ly = in("ly"), hx = in("hx"), hy = in("hy"); ASSUME_LE(lx, hx); ASSUME_LE(ly, hy);
    P2 p = pt("p"); axis_aligned_bounding_box<P2> b(P2(lx, ly), P2(hx, hy));
    double d = point_aabb_distance_sqrd(p, b); P2 q = point_aabb_closest_point(p, b);
    CHECK_EQ(d2(p, q), d, "attained"); CHECK_LE(lx, q[0], "in"); CHECK_LE(q[0], hx, "in"); CHECK_LE(ly, q[1], "in"); CHECK_LE(q[1], hy, "in");
    double x = in("x", 0, 1), y = in("y", 0, 1);
    CHECK_LE(d, d2(p, P2(lx + x * (hx - lx), ly + y * (hy - ly))), "minimal");
    double r = point_aabb_distance(p, b); CHECK_EQ(r * r, d, "root"); CHECK_GE(r, 0.0, "nonneg");
}
SX_REAL(aabb3, "all boxes and points in 3 dimensions") {
    double l[3], h[3], q0[3]; P3 p = pt3("p");
    for (int i = 0; i < 3; ++i) { l[i] = in(nm("l", i)); h[i] = in(nm("h", i)); ASSUME_LE(l[i], h[i]); q0[i] = in(nm("q", i)); ASSUME_LE(l[i], q0[i]); ASSUME_LE(q0[i], h[i]); }
    axis_aligned_bounding_box<P3> b(P3(l[0], l[1], l[2]), P3(h[0], h[1], h[2]));
    double d = point_aabb_distance_sqrd(p, b); P3 q = point_aabb_closest_point(p, b);
    CHECK_EQ(d2(p, q), d, "attained");
    for (int i = 0; i < 3; ++i) { CHECK_LE(l[i], q[i], "in"); CHECK_LE(q[i], h[i], "in"); CHECK_LE(sq(q[i] - p[i]), sq(q0[i] - p[i]), "minimal"); }
}
SX_REAL(obb2, "all rotated boxes with unit axes and all points") {
    V2 u = unit("u"), v(-u[1], u[0]); P2 c = pt("c"), p = pt("p"); double hu = in("hu"), hv = in("hv"); ASSUME_GE(hu, 0.0); ASSUME_GE(hv, 0.0);
    oriented_bounding_box<P2, V2> b(c, u, v, hu, hv);
    double d = point_obb_distance_sqrd(p, b);
    // oracle in the frame of the box
    double x = (p[0] - c[0]) * u[0] + (p[1] - c[1]) * u[1], y = (p[0] - c[0]) * v[0] + (p[1] - c[1]) * v[1];
    double ex = x > hu ? x - hu : x < -hu ? x + hu : 0.0, ey = y > hv ? y - hv : y < -hv ? y + hv : 0.0;
    CHECK_EQ(d, ex * ex + ey * ey, "distance");
    P2 q = point_obb_closest_point(p, b);
    double kx = x > hu ? hu : x < -hu ? -hu : x, ky = y > hv ? hv : y < -hv ? -hv : y;
    CHECK_EQ(q[0], c[0] + kx * u[0] + ky * v[0], "closest"); CHECK_EQ(q[1], c[1] + kx * u[1] + ky * v[1], "closest");
    double r = point_obb_distance(p, b); CHECK_EQ(r * r, d, "root"); CHECK_GE(r, 0.0, "nonneg");
}
template <class Poly> static Poly chain(int n) { Poly r; for (int i = 0; i < n; ++i) r.push_back(pt(nm("v", i))); for (int i = 0; i + 1 < n; ++i) distinct(r[i], r[i + 1]); return r; }
// the distance is at most that to every edge and equals one of them
template <class Poly> static void edges(const P2& p, const Poly& g, bool closed, double d) {
    int n = g.size(), m = closed ? n : n - 1; bool eq = false;
    for (int i = 0; i < m; ++i) { double e = point_segment_distance_sqrd(p, g[i], g[(i + 1) % n]); CHECK_LE(d, e, "lower-bound"); if (d == e) eq = true; }
    CHECK(eq, "is-an-edge-distance");
}
SX_REAL(polyline_min, "polylines of 2 and 3 points") { int n = sx_choose("n", 2, 3); polyline<P2> g = chain<polyline<P2>>(n); P2 p = pt("p"); edges(p, g, false, point_polyline_distance_sqrd(p, g)); }
// polygons with integer corners, some symbolic corner
static polygon<P2> shape(int k) {
    switch (k) {
    case 0: return polygon<P2>{P2(0, 0), P2(4, 0), P2(1, 3)};
    case 1: return polygon<P2>{P2(0, 0), P2(4, -1), P2(5, 3), P2(-1, 2)};
    case 2: return polygon<P2>{P2(0, 0), P2(6, 0), P2(6, 4), P2(3, 1), P2(0, 4)};
    default: return polygon<P2>{P2(-2, -3), P2(4, -3), P2(4, 5), P2(2, 5), P2(2, -1), P2(-2, -1)}; }
}
SX_REAL(polygon_tri, "triangles (0,0) (4,0) (v,3) for -8 <= v <= 8, points at -2, 1 or 5 units above the base") {
    polygon<P2> g{P2(0, 0), P2(4, 0), P2(in("v", -8, 8), 3)}; static const double ys[] = {-2, 1, 5}; P2 p(in("p"), ys[sx_choose("y", 0, 2)]);
    edges(p, g, true, point_polygon_distance_sqrd(p, g)); double rt = point_polygon_distance(p, g); CHECK_GE(rt, 0.0, "root"); CHECK_EQ(rt * rt, point_polygon_distance_sqrd(p, g), "root"); }
SX_REAL(polygon_shapes, "4 polygons of 3 to 6 corners, every point") {
    polygon<P2> g = shape(sx_choose("k", 0, 3)); P2 p = pt("p"); double d = point_polygon_distance_sqrd(p, g); edges(p, g, true, d);
    P2 q = point_polygon_closest_point(p, g); CHECK_EQ(d2(p, q), d, "attained"); }
SX_REAL(polyline_shapes, "4 polylines of 3 to 6 points, every point") {
    polygon<P2> h = shape(sx_choose("k", 0, 3)); polyline<P2> g(h.begin(), h.end()); P2 p = pt("p"); double d = point_polyline_distance_sqrd(p, g); edges(p, g, false, d);
    P2 q = point_polyline_closest_point(p, g); CHECK_EQ(d2(p, q), d, "attained"); double r = point_polyline_distance(p, g); CHECK_EQ(r * r, d, "root"); CHECK_GE(r, 0.0, "root"); }
SX_REAL(polygon_collection, "three polygons, every point") {
    std::vector<polygon<P2>> c{shape(0), polygon<P2>{P2(10, 0), P2(14, 0), P2(14, 4), P2(10, 4)}, polygon<P2>{P2(0, 10), P2(5, 10), P2(0, 15)}}; P2 p = pt("p");
    P2 q = point_polygon_collection_closest_point(p, c); double d = d2(p, q); bool eq = false;
    for (auto& g : c) { double e = point_polygon_distance_sqrd(p, g); CHECK_LE(d, e, "lower-bound"); if (d == e) eq = true; } CHECK(eq, "attained"); }
SX_REAL(polyline_closest, "polylines of 3 points") { polyline<P2> g = chain<polyline<P2>>(3); P2 p = pt("p"); P2 q = point_polyline_closest_point(p, g); CHECK_EQ(d2(p, q), point_polyline_distance_sqrd(p, g), "attained"); }
SX_REAL(T_polyline_min4, "polylines of 4 points") { polyline<P2> g = chain<polyline<P2>>(4); P2 p = pt("p"); edges(p, g, false, point_polyline_distance_sqrd(p, g)); }
SX_REAL(T_polygon_min, "polygons of 3 points") { polygon<P2> g = chain<polygon<P2>>(3); distinct(g[2], g[0]); P2 p = pt("p"); edges(p, g, true, point_polygon_distance_sqrd(p, g)); }
SX_REAL(T_polygon_min4, "polygons of 4 points") { polygon<P2> g = chain<polygon<P2>>(4); distinct(g[3], g[0]); P2 p = pt("p"); edges(p, g, true, point_polygon_distance_sqrd(p, g)); }
