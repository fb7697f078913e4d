#include "g.h"
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/eberly_segment_segment_distance.hpp>
using namespace g;
// optimality of a convex problem: no feasible direction decreases |c1-c2|^2 (first-order conditions are sufficient)
static void optimal(P2 p1, P2 q1, P2 p2, P2 q2, double s, double t, P2 c1, P2 c2, double d) {
    CHECK_GE(s, 0.0, "s-range"); CHECK_LE(s, 1.0, "s-range"); CHECK_GE(t, 0.0, "t-range"); CHECK_LE(t, 1.0, "t-range");
    check_same(c1, along(p1, q1, s), "c1-at-s"); check_same(c2, along(p2, q2, t), "c2-at-t");
    CHECK_EQ(d, d2(c1, c2), "distance-is-between-the-points");
    double wx = c1[0] - c2[0], wy = c1[1] - c2[1];
    double g1 = wx * (q1[0] - p1[0]) + wy * (q1[1] - p1[1]), g2 = -(wx * (q2[0] - p2[0]) + wy * (q2[1] - p2[1]));
    CHECK_LE(g1 * s, 0.0, "optimal-s0"); CHECK_GE(g1 * (1 - s), 0.0, "optimal-s1");
    CHECK_LE(g2 * t, 0.0, "optimal-t0"); CHECK_GE(g2 * (1 - t), 0.0, "optimal-t1");
}
static void run(P2 p1, P2 q1, P2 p2, P2 q2) {
    double s, t; P2 c1, c2; double d = segment_segment_closest_point(p1, q1, p2, q2, s, t, c1, c2, Exact());
    optimal(p1, q1, p2, q2, s, t, c1, c2, d);
}
SX_REAL(axis_first, "first segment (0,0)-(L,0) with L > 0, second segment arbitrary, point-like included") { P2 p2 = pt("a"), q2 = pt("b"); double L = in("L"); ASSUME_GT(L, 0.0); run(P2(0, 0), P2(L, 0), p2, q2); }
SX_REAL(axis_second, "second segment (0,0)-(0,L) with L > 0, first segment arbitrary, point-like included") { P2 p2 = pt("a"), q2 = pt("b"); double L = in("L"); ASSUME_GT(L, 0.0); run(p2, q2, P2(0, 0), P2(0, L)); }
SX_REAL(oblique, "first segment one of 4 integer segments, second arbitrary") {
    static const double S[4][4] = {{0, 0, 3, 1}, {2, 5, -1, 2}, {-1, 4, 0, -3}, {1, 1, 1, 1}}; int k = sx_choose("k", 0, 3); P2 a = pt("a"), b = pt("b");
    run(P2(S[k][0], S[k][1]), P2(S[k][2], S[k][3]), a, b); }
SX_REAL(parallel, "second segment parallel to the first (any offset, any length, either direction)") {
    P2 a = pt("a"); double ux = in("ux"), uy = in("uy"), k = in("k"), ox = in("ox"), oy = in("oy"); ASSUME_GT(ux * ux + uy * uy, 0.0);
    run(a, P2(a[0] + ux, a[1] + uy), P2(a[0] + ox, a[1] + oy), P2(a[0] + ox + k * ux, a[1] + oy + k * uy)); }
SX_REAL(point_like, "one or both segments of length zero") {
    P2 a = pt("a"), b = pt("b"), c = pt("c"); int k = sx_choose("k", 0, 2); if (k == 0) run(a, a, b, c); else if (k == 1) run(b, c, a, a); else run(a, a, b, b); }
SX_REAL(overloads, "all pairs: the four distance entry points agree with the closest point query and the root squares back") {
    P2 a(0, 0), b(3, 1), c = pt("c"), e = pt("e"); double s, t; P2 c1, c2; double d = segment_segment_closest_point(a, b, c, e, s, t, c1, c2, Exact());
    CHECK_EQ(segment_segment_distance_sqrd(a, b, c, e, Exact()), d, "points"); CHECK_EQ(segment_segment_distance_sqrd(S2(a, b), S2(c, e), Exact()), d, "segments");
    double r = segment_segment_distance(a, b, c, e, Exact()), r2 = segment_segment_distance(S2(a, b), S2(c, e), Exact());
    CHECK_GE(r, 0.0, "root"); CHECK_EQ(r * r, d, "root"); CHECK_EQ(r, r2, "root2"); }
SX_REAL(symmetric, "one of 3 integer segments against an arbitrary one: swapping the arguments keeps the distance") {
    static const double S[3][4] = {{0, 0, 3, 1}, {2, 5, -1, 2}, {-1, 4, 0, -3}}; int k = sx_choose("k", 0, 2); P2 a(S[k][0], S[k][1]), b(S[k][2], S[k][3]), c(in("cx"), sx_choose("cy", -1, 2)), e(in("ex"), sx_choose("ey", -1, 1));
    CHECK_EQ(segment_segment_distance_sqrd(a, b, c, e, Exact()), segment_segment_distance_sqrd(c, e, a, b, Exact()), "swap"); }
SX_REAL(T_general, "all pairs of segments") { P2 a = pt("a"), b = pt("b"), c = pt("c"), e = pt("e"); run(a, b, c, e); }
// the distance by regions of the parameter square: the same number
static void eb(const P2& a, const P2& b, const P2& c, const P2& e) { CHECK_EQ(eberly_segment_segment_distance_sqrd(S2(a, b), S2(c, e)), segment_segment_distance_sqrd(a, b, c, e, Exact()), "same distance"); }
SX_REAL(regions, "first segment one of 2 integer segments, second arbitrary: the distance by regions is the distance") { static const double S[2][4] = {{0, 0, 3, 1}, {0, 0, 4, 0}}; int k = sx_choose("k", 0, 1); P2 a = pt("a"), b = pt("b"); eb(P2(S[k][0], S[k][1]), P2(S[k][2], S[k][3]), a, b); }
SX_REAL(regions_second, "second segment (0,0)-(0,L) with L > 0, first not a point: the distance by regions is the distance") { P2 a = pt("a"), b = pt("b"); double L = in("L"); ASSUME_GT(L, 0.0); ASSUME(a[0] != b[0] || a[1] != b[1]); eb(a, b, P2(0, 0), P2(0, L)); }
SX_REAL(regions_parallel, "parallel segments of any direction, length and offset: the distance by regions is the distance") { P2 a = pt("a"); double ux = in("ux"), uy = in("uy"), k = in("k"), ox = in("ox"), oy = in("oy"); ASSUME_GT(ux * ux + uy * uy, 0.0); eb(a, P2(a[0] + ux, a[1] + uy), P2(a[0] + ox, a[1] + oy), P2(a[0] + ox + k * ux, a[1] + oy + k * uy)); }
