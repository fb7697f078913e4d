#include "g.h"
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_polyline_distance.hpp>
#include <geometrix/algorithm/distance/segment_polygon_distance.hpp>
#include <geometrix/algorithm/distance/segment_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_distance.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_distance.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_obb_distance.hpp>
#include <geometrix/algorithm/distance/aabb_aabb_distance.hpp>
using namespace g;
typedef std::vector<P2> Pts;
static Pts shape(int k) {
    switch (k) {
    case 0: return {P2(0, 0), P2(4, 0), P2(1, 3)};
    case 1: return {P2(0, 0), P2(4, -1), P2(5, 3), P2(-1, 2)};
    default: return {P2(0, 0), P2(6, 0), P2(6, 4), P2(3, 1), P2(0, 4)}; }
}
// long chains: the divide and conquer branches start at six points
static Pts longchain(int k) {
    switch (k) {
    case 0: return {P2(0, 0), P2(3, 1), P2(5, -1), P2(8, 2), P2(6, 5), P2(2, 6), P2(-1, 3)};
    case 1: return {P2(0, 0), P2(2, 0), P2(4, 1), P2(6, 0), P2(8, 1), P2(10, 0), P2(10, 6), P2(8, 7), P2(6, 6), P2(4, 7), P2(2, 6), P2(0, 6)};
    default: return {P2(1, 0), P2(3, -1), P2(6, 0), P2(7, 3), P2(4, 5), P2(0, 4)}; }
}
static Pts moved(Pts p, double dx, double dy) { for (auto& q : p) q = P2(q[0] + dx, q[1] + dy); return p; }
template <class T> static T mk(const Pts& p) { return T(p.begin(), p.end()); }
// no pair of points on the two chains is nearer: edges i, j and parameters u, v are arbitrary
static void minimal(double d, const Pts& a, bool ca, const Pts& b, bool cb, const char* l) {
    int na = a.size(), nb = b.size(); double u = in("u", 0, 1), v = in("v", 0, 1);
    for (int i = 0; i < (ca ? na : na - 1); ++i) for (int j = 0; j < (cb ? nb : nb - 1); ++j)
        CHECK_LE(d, d2(along(a[i], a[(i + 1) % na], u), along(b[j], b[(j + 1) % nb], v)), l);
}
static void outputs(double d, const Pts& a, bool ca, const Pts& b, bool cb, std::size_t i1, std::size_t i2, double s, double t, P2 c1, P2 c2) {
    CHECK(i1 < a.size() - !ca, "index1"); CHECK(i2 < b.size() - !cb, "index2");
    CHECK_GE(s, 0.0, "s"); CHECK_LE(s, 1.0, "s"); CHECK_GE(t, 0.0, "t"); CHECK_LE(t, 1.0, "t");
    check_same(c1, along(a[i1], a[(i1 + 1) % a.size()], s), "c1"); check_same(c2, along(b[i2], b[(i2 + 1) % b.size()], t), "c2");
    CHECK_EQ(d, d2(c1, c2), "attained");
}
static void edge_min(const P2& p, const P2& q, const Pts& g, bool closed, double d) {
    int n = g.size(), m = closed ? n : n - 1; bool eq = false;
    for (int i = 0; i < m; ++i) { double e = segment_segment_distance_sqrd(p, q, g[i], g[(i + 1) % n], Exact()); CHECK_LE(d, e, "lower-bound"); if (d == e) eq = true; }
    CHECK(eq, "is-an-edge-distance");
}
static P2 onrow(const char* n) { static const double ys[] = {-2, 1, 2.5, 6}; double x = in(std::string(n) + ".x"); return P2(x, ys[sx_choose((std::string(n) + ".row").c_str(), 0, 3)]); }
static P2 end() { static const double E[3][2] = {{2, -3}, {3, 2}, {-4, 5}}; int k = sx_choose("end", 0, 2); return P2(E[k][0], E[k][1]); }
SX_REAL(segment_polyline, "3 polylines; segments from one of 3 fixed ends to anywhere on 4 horizontal lines") {
    Pts g = shape(sx_choose("k", 0, 2)); P2 p = onrow("p"), q = end(); auto h = mk<polyline<P2>>(g);
    double d = segment_polyline_distance_sqrd(p, q, h, Exact()); edge_min(p, q, g, false, d);
    CHECK_EQ(segment_polyline_distance_sqrd(S2(p, q), h, Exact()), d, "segment-overload"); }
SX_REAL(segment_polygon, "3 polygons; segments from one of 3 fixed ends to anywhere on 4 horizontal lines") {
    Pts g = shape(sx_choose("k", 0, 2)); P2 p = onrow("p"), q = end(); auto h = mk<polygon<P2>>(g);
    double d = segment_polygon_distance_sqrd(p, q, h, Exact()); edge_min(p, q, g, true, d);
    CHECK_EQ(segment_polygon_distance_sqrd(S2(p, q), h, Exact()), d, "segment-overload"); }
SX_REAL(segment_poly_root, "distances square to the squared distances") {
    Pts g = shape(sx_choose("k", 0, 2)); P2 p = onrow("p"), q(2, -3); auto h = mk<polygon<P2>>(g); auto l = mk<polyline<P2>>(g);
    double a = segment_polygon_distance(p, q, h, Exact()), b = segment_polyline_distance(S2(p, q), l, Exact());
    CHECK_EQ(a * a, segment_polygon_distance_sqrd(p, q, h, Exact()), "polygon"); CHECK_EQ(b * b, segment_polyline_distance_sqrd(p, q, l, Exact()), "polyline"); CHECK_GE(a, 0.0, "polygon"); CHECK_GE(b, 0.0, "polyline"); }
SX_REAL(segment_polyline_closest, "as segment_polyline") {
    Pts g = shape(sx_choose("k", 0, 2)); P2 p = onrow("p"), q = end(); auto h = mk<polyline<P2>>(g); std::size_t k = 99; double s = 7, t = 7; P2 c1, c2;
    double d = segment_polyline_closest_point(p, q, h, k, s, t, c1, c2, Exact()); outputs(d, {p, q}, false, g, false, 0, k, s, t, c1, c2); minimal(d, {p, q}, false, g, false, "minimal"); }
SX_REAL(segment_polygon_closest, "as segment_polygon") {
    Pts g = shape(sx_choose("k", 0, 2)); P2 p = onrow("p"), q = end(); auto h = mk<polygon<P2>>(g); std::size_t k = 99; double s = 7, t = 7; P2 c1, c2;
    double d = segment_polygon_closest_point(p, q, h, k, s, t, c1, c2, Exact()); outputs(d, {p, q}, false, g, true, 0, k, s, t, c1, c2); minimal(d, {p, q}, false, g, true, "minimal"); }
static const double DY[] = {-9, 4.5, 12, -3};
static int ndy() { return 3; }
static void pp(int ka, int kb, bool longones) {
    Pts a = longones ? longchain(ka) : shape(ka), b = moved(longones ? longchain(kb) : shape(kb), in("dx"), DY[sx_choose("dy", 0, 3)]);
    auto x = mk<polyline<P2>>(a); auto y = mk<polyline<P2>>(b);
    double d = polyline_polyline_distance_sqrd(x, y, Exact()); minimal(d, a, false, b, false, "minimal"); CHECK_GE(d, 0.0, "nonneg"); double rt = polyline_polyline_distance(x, y, Exact()); CHECK_GE(rt, 0.0, "root"); CHECK_EQ(rt * rt, d, "root");
}
static void qq(int ka, int kb, bool longones) {
    Pts a = longones ? longchain(ka) : shape(ka), b = moved(longones ? longchain(kb) : shape(kb), in("dx"), DY[sx_choose("dy", 0, 3)]);
    auto x = mk<polygon<P2>>(a); auto y = mk<polygon<P2>>(b);
    double d = polygon_polygon_distance_sqrd(x, y, Exact()); minimal(d, a, true, b, true, "minimal"); CHECK_GE(d, 0.0, "nonneg"); double rt = polygon_polygon_distance(x, y, Exact()); CHECK_GE(rt, 0.0, "root"); CHECK_EQ(rt * rt, d, "root");
}
SX_REAL(polyline_pair, "3x3 pairs of short polylines, 4 vertical offsets, any horizontal offset") { pp(sx_choose("ka", 0, 2), sx_choose("kb", 0, 2), false); }
SX_REAL(polygon_pair, "3x3 pairs of short polygons, 4 vertical offsets, any horizontal offset") { qq(sx_choose("ka", 0, 2), sx_choose("kb", 0, 2), false); }
SX_REAL(polyline_pair_long, "polylines of 7 and 6 points, 4 vertical offsets, any horizontal offset") { pp(0, 2, true); }
SX_REAL(polygon_pair_long, "polygons of 7 and 6 points, 4 vertical offsets, any horizontal offset") { qq(0, 2, true); }
SX_REAL(T_polyline_pair_long, "3x3 pairs of polylines of 6 to 12 points, 4 vertical offsets, any horizontal offset") { pp(sx_choose("ka", 0, 2), sx_choose("kb", 0, 2), true); }
SX_REAL(T_polygon_pair_long, "3x3 pairs of polygons of 6 to 12 points, 4 vertical offsets, any horizontal offset") { qq(sx_choose("ka", 0, 2), sx_choose("kb", 0, 2), true); }
// the divide and conquer against the minimum over all pairs of edges, the offset confined to a window
static double brute(const Pts& a, const Pts& b, bool closed) { double m = 1e300; int na = a.size(), nb = b.size();
    for (int i = 0; i < (closed ? na : na - 1); ++i) for (int j = 0; j < (closed ? nb : nb - 1); ++j) { double e = segment_segment_distance_sqrd(a[i], a[(i + 1) % na], b[j], b[(j + 1) % nb], Exact()); if (e < m) m = e; } return m; }
SX_REAL(polyline_pair_deep, "polylines of 12 points, 4 windows of the horizontal offset") {
    static const double W[4][3] = {{-12, -11, 0.5}, {11, 12, 3}, {2, 3, -9}, {-4, -3, 9}}; auto w = W[sx_choose("w", 0, 3)];
    Pts a = longchain(1), b = moved(a, in("dx", w[0], w[1]), w[2]); auto x = mk<polyline<P2>>(a), y = mk<polyline<P2>>(b); CHECK_EQ(polyline_polyline_distance_sqrd(x, y, Exact()), brute(a, b, false), "brute"); }
SX_REAL(polygon_pair_deep, "polygons of 12 points, 4 windows of the horizontal offset") {
    static const double W[4][3] = {{-12, -11, 0.5}, {11, 12, 3}, {2, 3, -9}, {-4, -3, 9}}; auto w = W[sx_choose("w", 0, 3)];
    Pts a = longchain(1), b = moved(a, in("dx", w[0], w[1]), w[2]); auto x = mk<polygon<P2>>(a), y = mk<polygon<P2>>(b); CHECK_EQ(polygon_polygon_distance_sqrd(x, y, Exact()), brute(a, b, true), "brute"); }
template <class F> static void both(bool closed, int lo, int ka, int kb, F f) {
     Pts a = lo ? longchain(ka) : shape(ka), b = moved(lo ? longchain(kb) : shape(kb), in("dx"), DY[sx_choose("dy", 0, 3)]);
    std::size_t i = 99, j = 99; double s = 7, t = 7; P2 c1(77, 77), c2(78, 78); double d = f(a, b, i, j, s, t, c1, c2);
    outputs(d, a, closed, b, closed, i, j, s, t, c1, c2);
}
static double cpl(const Pts& a, const Pts& b, std::size_t& i, std::size_t& j, double& s, double& t, P2& c1, P2& c2) { auto x = mk<polyline<P2>>(a), y = mk<polyline<P2>>(b); double d = polyline_polyline_closest_point(x, y, i, j, s, t, c1, c2, Exact()); CHECK_EQ(d, polyline_polyline_distance_sqrd(x, y, Exact()), "same-as-distance"); return d; }
static double cpg(const Pts& a, const Pts& b, std::size_t& i, std::size_t& j, double& s, double& t, P2& c1, P2& c2) { auto x = mk<polygon<P2>>(a), y = mk<polygon<P2>>(b); double d = polygon_polygon_closest_point(x, y, i, j, s, t, c1, c2, Exact()); CHECK_EQ(d, polygon_polygon_distance_sqrd(x, y, Exact()), "same-as-distance"); return d; }
// 12 sides each; every side in turn is the one that faces the other figure
static Pts twelve(int r) { static const double Q[12][2] = {{3, -10}, {7, -7}, {10, -3}, {10, 3}, {7, 7}, {3, 10}, {-3, 10}, {-7, 7}, {-10, 3}, {-10, -3}, {-7, -7}, {-3, -10}}; Pts v; for (int i = 0; i < 12; ++i) v.push_back(P2(Q[(i + r) % 12][0], Q[(i + r) % 12][1])); return v; }
template <class F> static void facing(bool closed, int r, F f) {
    int k = sx_choose("facing", 0, 11); double x = in("dx", r < 0 ? -0.125 : -1, r < 0 ? 0.125 : 1); if (r < 0) r = k % 2; Pts a = twelve(0), b = twelve(4 + 3 * r); for (std::size_t m = 0; m < 12; ++m) b[m] = P2(b[m][0] - 0.125 * b[m][1], b[m][1] + 0.25 * b[m][0]); const P2 &p = a[k], &q = a[(k + 1) % 12]; b = moved(b, 1.75 * (p[0] + q[0]) + x, 1.75 * (p[1] + q[1]) + 0.25);
    std::size_t i = 99, j = 99; double s = 7, t = 7; P2 c1(77, 77), c2(78, 78); double d = f(a, b, i, j, s, t, c1, c2); CHECK_EQ(d, brute(a, b, closed), "brute"); CHECK(i < 12 && j < 12, "index"); if (i >= 12 || j >= 12) return; CHECK_EQ(d2(c1, c2), d, "points"); check_same(c1, along(a[i], a[(i + 1) % 12], s), "first"); check_same(c2, along(b[j], b[(j + 1) % 12], t), "second"); CHECK_GE(s, 0.0, "parameters"); CHECK_LE(s, 1.0, "parameters"); CHECK_GE(t, 0.0, "parameters"); CHECK_LE(t, 1.0, "parameters"); }
SX_REAL(polyline_pair_closest, "as polyline_pair") { both(false, 0, sx_choose("ka", 0, 2), sx_choose("kb", 0, 2), cpl); }
SX_REAL(polygon_pair_closest, "as polygon_pair") { both(true, 0, sx_choose("ka", 0, 2), sx_choose("kb", 0, 2), cpg); }
SX_REAL(polyline_pair_closest_facing, "chains of 12 points at 12 places, the horizontal offset in a window") { facing(false, -1, cpl); }
SX_REAL(polygon_pair_closest_facing, "the same as polygons") { facing(true, -1, cpg); }
SX_REAL(T_polyline_pair_closest_facing, "the same with 4 starting points") { facing(false, sx_choose("start", 0, 3), cpl); }
SX_REAL(T_polygon_pair_closest_facing, "the same with 4 starting points") { facing(true, sx_choose("start", 0, 3), cpg); }
SX_REAL(polyline_pair_closest_long, "as polyline_pair_long") { both(false, 1, 0, 2, cpl); }
SX_REAL(polygon_pair_closest_long, "as polygon_pair_long") { both(true, 1, 0, 2, cpg); }
SX_REAL(T_polyline_pair_closest_long, "as T_polyline_pair_long") { both(false, 1, sx_choose("ka", 0, 2), sx_choose("kb", 0, 2), cpl); }
SX_REAL(T_polygon_pair_closest_long, "as T_polygon_pair_long") { both(true, 1, sx_choose("ka", 0, 2), sx_choose("kb", 0, 2), cpg); }
SX_REAL(obb, "two rotated boxes, segments from one of 3 fixed ends to anywhere on 4 horizontal lines: the distance to the outline") {
    int k = sx_choose("k", 0, 1); V2 u = k ? V2(0.6, 0.8) : V2(1, 0), v(-u[1], u[0]); oriented_bounding_box<P2, V2> b(P2(1, 1), u, v, 3, 2); P2 p = onrow("p"), q = end();
    Pts c; for (int i = 0; i < 4; ++i) { double su = i == 0 || i == 3 ? -1 : 1, sv = i < 2 ? -1 : 1; c.push_back(P2(1 + 3 * su * u[0] + 2 * sv * v[0], 1 + 3 * su * u[1] + 2 * sv * v[1])); }
    double d = segment_obb_distance_sqrd(S2(p, q), b, Exact()); minimal(d, {p, q}, false, c, true, "minimal"); double rt = segment_obb_distance(S2(p, q), b, Exact()); CHECK_GE(rt, 0.0, "root"); CHECK_EQ(rt * rt, d, "root");
    bool eq = false; for (int i = 0; i < 4; ++i) if (d == segment_segment_distance_sqrd(p, q, c[i], c[(i + 1) % 4], Exact())) eq = true; CHECK(eq, "attained"); }
SX_REAL(aabb_pair, "all pairs of boxes") {
    double l[4], h[4]; for (int i = 0; i < 4; ++i) { l[i] = in(nm("l", i)); h[i] = in(nm("h", i)); ASSUME_LE(l[i], h[i]); }
    typedef axis_aligned_bounding_box<P2> B; B a(P2(l[0], l[1]), P2(h[0], h[1])), b(P2(l[2], l[3]), P2(h[2], h[3]));
    double gx = h[0] < l[2] ? l[2] - h[0] : h[2] < l[0] ? l[0] - h[2] : 0.0, gy = h[1] < l[3] ? l[3] - h[1] : h[3] < l[1] ? l[1] - h[3] : 0.0;
    double d = aabb_aabb_distance_sqrd(a, b); CHECK_EQ(d, gx * gx + gy * gy, "gap"); double r = aabb_aabb_distance(a, b); CHECK_EQ(r * r, d, "root"); CHECK_GE(r, 0.0, "root"); }
SX_REAL(segment_forms, "the forms that take a segment, and the ones that look at part of the chain: 3 shapes, segments from a fixed end to anywhere on 4 horizontal lines") {
    int kind = sx_choose("k", 0, 2), m = sx_choose("form", 0, 4); Pts g = shape(kind); P2 p = onrow("p"), q(2, -3); auto h = mk<polygon<P2>>(g); auto l = mk<polyline<P2>>(g); std::size_t k = 99; double s = 7, t = 7; P2 c1, c2; S2 e(p, q);
    if (m == 0) { double a = segment_polygon_distance(e, h, Exact()); CHECK_EQ(a * a, segment_polygon_distance_sqrd(p, q, h, Exact()), "polygon"); CHECK_GE(a, 0.0, "polygon"); double b = segment_polyline_distance(p, q, l, Exact()); CHECK_EQ(b * b, segment_polyline_distance_sqrd(p, q, l, Exact()), "polyline"); CHECK_GE(b, 0.0, "polyline"); }
    else if (m == 1) { double d = segment_polygon_closest_point(e, h, k, s, t, c1, c2, Exact()); outputs(d, {p, q}, false, g, true, 0, k, s, t, c1, c2); edge_min(p, q, g, true, d); }
    else if (m == 2) { double d = segment_polyline_closest_point(e, l, k, s, t, c1, c2, Exact()); outputs(d, {p, q}, false, g, false, 0, k, s, t, c1, c2); edge_min(p, q, g, false, d); }
    else { std::size_t i0 = sx_choose("i0", 0, 1), i1 = i0 + 1; auto sub = std::make_tuple(i0, i1); Pts part(g.begin() + i0, g.begin() + i1 + 1); double d = m == 3 ? segment_polygon_closest_point(e, sub, h, k, s, t, c1, c2, Exact()) : segment_polyline_closest_point(e, sub, l, k, s, t, c1, c2, Exact()); CHECK(k >= i0 && k < i1, "part"); outputs(d, {p, q}, false, g, false, 0, k, s, t, c1, c2); edge_min(p, q, part, false, d); } }
