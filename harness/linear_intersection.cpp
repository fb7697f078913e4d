#include "g.h"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/split_segment.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_line_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_plane_intersection.hpp>
using namespace g;
static double par(const P2& A, const P2& B, const P2& C, const P2& D) { return cr(B[0] - A[0], B[1] - A[1], D[0] - C[0], D[1] - C[1]); }
static int sg(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
// closed segments share a point (non-degenerate segments)
static bool within(const P2& A, const P2& B, const P2& C) { double d = dt(A, B, C); return d >= 0 && d <= d2(A, B); }
static bool share(const P2& A, const P2& B, const P2& C, const P2& D) {
    int a = sg(cr(C, D, A)), b = sg(cr(C, D, B)), c = sg(cr(A, B, C)), d = sg(cr(A, B, D));
    if (a == 0 && b == 0) return within(A, B, C) || within(A, B, D) || within(C, D, A) || within(C, D, B);
    return a * b <= 0 && c * d <= 0;
}
// --- lines
static void lines(P2 A, P2 B, P2 C, P2 D) {
    P2 x(77, 77); double s = 7, t = 7; intersection_type r = line_line_intersect(A, B, C, D, x, s, t, Exact());
    if (par(A, B, C, D) != 0) { CHECK(r == e_crossing, "crossing"); CHECK_EQ(cr(A, B, x), 0.0, "on-first"); CHECK_EQ(cr(C, D, x), 0.0, "on-second"); check_same(x, along(A, B, s), "s"); check_same(x, along(C, D, t), "t"); }
    else CHECK(r == (cr(A, B, C) == 0 ? e_overlapping : e_non_crossing), "parallel");
    P2 y(77, 77); intersection_type r2 = line_line_intersect(A, B, C, D, y, Exact()); CHECK(r2 == r, "overloads"); check_same(x, y, "overloads");
}
SX_REAL(line_line, "all pairs of lines through two distinct points each") { P2 A = pt("a"), B = pt("b"), C = pt("c"), D = pt("d"); distinct(A, B); distinct(C, D); lines(A, B, C, D); }
SX_REAL(line_segment, "all lines and segments") {
    P2 A = pt("a"), B = pt("b"), C = pt("c"), D = pt("d"); distinct(A, B); distinct(C, D); P2 x(77, 77); intersection_type r = line_segment_intersect(A, B, C, D, x, Exact());
    double c = cr(A, B, C), d = cr(A, B, D);
    if (c == 0 && d == 0) CHECK(r == e_overlapping, "overlap");
    else if (c == 0 || d == 0) { CHECK(r == e_endpoint, "endpoint"); check_same(x, c == 0 ? C : D, "endpoint-at"); }
    else if (sg(c) == sg(d)) CHECK(r == e_non_crossing, "apart");
    else { CHECK(r == e_crossing, "crossing"); CHECK_EQ(cr(A, B, x), 0.0, "on-line"); check_on_segment(x, C, D, "on-segment"); }
    P2 y(77, 77); CHECK(line_segment_intersect(A, B, S2(C, D), y, Exact()) == r, "overloads"); check_same(x, y, "overloads");
}
// --- segments
static void segs(P2 A, P2 B, P2 C, P2 D) {
    P2 x[2] = {P2(77, 77), P2(77, 77)}; intersection_type r = segment_segment_intersection(A, B, C, D, x, Exact());
    bool sh = share(A, B, C, D); CHECK((r != e_non_crossing) == sh, "reports-iff-shared"); CHECK(r != e_invalid_intersection, "valid");
    if (r == e_non_crossing) return;
    check_on_segment(x[0], A, B, "x-on-first"); check_on_segment(x[0], C, D, "x-on-second");
    if (par(A, B, C, D) == 0) {
        if (r == e_overlapping) {
            check_on_segment(x[1], A, B, "y-on-first"); check_on_segment(x[1], C, D, "y-on-second"); CHECK_GT(d2(x[0], x[1]), 0.0, "contact-is-not-overlap");
            // nothing shared lies outside [x0,x1]: an end that is shared is between them
            P2 e[4] = {A, B, C, D}; for (int i = 0; i < 4; ++i) { bool both = within(A, B, e[i]) && within(C, D, e[i]); if (both) { double k = (e[i][0] - x[0][0]) * (e[i][0] - x[1][0]) + (e[i][1] - x[0][1]) * (e[i][1] - x[1][1]); CHECK_LE(k, 0.0, "whole-overlap"); } }
        } else CHECK(r == e_endpoint, "parallel-kind");
    } else {
        bool inner = cr(C, D, A) != 0 && cr(C, D, B) != 0 && cr(A, B, C) != 0 && cr(A, B, D) != 0;
        CHECK(r == (inner ? e_crossing : e_endpoint), "kind");
    }
}
SX_REAL(segment_segment_axis, "first segment (0,0)-(L,0), second arbitrary") { double L = in("L"); ASSUME_GT(L, 0.0); P2 C = pt("c"), D = pt("d"); distinct(C, D); segs(P2(0, 0), P2(L, 0), C, D); }
SX_REAL(segment_segment_axis2, "second segment (1,1)-(1,1+L), first arbitrary") { double L = in("L"); ASSUME_GT(L, 0.0); P2 C = pt("c"), D = pt("d"); distinct(C, D); segs(C, D, P2(1, 1), P2(1, 1 + L)); }
SX_REAL(segment_segment_oblique, "first segment one of 3 oblique integer segments, second arbitrary") { static const double S[3][4] = {{0, 0, 3, 1}, {2, 5, -1, 2}, {-1, 4, 0, -3}}; int k = sx_choose("k", 0, 2); P2 C = pt("c"), D = pt("d"); distinct(C, D); segs(P2(S[k][0], S[k][1]), P2(S[k][2], S[k][3]), C, D); }
SX_REAL(segment_segment_collinear, "collinear segments on every line through a point with rational slope 2, vertical or horizontal") {
    static const double U[3][2] = {{1, 2}, {0, 1}, {1, 0}}; int k = sx_choose("k", 0, 2); double a = in("a"), b = in("b"), c = in("c"), d = in("d"); ASSUME_NE(a, b); ASSUME_NE(c, d);
    auto P = [&](double t) { return P2(1 + t * U[k][0], -2 + t * U[k][1]); }; segs(P(a), P(b), P(c), P(d)); }
SX_REAL(segment_segment_overload, "segment objects and a null result pointer give the same classification") {
    P2 A(0, 0), B(3, 1), C = pt("c"), D = pt("d"); distinct(C, D); P2 x[2], y[2]; auto r = segment_segment_intersection(A, B, C, D, x, Exact());
    CHECK(segment_segment_intersection(S2(A, B), S2(C, D), y, Exact()) == r, "segments"); CHECK(segment_segment_intersection(A, B, C, D, (P2*)0, Exact()) == r, "null"); if (r != e_non_crossing) check_same(x[0], y[0], "point"); }
SX_REAL(T_segment_segment, "all pairs of segments") { P2 A = pt("a"), B = pt("b"), C = pt("c"), D = pt("d"); distinct(A, B); distinct(C, D); segs(A, B, C, D); }
// --- segments in space: on a common plane spanned by two fixed vectors
static void segs3(double ax, double ay, double bx, double by, double cx, double cy, double dx, double dy, int k, double lift) {
    static const double F[2][2][3] = {{{1, 0, 0}, {0, 1, 0}}, {{1, 2, -1}, {0, 1, 1}}};
    auto P = [&](double u, double v, double w) { return P3(u * F[k][0][0] + v * F[k][1][0] + (k ? 3 * w : 0), u * F[k][0][1] + v * F[k][1][1] - (k ? w : 0), u * F[k][0][2] + v * F[k][1][2] + w); };
    P2 A(ax, ay), B(bx, by), C(cx, cy), D(dx, dy); P3 x[2] = {P3(7, 7, 7), P3(7, 7, 7)};
    intersection_type r = segment_segment_intersection(P(ax, ay, 0), P(bx, by, 0), P(cx, cy, lift), P(dx, dy, lift), x, Exact());
    bool sh = lift == 0 && share(A, B, C, D); CHECK((r != e_non_crossing) == sh, "reports-iff-shared");
    if (!sh) return;
    bool parl = par(A, B, C, D) == 0;
    if (!parl) { bool inner = cr(C, D, A) != 0 && cr(C, D, B) != 0 && cr(A, B, C) != 0 && cr(A, B, D) != 0; CHECK(r == (inner ? e_crossing : e_endpoint), "kind"); }
    else CHECK(r == e_overlapping || r == e_endpoint, "parallel-kind");
    // the reported points are on both segments
    for (int i = 0; i < (r == e_overlapping ? 2 : 1); ++i) {
        P3 p = P(ax, ay, 0), q = P(bx, by, 0), c = P(cx, cy, 0), d = P(dx, dy, 0); double u = 0, v = 0; for (int j = 0; j < 3; ++j) { u += (x[i][j] - p[j]) * (q[j] - p[j]); v += (x[i][j] - c[j]) * (d[j] - c[j]); }
        u = u / d2(p, q); v = v / d2(c, d); check_same(x[i], along(p, q, u), "on-first"); check_same(x[i], along(c, d, v), "on-second"); CHECK_GE(u, 0.0, "in-first"); CHECK_LE(u, 1.0, "in-first"); CHECK_GE(v, 0.0, "in-second"); CHECK_LE(v, 1.0, "in-second"); }
}
SX_REAL(segment_segment_space, "two planes, first segment fixed, second arbitrary in the plane") { double cx = in("cx"), cy = in("cy"), dx = in("dx"), dy = in("dy"); int k = sx_choose("k", 0, 1); distinct(P2(cx, cy), P2(dx, dy)); segs3(0, 0, 3, 1, cx, cy, dx, dy, k, 0); }
SX_REAL(segment_segment_space_apart, "planes at a distance: never an intersection") { double cx = in("cx"), cy = in("cy"), h = in("h"); ASSUME_NE(h, 0.0); int k = sx_choose("k", 0, 1); segs3(0, 0, 3, 1, cx, cy, cx + 1, cy - 2, k, h); }
// --- rays
static void ray(P2 O, V2 v, P2 A, P2 B) {
    double t = -7; P2 x[2] = {P2(77, 77), P2(77, 77)}; intersection_type r = ray_segment_intersection(O, v, A, B, t, x, Exact());
    intersection_type r2 = ray_segment_intersection(O, v, A, B, Exact()); CHECK(r == r2, "classification-overload");
    double t3 = -7; P2 y[2]; CHECK(ray_segment_intersection(O, v, S2(A, B), t3, y, Exact()) == r, "segment-overload"); CHECK(ray_segment_intersection(O, v, S2(A, B), Exact()) == r2, "segment-overload2");
    double a = cr(v[0], v[1], A[0] - O[0], A[1] - O[1]), b = cr(v[0], v[1], B[0] - O[0], B[1] - O[1]); // sides of A and B
    double pa = v[0] * (A[0] - O[0]) + v[1] * (A[1] - O[1]), pb = v[0] * (B[0] - O[0]) + v[1] * (B[1] - O[1]);
    if (a == 0 && b == 0) { bool hit = pa >= 0 || pb >= 0; CHECK(r == (hit ? e_overlapping : e_non_crossing), "collinear");
        if (hit) { double near_ = pa < 0 || pb < 0 ? 0.0 : (pa < pb ? pa : pb), far_ = pa < pb ? pb : pa; CHECK_EQ(t, near_, "nearest"); check_same(x[0], P2(O[0] + near_ * v[0], O[1] + near_ * v[1]), "near-point"); check_same(x[1], P2(O[0] + far_ * v[0], O[1] + far_ * v[1]), "far-point"); }
    } else if (sg(a) * sg(b) > 0) CHECK(r == e_non_crossing, "one-side");
    else { // the line of the ray meets the segment at A + a/(a-b)(B-A)
        double w = pa + a / (a - b) * (pb - pa); CHECK((r != e_non_crossing) == (w >= 0), "forward-only");
        if (r != e_non_crossing) { CHECK(r == (a == 0 || b == 0 ? e_endpoint : e_crossing), "kind"); CHECK_EQ(t, w, "parameter"); check_same(x[0], P2(O[0] + w * v[0], O[1] + w * v[1]), "point"); check_on_segment(x[0], A, B, "on-segment"); } }
}
SX_REAL(ray_segment_dirs, "4 axis directions, any origin and segment") { static const double U[4][2] = {{1, 0}, {0, -1}, {-1, 0}, {0, 1}}; int k = sx_choose("k", 0, 3); P2 O = pt("o"), A = pt("a"), B = pt("b"); distinct(A, B); ray(O, V2(U[k][0], U[k][1]), A, B); }
SX_REAL(ray_segment_any, "any unit direction from the origin, 3 segments") { static const double S[3][4] = {{1, 0, 3, 1}, {2, 5, -1, 2}, {-1, 4, 0, -3}}; int k = sx_choose("k", 0, 2); ray(P2(0, 0), unit("v"), P2(S[k][0], S[k][1]), P2(S[k][2], S[k][3])); }
SX_REAL(ray_line, "any unit direction, any origin, lines in 3 directions through any point") {
    V2 v = unit("v"); P2 O = pt("o"), A = pt("a"); static const double W[3][2] = {{3, 4}, {0, 2}, {-3, 0}}; int m = sx_choose("m", 0, 2); P2 B(A[0] + W[m][0], A[1] + W[m][1]); line<P2> l(A, B);
    double t = -7; P2 x(77, 77); auto r = ray_line_intersection(O, v, l, t, x, Exact()); double d = cr(A, B, O), e = cr(W[m][0], W[m][1], v[0], v[1]); // offset of the origin, rate along v
    if (e == 0) { CHECK(r.is_intersecting() == (d == 0), "parallel"); CHECK(r.is_overlapping() == (d == 0), "parallel-overlap"); }
    else { double w = -d / e; CHECK(r.is_intersecting() == (w >= 0), "forward-only"); CHECK(!r.is_overlapping(), "not-overlapping"); if (r.is_intersecting()) { CHECK_EQ(t, w, "parameter"); check_same(x, P2(O[0] + w * v[0], O[1] + w * v[1]), "point"); } } }
SX_REAL(segment_plane, "all segments against hyperplanes of the plane in 4 directions through any point, not parallel") {
    static const double W[4][2] = {{3, 4}, {0, 2}, {-5, 0}, {-4, 3}}; int k = sx_choose("k", 0, 3); P2 o = pt("o"), a = pt("a"), b = pt("b"); P2 e(o[0] + W[k][0], o[1] + W[k][1]); line<P2> pl(o, e);
    double da = cr(o, e, a), db = cr(o, e, b); ASSUME_NE(da, db);
    double t = -7; P2 q(7, 7); bool r = segment_plane_intersection(a, b, pl, t, q); CHECK(r == (sg(da) * sg(db) <= 0), "iff-sides-differ"); CHECK_EQ(t * (da - db), da, "parameter"); if (r) check_same(q, along(a, b, t), "point"); }
SX_REAL(oriented, "first segment fixed oblique, second any: proper crossings with the side, nothing shared, collinear overlap") {
    P2 A(0, 0), B(3, 1), C = pt("c"), D = pt("d"); distinct(C, D); intersection_type r = oriented_intersection(C, D, A, B, Exact());
    int a = sg(cr(A, B, C)), b = sg(cr(A, B, D)), c = sg(cr(C, D, A)), d = sg(cr(C, D, B));
    if (a * b < 0 && c * d < 0) CHECK(r == (a > 0 ? e_intersect_left_right : e_intersect_right_left), "side");
    else if (!share(A, B, C, D)) CHECK(r == e_non_crossing, "none");
    else if (a == 0 && b == 0) { double t0 = dt(A, B, C), t1 = dt(A, B, D), L = d2(A, B); bool pos = (t0 > 0 || t1 > 0) && (t0 < L || t1 < L); CHECK(r == (pos ? e_overlapping : e_endpoint), "collinear"); } }
SX_REAL(split, "segments of length up to 4 times the limit: pieces are consecutive, span the segment and respect the limit") {
    double L = in("L", 0.0625, 4); P2 a = pt("a"); P2 b(a[0] + 0.6 * L, a[1] + 0.8 * L); ASSUME_GT(L, 0.0); auto v = split_segment(S2(a, b), 1.0);
    CHECK(v.size() >= 1, "some"); check_same(v.front().get_start(), a, "first"); check_same(v.back().get_end(), b, "last"); for (std::size_t i = 0; i < v.size(); ++i) { CHECK_LE(d2(v[i].get_start(), v[i].get_end()), 1.0 + 1e-9, "limit"); CHECK_EQ(cr(a, b, v[i].get_end()), 0.0, "on"); if (i) check_same(v[i - 1].get_end(), v[i].get_start(), "consecutive"); } }
SX_REAL(midpoint, "all segments in 2 and 3 dimensions") { P2 a = pt("a"), b = pt("b"); P2 m = segment_mid_point(a, b), k = segment_mid_point(S2(a, b)); check_same(m, along(a, b, 0.5), "mid"); check_same(k, m, "overload"); P3 c = pt3("c"), d = pt3("d"); P3 e = segment_mid_point(c, d); check_same(e, along(c, d, 0.5), "mid3"); }
// --- up to a tolerance
SX_REAL(line_segment_near, "a horizontal line and segments of length 1 to 1000 with one end near it, a tolerance of 0.001: always a meaningful kind, and a point near both") { static const double L[4] = {1, 20, 300, 1000}; int k = sx_choose("length", 0, 3), w = sx_choose("order", 0, 3); double h = in("h", -2, 2); P2 A(-3, 1), B(L[k], 1), C(2, 1 + h), D(2 + L[k] / 4, 1 + (k + 1) * L[k]); if (w & 1) std::swap(C, D); if (w & 2) std::swap(A, B); P2 x(77, 77); auto r = line_segment_intersect(A, B, C, D, x, Tol(1e-3)); CHECK(r == e_crossing || r == e_endpoint || r == e_non_crossing, "kind"); if (h < 0) CHECK(r != e_non_crossing, "met"); if (h > 0.01 * L[k] + 0.01) CHECK(r == e_non_crossing, "missed"); if (h < -0.01 * L[k] - 0.01) CHECK(r == e_crossing, "crossed"); if (r == e_non_crossing) return; CHECK_LE(std::fabs(x[1] - 1), 1e-6, "on-line"); }
SX_REAL(segment_segment_space_near, "segments of one line in space, three directions, the second moved along it and by up to 0.00001 off it, a tolerance of 0.001: overlapping exactly when they share more than an end, then in a piece of both") { static const double D[3][3] = {{1, 2, 3}, {4, 0, -3}, {0, 0, 5}}; int k = sx_choose("dir", 0, 2), a = sx_choose("axis", 0, 2), rev = sx_choose("reversed", 0, 1); static const double G[4] = {0, 1e-5, -1e-5, 3e-6}; double s = in("s", -4, 4), l = sx_choose("length", 0, 1) ? 0.5 : 2, e = G[sx_choose("off", 0, 3)]; auto at = [&](double t) { return P3(1 + t * D[k][0], -2 + t * D[k][1], 0.5 + t * D[k][2]); }; P3 p = at(0), q = at(1), c = at(s), d = at(s + l); c[a] += e; d[(a + 1) % 3] -= e; if (rev) std::swap(c, d); P3 x[2]; x[0] = x[1] = P3(77, 77, 77); auto r = segment_segment_intersection(p, q, c, d, x, Tol(1e-3)); double lo = s > 0 ? s : 0, hi = s + l < 1 ? s + l : 1, m = 0.01;
    if (hi - lo > m) { CHECK(r == e_overlapping, "overlap"); for (int i = 0; i < 3; ++i) { double u = 1 * (i == 0 ? 1 : i == 1 ? -2 : 0.5), A = u + lo * D[k][i], B = u + hi * D[k][i]; CHECK_LE(std::fabs(x[0][i] - A), 0.01, "from"); CHECK_LE(std::fabs(x[1][i] - B), 0.01, "to"); } } else if (hi - lo < -m) CHECK(r == e_non_crossing, "apart"); else CHECK(r == e_overlapping || r == e_endpoint || r == e_non_crossing, "kind"); }
