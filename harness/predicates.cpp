#include "g.h"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/algebra/exterior_product.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/classify_simplex_to_plane.hpp>
#include <geometrix/algorithm/is_segment_in_range.hpp>
#include <geometrix/algorithm/point_in_circumcircle.hpp>
using namespace g;
typedef line<P2> L2;
static bool eq(const P2& a, const P2& b) { return a[0] == b[0] && a[1] == b[1]; }
static int sg(double d) { return d > 0 ? 1 : d < 0 ? -1 : 0; }
static bool on_seg(const P2& p, const P2& a, const P2& b) { return cr(a, b, p) == 0 && dt(a, b, p) >= 0 && dt(a, b, p) <= d2(a, b); }
SX_REAL(turn, "any three points: left, right or straight as the determinant says; the vector form agrees; swapping mirrors, cycling keeps") { P2 a = pt("a"), b = pt("b"), c = pt("c"); double d = cr(a, b, c); auto o = get_orientation(a, b, c, Exact()); CHECK(o == (d > 0 ? oriented_left : d < 0 ? oriented_right : oriented_collinear), "sign"); V2 u = b - a, v = c - a; CHECK(get_orientation(u, v, Exact()) == o, "vectors"); CHECK(get_orientation(b, c, a, Exact()) == o, "cycle"); CHECK((int)get_orientation(b, a, c, Exact()) == -(int)o, "swap"); }
SX_REAL(turn_tolerance, "any three points with a tolerance: left or right only beyond it, straight only within it") { P2 a = pt("a", -100, 100), b = pt("b", -100, 100), c = pt("c", -100, 100); double d = cr(a, b, c); auto o = get_orientation(a, b, c, Tol(0.5)); if (d > 0.5) CHECK(o == oriented_left, "left"); else if (d < -0.5) CHECK(o == oriented_right, "right"); else if (d < 0.5 && d > -0.5) CHECK(o == oriented_collinear, "straight"); }
SX_REAL(collinear, "any three points") { P2 a = pt("a"), b = pt("b"), c = pt("c"); CHECK(is_collinear(a, b, c, Exact()) == (cr(a, b, c) == 0), "iff"); }
SX_REAL(between, "any three points: on the segment, with or without its ends") { P2 a = pt("a"), b = pt("b"), c = pt("c"); distinct(a, b); bool inc = sx_choose("ends", 0, 1); bool r = is_between(a, b, c, inc, Exact()); bool e = on_seg(c, a, b); if (!inc) e = e && !eq(c, a) && !eq(c, b); CHECK(r == e, "iff"); CHECK(is_between(b, a, c, inc, Exact()) == r, "symmetric"); }
SX_REAL(between_collinear, "three points of any line: the collinear form agrees") { P2 a = pt("a"), b = pt("b"); double t = in("t"); P2 c = along(a, b, t); distinct(a, b); CHECK(is_collinear_point_between(a, b, c, true, Exact()) == (t >= 0 && t <= 1), "closed"); CHECK(is_collinear_point_between(a, b, c, false, Exact()) == (t > 0 && t < 1), "open"); }
// direction of v on the way counterclockwise from a: 0 same, 1 left, 2 opposite, 3 right
static int sector(const V2& a, const V2& v) { double c = cr(a[0], a[1], v[0], v[1]), d = a[0] * v[0] + a[1] * v[1]; return c > 0 ? 1 : c < 0 ? 3 : d > 0 ? 0 : 2; }
static bool before(const V2& a, const V2& v, const V2& w) { int s = sector(a, v), t = sector(a, w); return s != t ? s < t : cr(v[0], v[1], w[0], w[1]) > 0; }
SX_REAL(vector_between, "any three vectors: the third lies on the way counterclockwise from the first to the second, ends as asked") { V2 a = vec("a"), b = vec("b"), c = vec("c"); ASSUME_GT(a[0] * a[0] + a[1] * a[1], 0.0); ASSUME_GT(b[0] * b[0] + b[1] * b[1], 0.0); ASSUME_GT(c[0] * c[0] + c[1] * c[1], 0.0); bool inc = sx_choose("ends", 0, 1); bool r = is_vector_between(a, b, c, inc, Exact()); bool ea = sector(a, c) == 0, eb = sector(b, c) == 0; bool e = ea || eb ? inc : sector(a, b) != 0 && before(a, c, b); CHECK(r == e, "iff"); }
SX_REAL(axis_parallel, "any two points") { P2 a = pt("a"), b = pt("b"); CHECK(is_vertical(a, b, Exact()) == (a[0] == b[0]) && is_vertical(S2(a, b), Exact()) == (a[0] == b[0]), "vertical"); CHECK(is_horizontal(a, b, Exact()) == (a[1] == b[1]) && is_horizontal(S2(a, b), Exact()) == (a[1] == b[1]), "horizontal"); }
SX_REAL(line_through, "any two points not above one another: slope, and the line's ordinate and abscissa lie on it") { P2 a = pt("a"), b = pt("b"); double x = in("x"); ASSUME_NE(a[0], b[0]); double dx = b[0] - a[0], dy = b[1] - a[1], m = get_slope(a, b); CHECK_EQ(m * dx, dy, "slope"); CHECK_EQ(get_slope(S2(a, b)), m, "slope-segment"); double s = 0, y = y_of_x(a, b, x, s); CHECK_EQ(s, m, "slope-out"); CHECK_EQ((y - a[1]) * dx, (x - a[0]) * dy, "ordinate"); CHECK_EQ(y_of_x(a, b, x), y, "ordinate-short"); if (dy != 0) { double q = 0, z = x_of_y(a, b, x, q); CHECK_EQ(q, m, "slope-out-2"); CHECK_EQ((x - a[1]) * dx, (z - a[0]) * dy, "abscissa"); CHECK_EQ(x_of_y(a, b, x), z, "abscissa-short"); } }
SX_REAL(angle, "any two points and a vector: the angle's cosine and sine point along it") { P2 a = pt("a"), b = pt("b"); distinct(a, b); double L = std::sqrt(d2(a, b)), t = angle_from_a_to_b(a, b); double ex = L * std::cos(t) - (b[0] - a[0]), ey = L * std::sin(t) - (b[1] - a[1]), z = 1e-9 * L; CHECK_LE(ex, z, "cos"); CHECK_GE(ex, -z, "cos"); CHECK_LE(ey, z, "sin"); CHECK_GE(ey, -z, "sin"); V2 v(b[0] - a[0], b[1] - a[1]); CHECK_EQ(vector_angle(v), t, "vector"); }
// planes
SX_REAL(point_to_line, "a line through any point in any direction and any point: in front on its left, behind on its right") { P2 a = pt("a"), p = pt("p"); V2 u = unit("u"); L2 l(a, u); double d = cr(u[0], u[1], p[0] - a[0], p[1] - a[1]); auto r = classify_point_to_plane(p, l, Exact()); CHECK(r == (d > 0 ? plane_orientation::in_front_of_plane : d < 0 ? plane_orientation::in_back_of_plane : plane_orientation::coplanar_with_plane), "side"); }
SX_REAL(simplex_to_line, "a line in any direction and any segment: straddling exactly when its ends lie on both sides") { P2 a = pt("a"), p = pt("p"), q = pt("q"); V2 u = unit("u"); L2 l(a, u); int s = sg(cr(u[0], u[1], p[0] - a[0], p[1] - a[1])), t = sg(cr(u[0], u[1], q[0] - a[0], q[1] - a[1])); auto r = classify_simplex_to_plane(S2(p, q), l, Exact()); auto e = s * t < 0 ? plane_orientation::straddling_plane : s + t > 0 ? plane_orientation::in_front_of_plane : s + t < 0 ? plane_orientation::in_back_of_plane : plane_orientation::coplanar_with_plane; CHECK(r == e, "class"); }
// circles
SX_REAL(circumcircle, "a counterclockwise triangle with one side on a fixed axis and any point: inside exactly when nearer the centre than the corners") { P2 a(0, 0), b(2, 0), c = pt("c"), p = pt("p"); double w = 2; ASSUME_GT(c[1], 0.0); double x = w / 2, y = (c[0] * c[0] + c[1] * c[1] - w * c[0]) / (2 * c[1]); double k = sq(p[0] - x) + sq(p[1] - y) - sq(x) - sq(y); int rot = sx_choose("rot", 0, 2); P2 t[3] = {a, b, c}; auto r = point_in_circumcircle(t[rot], t[(rot + 1) % 3], t[(rot + 2) % 3], p, Exact()); if (k < 0) CHECK(r == point_circle_orientation::inside, "inside"); else if (k > 0) CHECK(r == point_circle_orientation::outside, "outside"); else CHECK(r == point_circle_orientation::cocircular, "on"); }
SX_REAL(circumcircle_moved, "any counterclockwise triangle and any point: the answer does not change when everything is moved") { P2 a = pt("a"), b = pt("b"), c = pt("c"), p = pt("p"); ASSUME_GT(cr(a, b, c), 0.0); double m = (sq(a[0] - p[0]) + sq(a[1] - p[1])) * cr(p, b, c) + (sq(b[0] - p[0]) + sq(b[1] - p[1])) * cr(p, c, a) + (sq(c[0] - p[0]) + sq(c[1] - p[1])) * cr(p, a, b); CHECK((int)point_in_circumcircle(a, b, c, p, Exact()) == sg(m), "determinant"); }
// segments
SX_REAL(crossing_side, "any two segments where neither end of the first is inside the second: crossing kind exactly when they meet") { P2 a = pt("a"), b = pt("b"), c = pt("c"), d = pt("d"); distinct(a, b); distinct(c, d); int o1 = sg(cr(c, d, a)), o2 = sg(cr(c, d, b)), o3 = sg(cr(a, b, c)), o4 = sg(cr(a, b, d)); auto r = oriented_intersection(a, b, c, d, Exact()); if (o1 * o2 != 0) { bool meet = o1 * o2 < 0 && o3 * o4 <= 0; CHECK(r == (!meet ? e_non_crossing : o1 > 0 ? e_intersect_left_right : e_intersect_right_left), "crossing"); } else { bool sh = eq(a, c) || eq(a, d) || eq(b, c) || eq(b, d); if (o1 != 0 || o2 != 0) { bool t = (o1 == 0 && on_seg(a, c, d) || o2 == 0 && on_seg(b, c, d)) && !sh; if (!t) CHECK(r == (sh ? e_endpoint : e_non_crossing), "endpoint"); } } }
SX_REAL(crossing_collinear, "two segments of the same line: overlapping, end to end, or apart") { P2 a = pt("a"); V2 u = vec("u"); ASSUME_GT(u[0] * u[0] + u[1] * u[1], 0.0); double t[4] = {0, in("t1"), in("t2"), in("t3")}; ASSUME_NE(t[0], t[1]); ASSUME_NE(t[2], t[3]); P2 p[4]; for (int i = 0; i < 4; ++i) p[i] = P2(a[0] + t[i] * u[0], a[1] + t[i] * u[1]); auto r = oriented_intersection(p[0], p[1], p[2], p[3], Exact()); double l = t[0] < t[1] ? t[0] : t[1], h = t[0] < t[1] ? t[1] : t[0], m = t[2] < t[3] ? t[2] : t[3], n = t[2] < t[3] ? t[3] : t[2]; auto e = l < n && m < h ? e_overlapping : h == m || n == l ? e_endpoint : e_non_crossing; CHECK(r == e, "kind"); }
// cone
static bool in_cone(const V2& lo, const V2& hi, double x, double y) { return cr(lo[0], lo[1], x, y) >= 0 && cr(hi[0], hi[1], x, y) <= 0; }
// does the segment meet the closed cone (less than half a turn)?
static bool meets_cone(const V2& lo, const V2& hi, const P2& o, const P2& a, const P2& b, double& t0, double& t1) { double ax = a[0] - o[0], ay = a[1] - o[1], bx = b[0] - o[0], by = b[1] - o[1]; double l0 = cr(lo[0], lo[1], ax, ay), l1 = cr(lo[0], lo[1], bx, by), h0 = -cr(hi[0], hi[1], ax, ay), h1 = -cr(hi[0], hi[1], bx, by);
    // points a + t(b-a) with l >= 0 and h >= 0 for one t of [0,1]
    t0 = 0, t1 = 1; for (int k = 0; k < 2; ++k) { double u = k ? h0 : l0, v = k ? h1 : l1; if (u < 0 && v < 0) return false; if (u < 0) { double t = u / (u - v); if (t > t0) t0 = t; } else if (v < 0) { double t = u / (u - v); if (t < t1) t1 = t; } } return t0 <= t1; }
SX_REAL(cone, "a cone of any opening below half a turn and any segment: met exactly when they share a point") { P2 o = pt("o"), a = pt("a"), b = pt("b"); V2 lo(1, 0), hi = unit("h"); ASSUME_GT(hi[1], 0.0); distinct(a, b); bool r = is_segment_in_range_2d(S2(a, b), lo, hi, o); double t, u; CHECK(r == meets_cone(lo, hi, o, a, b, t, u), "iff"); }
SX_REAL(cone_points, "the same with the part of the segment that lies inside") { P2 o = pt("o"), a = pt("a"), b = pt("b"), x[2]; V2 lo(1, 0), hi = unit("h"); ASSUME_GT(hi[1], 0.0); distinct(a, b); bool r = is_segment_in_range_2d(S2(a, b), lo, hi, o, x, Exact()); double t = 0, u = 0; bool e = meets_cone(lo, hi, o, a, b, t, u); CHECK(r == e, "iff"); if (r && e) { P2 p = along(a, b, t), q = along(a, b, u); int f = sx_choose("end", 0, 1); P2 z = f ? q : p; bool y0 = x[0][0] == z[0] && x[0][1] == z[1], y1 = x[1][0] == z[0] && x[1][1] == z[1]; CHECK(y0 || y1, "clip"); } }
SX_REAL(opposite, "the turn seen from the other side of a segment") { P2 a = pt("a"), b = pt("b"), c = pt("c"); CHECK(get_orientation(b, a, c, Exact()) == opposite_orientation(get_orientation(a, b, c, Exact())), "reversed"); CHECK(opposite_orientation(oriented_left) == oriented_right && opposite_orientation(oriented_right) == oriented_left && opposite_orientation(oriented_collinear) == oriented_collinear, "names"); }
