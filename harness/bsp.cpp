// G21: solid-leaf and node-storing binary space partition trees in the plane.
#include "g.h"
#include <set>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/algebra/exterior_product.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/hyperplane_partition_policies.hpp>
#include <geometrix/algorithm/solid_leaf_bsp_tree.hpp>
using namespace g;
typedef std::vector<std::vector<P2>> Loops; typedef solid_leaf_bsp_tree<S2> Solid;
// solid is on the right of every edge: clockwise loops bound solid blocks, counter-clockwise ones bound rooms
static Loops shape(int k, int ox = 0, int oy = 0) {
    auto L = [&](std::initializer_list<std::pair<int, int>> c) { std::vector<P2> v; for (auto& p : c) v.push_back(P2(p.first + ox, p.second + oy)); return v; };
    switch (k) {
    case 0: return {L({{0, 0}, {0, 2}, {3, 2}, {3, 0}})};                                           // block
    case 1: return {L({{0, 0}, {0, 3}, {4, 0}})};                                                   // triangle
    case 2: return {L({{0, 0}, {4, 0}, {4, 3}, {0, 3}})};                                           // room
    case 3: return {L({{0, 0}, {0, 4}, {2, 4}, {2, 1}, {5, 1}, {5, 0}})};                           // L
    case 4: return {L({{0, 0}, {7, 0}, {7, 6}, {0, 6}}), L({{1, 1}, {1, 5}, {2, 5}, {5, 1}})}; // block in a room (one edge oblique)
    case 5: return {L({{0, 0}, {0, 3}, {1, 3}, {1, 1}, {2, 1}, {2, 3}, {3, 3}, {3, 0}})};           // U
    case 6: return {L({{0, 0}, {0, 1}, {1, 1}, {1, 0}}), L({{2, 0}, {2, 1}, {3, 1}, {3, 0}})};      // two blocks in a row
    case 7: return {L({{0, 0}, {0, 1}, {1, 1}, {1, 0}}), L({{2, 1}, {2, 2}, {3, 2}, {3, 1}})};      // staggered: opposite edges on one line
    case 9: return {L({{0, 0}, {0, 1}, {1, 1}, {1, 0}}), L({{5, 2}, {5, 3}, {6, 3}, {6, 2}})};      // two blocks, no edges on one line
    default: return {L({{0, 0}, {3, 4}, {6, 0}, {3, 1}})}; } }
static std::vector<S2> edges(const Loops& l) { std::vector<S2> s; for (auto& p : l) for (std::size_t i = 0; i < p.size(); ++i) s.push_back(S2(p[i], p[(i + 1) % p.size()])); return s; }
static bool on_edge(const S2& s, const P2& p) { P2 a = s.get_start(), b = s.get_end(); return cr(a, b, p) == 0 && dt(a, b, p) >= 0 && dt(a, b, p) <= d2(a, b); }
// 0 boundary, 1 empty, -1 solid; rooms: solid is the outside
static int where(const Loops& l, const P2& p) { int in_ = 0; double area = 0; bool room = false; for (auto& q : l) { double a = 0; for (std::size_t i = 0; i < q.size(); ++i) { const P2 &u = q[i], &v = q[(i + 1) % q.size()]; if (on_edge(S2(u, v), p)) return 0; a += u[0] * v[1] - u[1] * v[0]; if ((u[1] > p[1]) != (v[1] > p[1])) { double c = cr(u, v, p); if ((v[1] > u[1]) ? c > 0 : c < 0) in_ ^= 1; } } if (a > 0) room = true; } (void)area; return (in_ != 0) != room ? -1 : 1; }
static Solid build(const std::vector<S2>& e, int policy) { if (policy) { auto s = partition_policies::scored_selector_policy<identity_simplex_extractor, Tol>(identity_simplex_extractor(), Tol(1e-9)); return Solid(e, s, Tol(1e-9)); } return Solid(e, partition_policies::autopartition_policy(), Tol(1e-9)); }
static void solid(int k, const P2& p, int rot) { auto l = shape(k); auto e = edges(l); std::rotate(e.begin(), e.begin() + rot % e.size(), e.end()); auto t = build(e, 0); CHECK((int)t.point_in_solid_space(p, Exact()) == where(l, p), "where"); }
SX_REAL(solid_where, "five shapes (block, triangle, room, L, block in a room), edges in each cyclic order up to six, any point") { int k = sx_choose("shape", 0, 4), r = sx_choose("first", 0, 5); solid(k, pt("p"), r); }
SX_REAL(solid_collinear, "three shapes with separate edges on one line (U, two blocks in a row, two staggered), any point") { int k = sx_choose("shape", 5, 7), r = sx_choose("first", 0, 5); solid(k, pt("p"), r); }
SX_REAL(solid_distance, "eight shapes, any point: the least distance to an edge and an edge at it") { int k = sx_choose("shape", 0, 7); if (k > 5) k += 1 + (k == 7); auto l = shape(k); auto e = edges(l); auto t = build(e, 0); P2 p = pt("p"); std::size_t idx = 99; double d = t.get_min_distance_sqrd_to_solid(p, idx, Exact()); CHECK(idx < e.size(), "index"); for (std::size_t i = 0; i < e.size(); ++i) CHECK_LE(d, point_segment_distance_sqrd(p, e[i]), "least"); std::size_t idx2 = 99; CHECK_EQ(t.get_min_distance_to_solid(p, idx2, Exact()), std::sqrt(d), "root"); CHECK(idx2 == idx, "root"); if (idx < e.size()) CHECK_EQ(d, point_segment_distance_sqrd(p, e[idx]), "edge"); }
static V2 dir(int k) { switch (k) { case 0: return V2(1, 0); case 1: return V2(0, -1); case 2: return V2(-0.6, 0.8); case 3: return V2(0.8, 0.6); case 4: return V2(-1, 0); default: return V2(-0.8, -0.6); } }
// p in empty space; the ray hits at t; nothing solid before, the hit lies on the reported edge
static void ray(int k, int d, bool border) { auto l = shape(k); auto e = edges(l); auto t = build(e, 0); P2 p = pt("p", -100, 100); ASSUME(where(l, p) == 1); V2 v = dir(d); auto r = border ? t.ray_intersection_only_border(p, v, Exact()) : t.ray_intersection(p, v, Exact()); double h = r.intersection_distance(), s = in("s", 0, 1000); ASSUME_GT(s, 0.0); if (r.is_intersecting()) { CHECK_GE(h, 0.0, "forward"); CHECK(r.get_data() < e.size() && on_edge(e[r.get_data()], P2(p[0] + h * v[0], p[1] + h * v[1])), "on-edge"); ASSUME_LT(s, h); } CHECK(where(l, P2(p[0] + s * v[0], p[1] + s * v[1])) != -1, "first"); }
SX_REAL(solid_ray, "four shapes, six directions, from any point of empty space within 100: the first hit, the edge hit, or a miss") { int k = sx_choose("shape", 0, 3), d = sx_choose("dir", 0, 5); ray(k, d, false); }
SX_REAL(solid_ray_room, "a block in a room, a U and blocks in rows, six directions, from any point of empty space within 100") { int k = sx_choose("shape", 4, 7), d = sx_choose("dir", 0, 5); ray(k, d, false); }
SX_REAL(solid_ray_border, "four shapes, from any point of empty space within 100: the border form gives the same") { int k = sx_choose("shape", 0, 3), d = sx_choose("dir", 0, 5); ray(k, d, true); }
SX_REAL(solid_ray_inside, "four shapes, from any solid point within 100: distance zero, and the border form gives the first edge crossed") { int k = sx_choose("shape", 0, 3), d = sx_choose("dir", 0, 5); auto l = shape(k); auto e = edges(l); auto t = build(e, 0); P2 p = pt("p", -100, 100); ASSUME(where(l, p) == -1); V2 v = dir(d); auto r = t.ray_intersection(p, v, Exact()); CHECK(r.is_intersecting(), "inside"); CHECK_EQ(r.intersection_distance(), 0.0, "inside"); }
SX_REAL(solid_ray_out, "a block and a triangle, from any solid point within 100: the border form gives the edge left through") { int k = sx_choose("shape", 0, 1), d = sx_choose("dir", 0, 5); auto l = shape(k); auto e = edges(l); auto t = build(e, 0); P2 p = pt("p", -100, 100); ASSUME(where(l, p) == -1); V2 v = dir(d); auto r = t.ray_intersection_only_border(p, v, Exact()); CHECK(r.is_intersecting(), "hit"); double h = r.intersection_distance(); CHECK(r.get_data() < e.size() && on_edge(e[r.get_data()], P2(p[0] + h * v[0], p[1] + h * v[1])), "on-edge"); }
SX_REAL(solid_scored, "six shapes split by least score: the same classification") { int k = sx_choose("shape", 0, 5); auto l = shape(k); auto t = build(edges(l), 1); P2 p = pt("p"); CHECK((int)t.point_in_solid_space(p, Exact()) == where(l, p), "where"); }
SX_REAL(solid_moved, "an assigned and a moved tree answer as the original") { int k = sx_choose("shape", 0, 3); auto l = shape(k); auto e = edges(l); Solid a = build(e, 0), b(std::move(a)), c = build(edges(shape(4)), 0); c = std::move(b); P2 p = pt("p"); CHECK((int)c.point_in_solid_space(p, Exact()) == where(l, p), "where"); }
// four blocks in a room: 21 edges
static Loops room() { return {{P2(-20, -10), P2(20, -10), P2(20, 10), P2(-20, 10)}, {P2(-12, -5), P2(-15, -2), P2(-12, 2), P2(-9, -1)}, {P2(-4, 1), P2(-5, 6), P2(0, 5), P2(1, 2)}, {P2(-2, -8), P2(-3, -4), P2(0, -5), P2(5, -3), P2(3, -7)}, {P2(8, -2), P2(7, 4), P2(12, 7), P2(15, -1)}}; }
static P2 on_row(int l, double x) { return l < 4 ? P2(x, -6 + 4 * l) : l < 7 ? P2(-12 + 11 * (l - 4), x / 2) : P2(x, 0.375 * x); }
SX_REAL(solid_many, "four blocks in a room (21 edges), three orders of edges or split by least score, any point of eight lines") { auto l = room(); auto e = edges(l); int r = sx_choose("first", 0, 3), w = sx_choose("line", 0, 7); if (r < 3) std::rotate(e.begin(), e.begin() + 7 * r, e.end()); auto t = build(e, r == 3); P2 p = on_row(w, in("x", -24, 24)); CHECK((int)t.point_in_solid_space(p, Exact()) == where(l, p), "where"); }
SX_REAL(solid_many_distance, "the same: the least distance to an edge and an edge at it") { auto l = room(); auto e = edges(l); int r = sx_choose("first", 0, 2), w = sx_choose("line", 0, 7); std::rotate(e.begin(), e.begin() + 7 * r, e.end()); auto t = build(e, 0); P2 p = on_row(w, in("x", -24, 24)); std::size_t k = 99; double d = t.get_min_distance_sqrd_to_solid(p, k, Exact()); CHECK(k < e.size(), "index"); for (auto& x : e) CHECK_LE(d, point_segment_distance_sqrd(p, x), "least"); if (k < e.size()) CHECK_EQ(d, point_segment_distance_sqrd(p, e[k]), "edge"); }
SX_REAL(solid_many_ray, "the same: the first hit from any empty point of four lines in four directions") { auto l = room(); auto e = edges(l); int w = sx_choose("line", 0, 3), d = sx_choose("dir", 0, 3), border = sx_choose("border", 0, 1); auto t = build(e, 0); P2 p = on_row(2 * w, in("x", -19, 19)); ASSUME(where(l, p) == 1); V2 v = dir(d); auto r = border ? t.ray_intersection_only_border(p, v, Exact()) : t.ray_intersection(p, v, Exact()); CHECK(r.is_intersecting(), "hit"); double h = r.intersection_distance(); CHECK_GE(h, 0.0, "forward"); CHECK(r.get_data() < e.size(), "index"); if (r.get_data() >= e.size()) return; const S2& f = e[r.get_data()]; P2 q(p[0] + h * v[0], p[1] + h * v[1]); CHECK_LE(std::fabs(cr(f.get_start(), f.get_end(), q)), 1e-9, "on-edge");
    for (auto& x : e) { P2 a = x.get_start(), b = x.get_end(); double n = v[0] * (b[1] - a[1]) - v[1] * (b[0] - a[0]), m = (a[0] - p[0]) * (b[1] - a[1]) - (a[1] - p[1]) * (b[0] - a[0]), s1 = v[0] * (a[1] - p[1]) - v[1] * (a[0] - p[0]), s2 = v[0] * (b[1] - p[1]) - v[1] * (b[0] - p[0]); if (n != 0 && ((s1 < -1e-9 && s2 > 1e-9) || (s1 > 1e-9 && s2 < -1e-9)) && m * n > 0) CHECK_LE(h * n * n, m * n + 1e-9, "first"); } }
// plane classification and the split
SX_REAL(classify, "any segment against one of six lines") { P2 a = pt("a"), b = pt("b"); int d = sx_choose("dir", 0, 5); double q = in("q"); V2 v = dir(d); line<P2> h(P2(q, 1), v); auto side = [&](const P2& x) { double c = v[0] * (x[1] - 1) - v[1] * (x[0] - q); return c > 0 ? 1 : c < 0 ? -1 : 0; }; int s = side(a), u = side(b); auto r = classify_simplex_to_plane(S2(a, b), h, Exact()); auto e = s * u < 0 ? plane_orientation::straddling_plane : s + u > 0 ? plane_orientation::in_front_of_plane : s + u < 0 ? plane_orientation::in_back_of_plane : plane_orientation::coplanar_with_plane; CHECK(r == e, "class"); }
SX_REAL(split, "any segment straddling one of two axis lines: the parts meet on the line and make up the segment, each on its side") { P2 a = pt("a"), b = pt("b"); int d = sx_choose("dir", 0, 1); V2 v = dir(d); line<P2> h(P2(0, 0), v); auto side = [&](const P2& x) { return v[0] * x[1] - v[1] * x[0]; }; ASSUME_LT(side(a) * side(b), 0.0); S2 f, k; bsp_detail::split_simplex(S2(a, b), h, f, k, Exact()); CHECK(side(f.get_start()) + side(f.get_end()) > 0, "front"); CHECK(side(k.get_start()) + side(k.get_end()) < 0, "back"); bool front_first = side(a) > 0; const S2 &x = front_first ? f : k, &y = front_first ? k : f; check_same(x.get_start(), a, "start"); check_same(y.get_end(), b, "end"); check_same(x.get_end(), y.get_start(), "join"); CHECK_EQ(side(x.get_end()), 0.0, "on-line"); CHECK_EQ(cr(a, b, x.get_end()), 0.0, "on-segment"); }
// ---- trees storing edges in their nodes: left of the edges is inside
#include <geometrix/algorithm/node_bsp_tree_2d.hpp>
typedef node_bsp_tree_2d<S2> Node;
static std::vector<P2> outline(int k) {
    switch (k) {
    case 0: return {P2(0, 0), P2(4, 0), P2(4, 3), P2(0, 3)};                                         // rectangle
    case 1: return {P2(0, 0), P2(4, 0), P2(0, 3)};                                                   // triangle
    case 2: return {P2(0, 0), P2(5, 0), P2(5, 1), P2(2, 1), P2(2, 4), P2(0, 4)};                     // L
    case 3: return {P2(0, 0), P2(6, 0), P2(6, 2), P2(5, 2), P2(5, 4), P2(3, 2), P2(1, 4), P2(1, 2), P2(0, 2)}; // two towers, the notch touching the line of the shoulders
    case 4: return {P2(0, 0), P2(3, 1), P2(6, 0), P2(3, 4)};                                         // dart
    default: return {P2(0, 0), P2(6, 0), P2(6, 3), P2(4, 3), P2(4, 1), P2(2, 1), P2(2, 3), P2(0, 3)}; } } // U
static std::vector<S2> loop(const std::vector<P2>& v, int r = 0) { std::vector<S2> e; for (std::size_t i = 0; i < v.size(); ++i) e.push_back(S2(v[i], v[(i + 1) % v.size()])); std::rotate(e.begin(), e.begin() + r % e.size(), e.end()); return e; }
static int inside(const std::vector<S2>& e, const P2& p) { int c = 0; for (auto& s : e) { if (on_edge(s, p)) return 0; P2 u = s.get_start(), v = s.get_end(); if ((u[1] > p[1]) != (v[1] > p[1])) { double x = cr(u, v, p); if ((v[1] > u[1]) ? x > 0 : x < 0) c ^= 1; } } return c ? 1 : -1; }
static int as_int(point_location_classification c) { return c == e_inside ? 1 : c == e_outside ? -1 : 0; }
typedef partition_policies::first_segment_selector_policy<S2> First; typedef partition_policies::scored_segment_selector_policy<S2, Tol> Scored;
SX_REAL(node_where, "six polygons, edges in each cyclic order, any point") { int k = sx_choose("shape", 0, 5); auto v = outline(k); auto e = loop(v, sx_choose("first", 0, 8)); Node t(e, First(), Tol(1e-9)); P2 p = pt("p"); CHECK_EQ(as_int(t.locate_point(p, Exact())), inside(e, p), "where"); }
SX_REAL(node_scored, "six polygons, split by least score, any point") { int k = sx_choose("shape", 0, 5); auto e = loop(outline(k)); Node t(e, Scored(Tol(1e-9)), Tol(1e-9)); P2 p = pt("p"); CHECK_EQ(as_int(t.locate_point(p, Exact())), inside(e, p), "where"); }
SX_REAL(node_insert, "five polygons inserted in two parts split at any place, any point") { int k = sx_choose("shape", 0, 4); auto e = loop(outline(k)); int n = sx_choose("cut", 1, (int)e.size() - 1); Node t(std::vector<S2>(e.begin(), e.begin() + n), First(), Tol(1e-9)); t.insert(std::vector<S2>(e.begin() + n, e.end()), First(), Tol(1e-9)); P2 p = pt("p"); CHECK_EQ(as_int(t.locate_point(p, Exact())), inside(e, p), "where"); }
static void painter(int k, int r) { auto e = loop(outline(k), r); Node t(e, First(), Tol(1e-9)); P2 p = pt("p", -100, 100); std::vector<S2> s; t.painters_traversal(p, [&](const S2& x) { s.push_back(x); }, Exact());
    for (auto& o : e) { P2 a = o.get_start(), b = o.get_end(); double sum = 0; for (auto& x : s) if (cr(a, b, x.get_start()) == 0 && cr(a, b, x.get_end()) == 0 && on_edge(o, x.get_start()) && on_edge(o, x.get_end())) sum += dt(a, b, x.get_end()) - dt(a, b, x.get_start()); if (cr(a, b, p) != 0) CHECK_EQ(sum, d2(a, b), "covers"); }
    int n = (int)s.size(); if (n < 2) return; int i = sx_choose("earlier", 0, n - 2), j = sx_choose("later", i + 1, n - 1); double u = in("u", 0, 1); ASSUME_GT(u, 0.0); ASSUME_LT(u, 1.0); P2 a = s[i].get_start(), b = s[i].get_end(), x = along(s[j].get_start(), s[j].get_end(), u);
    if (cr(a, b, p) * cr(a, b, x) < 0 && cr(p, x, a) * cr(p, x, b) < 0) CHECK(false, "back-to-front"); }
SX_REAL(node_painter, "two polygons, from any point within 100: every edge not seen edge-on is painted whole, none before one it hides behind") { int k = sx_choose("shape", 0, 1); painter(k, 0); }
SX_REAL(node_painter_more, "an L and a dart, any first edge") { int k = 2 * sx_choose("shape", 1, 2); painter(k, sx_choose("first", 0, 3)); }
SX_REAL(node_free, "triangle with a free apex, built in any cyclic order, any point") { P2 c = pt("c", -100, 100); ASSUME_GT(c[1], 0.0); std::vector<P2> v{P2(0, 0), P2(4, 0), c}; auto e = loop(v, sx_choose("first", 0, 2)); Node t(e, First(), Exact()); P2 p = pt("p", -100, 100); CHECK_EQ(as_int(t.locate_point(p, Exact())), inside(e, p), "where"); }
SX_REAL(node_quad, "convex or reflex quadrilateral with a free vertex, any point") { P2 c = pt("c", -100, 100); ASSUME_GT(c[1], 0.0); ASSUME_GT(c[0], 0.0); std::vector<P2> v{P2(0, 0), P2(4, 0), c, P2(0, 3)}; auto e = loop(v, sx_choose("first", 0, 3)); Node t(e, First(), Exact()); P2 p = pt("p", -100, 100); CHECK_EQ(as_int(t.locate_point(p, Exact())), inside(e, p), "where"); }
SX_REAL(node_painter_cover, "six polygons, edges in each cyclic order, from any point within 100: the painted pieces of every edge not seen edge-on add up to the edge") { int k = sx_choose("shape", 0, 5); auto v = outline(k); auto e = loop(v, sx_choose("first", 0, 8)); Node t(e, First(), Tol(1e-9)); P2 p = pt("p", -100, 100); std::vector<S2> s; t.painters_traversal(p, [&](const S2& x) { s.push_back(x); }, Exact());
    for (auto& o : e) { P2 a = o.get_start(), b = o.get_end(); double sum = 0; for (auto& x : s) if (cr(a, b, x.get_start()) == 0 && cr(a, b, x.get_end()) == 0 && on_edge(o, x.get_start()) && on_edge(o, x.get_end()) && d2(x.get_start(), x.get_end()) > 0) { double l = dt(a, b, x.get_end()) - dt(a, b, x.get_start()); CHECK_GT(l, 0.0, "direction"); sum += l; } if (cr(a, b, p) != 0) CHECK_EQ(sum, d2(a, b), "covers"); } }
static std::vector<P2> crown() { return {P2(0, 0), P2(13, -1), P2(20, 1), P2(19, 9), P2(17, 3), P2(15, 10), P2(13, 4), P2(11, 7), P2(9.5, 2), P2(8, 8), P2(7, 3), P2(5, 11), P2(4, 4), P2(1, 9), P2(-1, 5)}; }
SX_REAL(node_many, "a crown of 15 edges, five orders or split by least score, any point of eight lines; inserted in two parts") { auto v = crown(); int r = sx_choose("first", 0, 6), w = sx_choose("line", 0, 7); auto e = loop(v, r < 5 ? 3 * r : 0); double x = in("x", -24, 24); P2 p = w < 4 ? P2(x, 1.5 + 2.25 * w) : w < 7 ? P2(3 + 6 * (w - 4), x) : P2(x, 0.375 * x); auto check = [&](const Node& t) { CHECK_EQ(as_int(t.locate_point(p, Exact())), inside(e, p), "where"); }; if (r == 5) check(Node(e, Scored(Tol(1e-9)), Tol(1e-9))); else if (r == 6) { Node t(std::vector<S2>(e.begin(), e.begin() + 6), First(), Tol(1e-9)); t.insert(std::vector<S2>(e.begin() + 6, e.end()), First(), Tol(1e-9)); check(t); } else check(Node(e, First(), Tol(1e-9))); }
SX_REAL(node_many_painter, "the same from any point of eight lines: the painted pieces of every edge not seen edge-on add up to the edge") { auto v = crown(); int w = sx_choose("line", 0, 7); auto e = loop(v, 4 * sx_choose("first", 0, 2)); double y = in("x", -24, 24); P2 p = w < 4 ? P2(y, 1.5 + 2.25 * w) : w < 7 ? P2(3 + 6 * (w - 4), y) : P2(y, 0.375 * y); Node t(e, First(), Tol(1e-9)); std::vector<S2> s; t.painters_traversal(p, [&](const S2& x) { s.push_back(x); }, Exact());
    for (auto& o : e) { P2 a = o.get_start(), b = o.get_end(); double sum = 0; for (auto& x : s) if (std::fabs(cr(a, b, x.get_start())) < 1e-9 && std::fabs(cr(a, b, x.get_end())) < 1e-9 && dt(a, b, x.get_start()) > -1e-9 && dt(a, b, x.get_end()) < d2(a, b) + 1e-9 && dt(a, b, x.get_end()) > -1e-9 && dt(a, b, x.get_start()) < d2(a, b) + 1e-9) sum += dt(a, b, x.get_end()) - dt(a, b, x.get_start()); if (cr(a, b, p) != 0) CHECK_LE(std::fabs(sum - d2(a, b)), 1e-6, "covers"); } }
