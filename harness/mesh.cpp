// G22: triangle meshes: construction, adjacency, location, random positions, visible vertices; and the triangle and segment helpers they use.
#include "g.h"
#include <set>
#include <map>
#include <geometrix/utility/array.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/algebra/exterior_product.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/mesh_2d.hpp>
#include <geometrix/algorithm/eberly_triangle_aabb_intersection.hpp>
#include <geometrix/algorithm/visible_vertices_mesh_search.hpp>
#include <geometrix/algorithm/point_in_circumcircle.hpp>
#include <geometrix/algorithm/split_segment.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
#include <geometrix/utility/memoize.hpp>
using namespace g;
typedef std::vector<P2> Ps; typedef std::vector<std::size_t> Is;
struct Brute { std::size_t n; Brute(std::size_t n = 0) : n(n) {} template <class P> std::vector<std::size_t> find_indices(const P&) const { std::vector<std::size_t> v; for (std::size_t i = 0; i < n; ++i) v.push_back(i); return v; } };
typedef mesh_2d<double, mesh_traits<Brute>> Mesh; typedef mesh_2d<double> GridMesh;
static Mesh make(const Ps& p, const Is& i) { return Mesh(p, i, Tol(0), [](const Ps&, const std::vector<std::array<P2, 3>>& t) { return Brute(t.size()); }); }
static void shape(int k, Ps& p, Is& i) {
    switch (k) {
    case 0: p = {P2(0, 0), P2(3, 0), P2(3, 4), P2(0, 4)}; i = {0, 1, 2, 0, 2, 3}; break;                                             // square
    case 1: p = {P2(0, 0), P2(6, 0), P2(6, 8), P2(3, 4), P2(0, 8)}; i = {0, 1, 3, 1, 2, 3, 3, 4, 0}; break;                           // notch
    case 2: p = {P2(0, 0), P2(3, 0), P2(3, 4), P2(0, 4), P2(1, 1)}; i = {0, 1, 4, 1, 2, 4, 2, 3, 4, 3, 0, 4}; break;                  // fan about an inner point
    case 3: p = {P2(0, 0), P2(3, 0), P2(6, 4), P2(6, 8), P2(3, 8), P2(3, 4), P2(0, 4)}; i = {6, 1, 5, 6, 0, 1, 2, 5, 1, 4, 5, 2, 4, 2, 3}; break; // bent passage
    case 4: p = {P2(0, 0), P2(6, 0), P2(6, 8), P2(0, 8), P2(2, 4), P2(4, 3)}; i = {0, 1, 5, 0, 5, 4, 1, 2, 5, 2, 4, 5, 2, 3, 4, 3, 0, 4}; break; // two inner points
    case 6: { // five by three cells without two of them, the points of the rows and columns moved
        static const double jx[6] = {0, 0.25, -0.125, 0.25, 0, 0.125}; for (int y = 0; y < 4; ++y) for (int x = 0; x < 6; ++x) p.push_back(P2(2 * x + jx[(x + y) % 6], 2 * y + jx[(x + 2 * y + 3) % 6]));
        for (int y = 0; y < 3; ++y) for (int x = 0; x < 5; ++x) if (!(x == 1 && y == 1) && !(x == 3 && y > 0)) { std::size_t u = 6 * y + x; if ((x + y) % 2) i.insert(i.end(), {u, u + 1, u + 7, u, u + 7, u + 6}); else i.insert(i.end(), {u, u + 1, u + 6, u + 1, u + 7, u + 6}); } break; }
    default: p = {P2(0, 0), P2(8, 0), P2(8, 6), P2(6, 6), P2(6, 2), P2(2, 2), P2(2, 6), P2(0, 6)}; i = {0, 5, 6, 0, 6, 7, 0, 1, 5, 1, 4, 5, 1, 2, 4, 2, 3, 4}; } }
static std::vector<S2> border(int k) { Ps p; Is i; shape(k, p, i); std::vector<S2> s; std::set<std::pair<std::size_t, std::size_t>> e; for (std::size_t t = 0; t < i.size(); t += 3) for (int j = 0; j < 3; ++j) e.insert({i[t + j], i[t + (j + 1) % 3]}); for (auto& x : e) if (!e.count({x.second, x.first})) s.push_back(S2(p[x.first], p[x.second])); return s; }
static bool in_tri(const P2& p, const P2& a, const P2& b, const P2& c) { double x = cr(a, b, p), y = cr(b, c, p), z = cr(c, a, p); return x >= 0 && y >= 0 && z >= 0; }
template <class M> static void check_mesh(const M& m, const Ps& p, const Is& i) {
    CHECK(m.get_number_triangles() == i.size() / 3 && m.get_number_vertices() == p.size(), "sizes"); std::size_t n = m.get_number_triangles();
    for (std::size_t t = 0; t < n; ++t) { auto x = m.get_triangle_indices(t); auto v = m.get_triangle_vertices(t); std::set<std::size_t> a(x.begin(), x.end()), b(i.begin() + 3 * t, i.begin() + 3 * t + 3); CHECK(a == b, "corners"); for (int k = 0; k < 3; ++k) check_same(v[k], p[x[k]], "vertices"); CHECK_GE(cr(v[0], v[1], v[2]), 0.0, "counter-clockwise"); }
    auto& adj = m.get_adjacency_matrix(); CHECK(adj.size() == n, "adjacency-size"); if (adj.size() != n) return;
    for (std::size_t t = 0; t < n; ++t) for (int k = 0; k < 3; ++k) { auto x = m.get_triangle_indices(t); std::size_t u = x[k], w = x[(k + 1) % 3], e = (std::size_t)-1; for (std::size_t s = 0; s < n; ++s) if (s != t) { auto y = m.get_triangle_indices(s); for (int l = 0; l < 3; ++l) if (y[l] == w && y[(l + 1) % 3] == u) e = s; } CHECK(adj[t][k] == e, "adjacent"); if (e != (std::size_t)-1) CHECK(get_triangle_adjacent_side(x, m.get_triangle_indices(e)) == (std::size_t)k, "side"); } }
SX_REAL(mesh_build, "six meshes of two to six triangles, any of the triangles given clockwise") { int k = sx_choose("shape", 0, 5); Ps p; Is i; shape(k, p, i); for (std::size_t t = 0; t < i.size() / 3; ++t) if (sx_choose(nm("flip", t).c_str(), 0, 1)) std::swap(i[3 * t], i[3 * t + 1]); auto m = make(p, i); check_mesh(m, p, i); }
SX_REAL(mesh_free, "fan of four triangles about any point inside a rectangle, either orientation given") { P2 c = pt("c"); ASSUME(c[0] > 0 && c[0] < 3 && c[1] > 0 && c[1] < 4); Ps p{P2(0, 0), P2(3, 0), P2(3, 4), P2(0, 4), c}; Is i{0, 1, 4, 1, 2, 4, 2, 3, 4, 3, 0, 4}; if (sx_choose("flip", 0, 1)) std::swap(i[3], i[4]); auto m = make(p, i); check_mesh(m, p, i); P2 q = pt("q"); auto r = m.find_triangle(q, Exact()); bool inside = q[0] >= 0 && q[0] <= 3 && q[1] >= 0 && q[1] <= 4; CHECK((bool)r == inside, "found"); if (r) { auto v = m.get_triangle_vertices(*r); CHECK(in_tri(q, v[0], v[1], v[2]), "contains"); } }
SX_REAL(mesh_find, "six meshes with the grid cache, any point within 20: a triangle containing it, exactly when there is one") { int k = sx_choose("shape", 0, 5); Ps p; Is i; shape(k, p, i); GridMesh m(p, i, Tol(0)); P2 q = pt("q", -20, 20); auto r = m.find_triangle(q, Exact()); bool any = false; for (std::size_t t = 0; t < i.size() / 3; ++t) { auto v = m.get_triangle_vertices(t); any = any || in_tri(q, v[0], v[1], v[2]); } CHECK((bool)r == any, "found"); if (r) { auto v = m.get_triangle_vertices(*r); CHECK(in_tri(q, v[0], v[1], v[2]), "contains"); } }
SX_REAL(mesh_random, "four meshes, any three numbers from zero to one: inside the triangle whose share of the area the first falls in, at the position of the other two") { int k = sx_choose("shape", 0, 3); Ps p; Is i; shape(k, p, i); auto m = make(p, i); double a = in("t", 0, 1), u = in("u", 0, 1), w = in("w", 0, 1); ASSUME_LT(a, 1.0 - 1e-9); P2 q = m.get_random_position(a, u, w); double total = 0, sum = 0; std::size_t n = m.get_number_triangles(); for (std::size_t t = 0; t < n; ++t) { auto v = m.get_triangle_vertices(t); total += cr(v[0], v[1], v[2]); }
    double s = std::sqrt(u); for (std::size_t t = 0; t < n; ++t) { auto v = m.get_triangle_vertices(t); double lo = sum; sum += cr(v[0], v[1], v[2]); if (a * total > lo + 1e-9 && a * total < sum - 1e-9) { CHECK_LE(std::fabs(q[0] - ((1 - s) * v[0][0] + s * (1 - w) * v[1][0] + s * w * v[2][0])), 1e-9, "place"); CHECK_LE(std::fabs(q[1] - ((1 - s) * v[0][1] + s * (1 - w) * v[1][1] + s * w * v[2][1])), 1e-9, "place"); } } }
struct Item { std::size_t from, to; std::size_t get_triangle_index() const { return to; } };
// ---- visible vertices
typedef visible_vertices_mesh_search<visible_vertices_mesh_search_traits<double, Mesh, Tol>> Search;
static bool crosses(const P2& a, const P2& b, const P2& u, const P2& v) { double p = cr(a, b, u), q = cr(a, b, v), r = cr(u, v, a), s = cr(u, v, b); return ((p > 0 && q < 0) || (p < 0 && q > 0)) && ((r > 0 && s < 0) || (r < 0 && s > 0)); }
static void visible(int k, std::size_t t, bool seen) { Ps p; Is i; shape(k, p, i); auto m = make(p, i); if (t >= m.get_number_triangles()) return; P2 o = pt("o"); auto v = m.get_triangle_vertices(t); ASSUME_GT(cr(v[0], v[1], o), 0.0); ASSUME_GT(cr(v[1], v[2], o), 0.0); ASSUME_GT(cr(v[2], v[0], o), 0.0);
    std::size_t n = p.size(), w = sx_choose("vertex", 0, (int)n - 1); auto b = border(k); Search s(o, t, m); m.search(s); auto& r = s.get_vertices(); bool has = std::find(r.begin(), r.end(), w) != r.end(), blocked = false;
    if (!seen) { if (has) for (auto& e : b) CHECK(!crosses(o, p[w], e.get_start(), e.get_end()), "seen"); return; }
    if (has) return; for (std::size_t x = 0; x < n; ++x) if (x != w) ASSUME(cr(o, p[w], p[x]) != 0); for (auto& e : b) blocked = blocked || crosses(o, p[w], e.get_start(), e.get_end()); CHECK(blocked, "all"); }
SX_REAL(visible_seen, "six meshes, any origin strictly inside any triangle: no reported vertex hidden behind the border") { int k = sx_choose("shape", 0, 5), t = sx_choose("triangle", 0, 5); visible(k, t, false); }
SX_REAL(visible_all, "six meshes, any origin strictly inside any triangle: every vertex in plain sight reported") { int k = sx_choose("shape", 0, 5), t = sx_choose("triangle", 0, 5); visible(k, t, true); }
struct Limited : Search { int n; Limited(const P2& o, std::size_t s, const Mesh& m) : Search(o, s, m), n(0) {} bool visit(const edge_item& i) { return Search::visit(i) && ++n < 60; } };
// origin on an edge or at a vertex
static void from_border(int k, std::size_t t, int a, double u) { Ps p; Is i; shape(k, p, i); auto m = make(p, i); if (t >= m.get_number_triangles()) return; auto v = m.get_triangle_vertices(t); P2 o = along(v[a], v[(a + 1) % 3], u); std::size_t n = p.size(), w = sx_choose("vertex", 0, (int)n - 1); if (d2(o, p[w]) == 0) return;
    Search s(o, t, m); m.search(s); auto& r = s.get_vertices(); bool has = std::find(r.begin(), r.end(), w) != r.end(), blocked = false; for (auto& e : border(k)) blocked = blocked || crosses(o, p[w], e.get_start(), e.get_end()); P2 mid = along(o, p[w], 0.5); bool in_ = false; for (std::size_t j = 0; j < m.get_number_triangles(); ++j) { auto x = m.get_triangle_vertices(j); in_ = in_ || in_tri(mid, x[0], x[1], x[2]); }
    bool plain = true; for (std::size_t x = 0; x < n; ++x) if (x != w && d2(o, p[x]) != 0 && cr(o, p[w], p[x]) == 0) plain = false; if (!plain) return; if (has) CHECK(!blocked && in_, "seen"); else CHECK(blocked || !in_, "all"); }
// origin off an edge by what rounding leaves
static void near_by(int k, std::size_t t, const P2& c, const P2& o) { Ps p; Is i; shape(k, p, i); auto m = make(p, i); Search s(o, t, m); m.search(s); auto& r = s.get_vertices(); std::size_t n = p.size(), w = sx_choose("vertex", 0, (int)n - 1); if (d2(c, p[w]) == 0) return; for (std::size_t x = 0; x < n; ++x) if (x != w && d2(c, p[x]) > 0) { double q = cr(c, p[w], p[x]); if (q < 1e-3 && q > -1e-3) return; }
    bool has = std::find(r.begin(), r.end(), w) != r.end(), blocked = false; for (auto& b : border(k)) blocked = blocked || crosses(c, p[w], b.get_start(), b.get_end()); P2 mid = along(c, p[w], 0.5); bool in_ = false; for (std::size_t j = 0; j < m.get_number_triangles(); ++j) { auto x = m.get_triangle_vertices(j); in_ = in_ || in_tri(mid, x[0], x[1], x[2]); } if (has) CHECK(!blocked && in_, "seen"); else CHECK(blocked || !in_, "all"); }
SX_REAL(visible_near_edge, "six meshes, origin within 1e-9 of any place of any edge of any triangle, to either side: exactly the vertices in plain sight") { int k = sx_choose("shape", 0, 5), t = sx_choose("triangle", 0, 5), a = sx_choose("edge", 0, 2); Ps p; Is i; shape(k, p, i); auto m = make(p, i); if (t >= (int)m.get_number_triangles()) return; auto v = m.get_triangle_vertices(t); P2 e = v[a], f = v[(a + 1) % 3]; double u = in("u", 0.01, 0.99), d = in("d", -1e-9, 1e-9); P2 c = along(e, f, u), o(c[0] - d * (f[1] - e[1]), c[1] + d * (f[0] - e[0])); near_by(k, t, c, o); }
SX_REAL(visible_edge, "six meshes, origin anywhere within any edge of any triangle: exactly the vertices in plain sight") { int k = sx_choose("shape", 0, 5), t = sx_choose("triangle", 0, 5), a = sx_choose("edge", 0, 2); double u = in("u", 0, 1); ASSUME_GT(u, 0.0); ASSUME_LT(u, 1.0); from_border(k, t, a, u); }
SX_REAL(visible_corner, "six meshes, origin at any vertex of any triangle: exactly the vertices in plain sight") { int k = sx_choose("shape", 0, 5), t = sx_choose("triangle", 0, 5), a = sx_choose("corner", 0, 2); from_border(k, t, a, 0); }
SX_REAL(mesh_many, "a mesh of 24 triangles, every third clockwise or none: build") { Ps p; Is i; shape(6, p, i); int f = sx_choose("flip", 0, 3); for (std::size_t t = 0; t < i.size() / 3; ++t) if (f && (int)(t % 3) == f - 1) std::swap(i[3 * t], i[3 * t + 1]); auto m = make(p, i); check_mesh(m, p, i); }
SX_REAL(mesh_find_many, "the same mesh with the grid cache, any point along four lines: a triangle containing it, exactly when there is one") { Ps p; Is i; shape(6, p, i); GridMesh m(p, i, Tol(0)); int l = sx_choose("line", 0, 3); double x = in("x", -3, 14); P2 q = l < 2 ? P2(x, 0.5 + 2 * l) : l < 3 ? P2(7, x) : P2(x, 0.5 * x + 0.25); auto r = m.find_triangle(q, Exact()); bool any = false; for (std::size_t t = 0; t < i.size() / 3; ++t) { auto v = m.get_triangle_vertices(t); any = any || in_tri(q, v[0], v[1], v[2]); } CHECK((bool)r == any, "found"); if (r) { auto v = m.get_triangle_vertices(*r); CHECK(in_tri(q, v[0], v[1], v[2]), "contains"); } }
SX_REAL(mesh_random_many, "the same mesh, any number from zero to one for the triangle, four positions within it") { Ps p; Is i; shape(6, p, i); auto m = make(p, i); double a = in("t", 0, 1); int c = sx_choose("at", 0, 3); double s = c % 2 ? 0.75 : 0.25, u = s * s, w = c / 2 ? 0.875 : 0.125; P2 q = m.get_random_position(a, u, w); double total = 0, sum = 0; std::size_t n = m.get_number_triangles(); for (std::size_t t = 0; t < n; ++t) { auto v = m.get_triangle_vertices(t); total += cr(v[0], v[1], v[2]); }
    for (std::size_t t = 0; t < n; ++t) { auto v = m.get_triangle_vertices(t); double lo = sum; sum += cr(v[0], v[1], v[2]); if (a * total > lo + 1e-9 && a * total < sum - 1e-9) { CHECK_LE(std::fabs(q[0] - ((1 - s) * v[0][0] + s * (1 - w) * v[1][0] + s * w * v[2][0])), 1e-9, "place"); CHECK_LE(std::fabs(q[1] - ((1 - s) * v[0][1] + s * (1 - w) * v[1][1] + s * w * v[2][1])), 1e-9, "place"); } } }
SX_REAL(visible_many, "the same mesh, the origin anywhere on a line through one of eight triangles: exactly the vertices in plain sight, each of them not in line with another") { Ps p; Is i; shape(6, p, i); auto m = make(p, i); std::size_t t = 3 * sx_choose("triangle", 0, 7); auto v = m.get_triangle_vertices(t); double u = in("u", 0, 1); ASSUME_GT(u, 0.0); ASSUME_LT(u, 1.0); P2 o = along(along(v[0], v[1], 0.375), along(v[2], v[1], 0.25), u);
    Search s(o, t, m); m.search(s); auto& r = s.get_vertices(); auto b = border(6); for (std::size_t w = 0; w < p.size(); ++w) { bool plain = true, blocked = false, has = std::find(r.begin(), r.end(), w) != r.end(); for (std::size_t x = 0; x < p.size(); ++x) if (x != w && cr(o, p[w], p[x]) == 0) plain = false; if (!plain) continue; for (auto& e : b) blocked = blocked || crosses(o, p[w], e.get_start(), e.get_end()); if (has) CHECK(!blocked, "seen"); else CHECK(blocked, "all"); } }
// ---- the cone between two directions from a point
static V2 dirs(int k) { static const int d[8][2] = {{5, 0}, {4, 3}, {0, 5}, {-3, 4}, {-5, 0}, {-4, -3}, {0, -5}, {3, -4}}; return V2(d[k][0] / 5.0, d[k][1] / 5.0); }
static bool in_cone(const V2& l, const V2& h, const P2& o, const P2& p) { return l[0] * (p[1] - o[1]) - l[1] * (p[0] - o[0]) >= 0 && h[0] * (p[1] - o[1]) - h[1] * (p[0] - o[0]) <= 0; }
static bool meets_ray(const P2& a, const P2& b, const P2& o, const V2& v) { double x = v[0] * (a[1] - o[1]) - v[1] * (a[0] - o[0]), y = v[0] * (b[1] - o[1]) - v[1] * (b[0] - o[0]); if ((x > 0 && y > 0) || (x < 0 && y < 0)) return false; double p = v[0] * (a[0] - o[0]) + v[1] * (a[1] - o[1]), q = v[0] * (b[0] - o[0]) + v[1] * (b[1] - o[1]); if (x == y) return p >= 0 || q >= 0; double n = p * -y + q * x; return x > y ? n >= 0 : n <= 0; }
static void cone(int l, int w, V2& lo, V2& hi) { lo = dirs(l); hi = dirs((l + w) % 8); ASSUME_GT(lo[0] * hi[1] - lo[1] * hi[0], 0.0); }
SX_REAL(range, "any segment and origin, twelve cones less than a half turn wide: met or missed") { int l = sx_choose("lo", 0, 3), w = sx_choose("width", 1, 3); V2 lo, hi; cone(l, w, lo, hi); P2 a = pt("a"), b = pt("b"), o = pt("o"); bool e = in_cone(lo, hi, o, a) || in_cone(lo, hi, o, b) || meets_ray(a, b, o, lo) || meets_ray(a, b, o, hi); CHECK(is_segment_in_range_2d(S2(a, b), lo, hi, o) == e, "met"); }
SX_REAL(range_part, "the same with the part inside: ends in the cone and on the segment, holding every point in the cone") { int l = sx_choose("lo", 0, 1), w = sx_choose("width", 1, 3); V2 lo, hi; cone(l, w, lo, hi); P2 a = pt("a"), b = pt("b"), o(1, 2), x[2]; distinct(a, b); double t = in("t", 0, 1); P2 p = along(a, b, t); if (is_segment_in_range_2d(S2(a, b), lo, hi, o, x, Exact())) { for (int k = 0; k < 2; ++k) { CHECK(in_cone(lo, hi, o, x[k]), "in-cone"); check_on_segment(x[k], a, b, "on-segment"); } if (in_cone(lo, hi, o, p)) { double q = dt(a, b, p), u = dt(a, b, x[0]), v = dt(a, b, x[1]); CHECK((u <= q && q <= v) || (v <= q && q <= u), "whole"); } } else CHECK(!in_cone(lo, hi, o, p), "missed"); }
// ---- triangle against box
static void tri(int k, P2* v) { static const int d[4][6] = {{0, 0, 3, 0, 0, 4}, {0, 0, 3, 4, -4, 3}, {0, 0, 24, 7, 21, 28}, {0, 0, 8, 6, -1, -6}}; for (int i = 0; i < 3; ++i) v[i] = P2(d[k][2 * i], d[k][2 * i + 1]); }
SX_REAL(triangle_box, "three triangles in both orientations, box of any size anywhere: they share a point or not") { int k = sx_choose("shape", 0, 2), f = sx_choose("turn", 0, 1); P2 v[3]; tri(k, v); if (f) std::swap(v[1], v[2]); P2 c = pt("c"); double w = in("w"), h = in("h"); ASSUME(w >= 0 && h >= 0); axis_aligned_bounding_box<P2> box(P2(c[0] - w, c[1] - h), P2(c[0] + w, c[1] + h)); bool r = eberly_triangle_aabb_intersection_2d(v[0], v[1], v[2], box, Tol(0)); if (!r) { double s = in("s", 0, 1), t = in("t", 0, 1); ASSUME(s + t <= 1); P2 p(v[0][0] + s * (v[1][0] - v[0][0]) + t * (v[2][0] - v[0][0]), v[0][1] + s * (v[1][1] - v[0][1]) + t * (v[2][1] - v[0][1])); CHECK(!(p[0] >= c[0] - w && p[0] <= c[0] + w && p[1] >= c[1] - h && p[1] <= c[1] + h), "missed"); return; }
    // met: no axis of either separates them
    double lx = std::min(v[0][0], std::min(v[1][0], v[2][0])), hx = std::max(v[0][0], std::max(v[1][0], v[2][0])), ly = std::min(v[0][1], std::min(v[1][1], v[2][1])), hy = std::max(v[0][1], std::max(v[1][1], v[2][1])); CHECK(c[0] + w >= lx && c[0] - w <= hx && c[1] + h >= ly && c[1] - h <= hy, "met"); for (int i = 0; i < 3; ++i) { const P2 &a = v[i], &b = v[(i + 1) % 3], &d = v[(i + 2) % 3]; double g = cr(a, b, d) > 0 ? 1 : -1, best = -1; bool any = false; for (int q = 0; q < 4; ++q) any = any || g * cr(a, b, P2(c[0] + (q & 1 ? w : -w), c[1] + (q & 2 ? h : -h))) >= 0; (void)best; CHECK(any, "met"); } }
SX_REAL(circle, "any triangle counterclockwise and any point: inside, on or outside the circle about its corners (by the power of the point)") { P2 a = pt("a"), b = pt("b"), c = pt("c"), p = pt("p"); double g = cr(a, b, c); ASSUME_GT(g, 0.0); double bx = b[0] - a[0], by = b[1] - a[1], cx = c[0] - a[0], cy = c[1] - a[1], B = bx * bx + by * by, C = cx * cx + cy * cy, ux = cy * B - by * C, uy = bx * C - cx * B; // centre - a = (ux, uy) / 2g
    double qx = p[0] - a[0], qy = p[1] - a[1], power = g * (qx * qx + qy * qy) - (qx * ux + qy * uy); auto r = point_in_circumcircle(a, b, c, p, Exact()); CHECK((int)r == (power < 0 ? 1 : power > 0 ? -1 : 0), "side"); }
SX_REAL(middle, "any segment, plane and space: halfway between the ends") { P3 a = pt3("a"), b = pt3("b"); auto m = segment_mid_point(a, b); auto n = segment_mid_point(S3(a, b)); for (int k = 0; k < 3; ++k) { CHECK_EQ(2 * m[k], a[k] + b[k], "points"); CHECK_EQ(2 * n[k], a[k] + b[k], "segment"); } P2 c = pt("c"), d = pt("d"); auto q = segment_mid_point(S2(c, d)); for (int k = 0; k < 2; ++k) CHECK_EQ(2 * q[k], c[k] + d[k], "plane"); }
SX_REAL(split_even, "any segment up to eight times the greatest length: equal pieces no longer, end to end, and no fewer halvings than needed") { P2 a = pt("a"), b = pt("b"); double m = in("m"); ASSUME_GT(m, 0.0); ASSUME_LE(d2(a, b), 64 * m * m); auto s = split_segment(S2(a, b), m); std::size_t n = s.size(); CHECK(n > 0, "some"); if (!n) return; check_same(s[0].get_start(), a, "start"); check_same(s[n - 1].get_end(), b, "end"); for (std::size_t i = 0; i < n; ++i) { double l = d2(s[i].get_start(), s[i].get_end()); CHECK_LE(l, m * m, "short"); CHECK_EQ(l * n * n, d2(a, b), "equal"); if (i) check_same(s[i - 1].get_end(), s[i].get_start(), "joined"); check_on_segment(s[i].get_end(), a, b, "on"); if (n > 1) CHECK_GT(4 * l, m * m, "needed"); } }
SX_FP(mesh_random_fp, "strip of ten equal triangles, any double from zero to one: a point of the mesh") { Ps p; Is i; for (int k = 0; k < 6; ++k) { p.push_back(P2(k, 0)); p.push_back(P2(k, 1)); } for (std::size_t k = 0; k < 5; ++k) for (std::size_t v : {2 * k, 2 * k + 2, 2 * k + 3, 2 * k, 2 * k + 3, 2 * k + 1}) i.push_back(v); auto m = make(p, i); double t = in("t", 0, 1); P2 q = m.get_random_position(t, 0.25, 0.5); CHECK(q[0] >= 0 && q[0] <= 5 && q[1] >= 0 && q[1] <= 1, "inside"); }
