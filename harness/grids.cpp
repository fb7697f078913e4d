// G19: grids - cells of points, stored data, and the cells visited along segments and in regions.
#include "g.h"
#include <set>
#include <algorithm>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/algebra/exterior_product.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/grid_2d.hpp>
#include <geometrix/algorithm/hash_grid_2d.hpp>
#include <geometrix/algorithm/cohen_sutherland_line_clipping.hpp>
#include <geometrix/algorithm/fast_voxel_grid_traversal.hpp>
#include <geometrix/algorithm/orientation_grid_traversal.hpp>
#include <geometrix/algorithm/floodfill_grid_traversal.hpp>
using namespace g;
typedef polygon<P2> Poly; typedef grid_traits<double> GT; typedef std::pair<int, int> Cell; typedef std::vector<Cell> Cells;
static bool has(const Cells& c, int i, int j) { for (auto& x : c) if (x == Cell(i, j)) return true; return false; }
SX_REAL(cell_of_point, "any origin, extent and cell size giving up to four cells across, any point inside: the point lies in the cell of its indices") { double x0 = in("x0"), y0 = in("y0"), w = in("w"), W = in("W"), H = in("H"), u = in("u"), v = in("v"); ASSUME_GT(w, 0.0); ASSUME_GT(W, 0.0); ASSUME_GT(H, 0.0); ASSUME_LE(W, 3 * w); ASSUME_LE(H, 2 * w); ASSUME(u >= 0 && u <= W && v >= 0 && v <= H); 
    GT g(x0, x0 + W, y0, y0 + H, w); double px = x0 + u, py = y0 + v; CHECK(g.is_contained(P2(px, py)), "contained"); unsigned i = g.get_x_index(px), j = g.get_y_index(py); CHECK(i < g.get_width() && j < g.get_height(), "in-grid"); CHECK(i * w <= u && u < (i + 1) * w && j * w <= v && v < (j + 1) * w, "cell"); CHECK((g.get_width() - 1) * w <= W && W < g.get_width() * w && (g.get_height() - 1) * w <= H && H < g.get_height() * w, "count"); }
SX_REAL(cell_geometry, "any origin and cell size, each of twelve cells: centre, corners, box and outline agree") { double x0 = in("x0"), y0 = in("y0"), w = in("w"); ASSUME_GT(w, 0.0); GT g(x0, x0 + 4 * w, y0, y0 + 3 * w, w); int i = sx_choose("i", 0, 3), j = sx_choose("j", 0, 2); double x = x0 + i * w, y = y0 + j * w; check_same(g.get_cell_centroid(i, j), P2(x + w / 2, y + w / 2), "centre"); check_same(g.get_cell_corner0(i, j), P2(x, y), "corner0"); check_same(g.get_cell_corner1(i, j), P2(x + w, y), "corner1"); check_same(g.get_cell_corner2(i, j), P2(x + w, y + w), "corner2"); check_same(g.get_cell_corner3(i, j), P2(x, y + w), "corner3"); auto b = g.get_cell_aabb(i, j); check_same(b.get_lower_bound(), P2(x, y), "box-low"); check_same(b.get_upper_bound(), P2(x + w, y + w), "box-high"); auto p = g.get_cell_polygon(i, j); CHECK(p.size() == 4, "outline"); P2 e[4] = {P2(x, y), P2(x + w, y), P2(x + w, y + w), P2(x, y + w)}; for (int k = 0; k < 4; ++k) check_same(p[k], e[k], "outline"); check_same(g.get_origin(), P2(x0, y0), "origin"); CHECK_EQ(g.get_cell_size(), w, "size"); CHECK_EQ(g.get_max_x(), x0 + 4 * w, "max"); CHECK_EQ(g.get_min_y(), y0, "min"); CHECK_EQ(g.get_scaled_grid_coordinate_x(x), (double)i, "scaled"); CHECK_EQ(g.get_scaled_grid_coordinate_y(y), (double)j, "scaled"); }
SX_REAL(contained, "any grid bounds and any point") { double x0 = in("x0"), x1 = in("x1"), y0 = in("y0"), y1 = in("y1"); ASSUME(x0 < x1 && x1 <= x0 + 3 && y0 < y1 && y1 <= y0 + 3); P2 p = pt("p"); GT g(x0, x1, y0, y1, 2.0), h(std::make_tuple(x0, x1, y0, y1), 2.0); bool e = x0 <= p[0] && p[0] <= x1 && y0 <= p[1] && p[1] <= y1; CHECK(g.is_contained(p) == e, "iff"); CHECK(g.get_width() == h.get_width() && g.get_height() == h.get_height() && h.is_contained(p) == e, "bounds-tuple"); }
SX_REAL(stored, "two points anywhere in a four by three grid: a value written at one is read at the other exactly when they share a cell, dense and hashed") { GT g(-1, 2.5, 3, 5.5, 1.0); P2 p(in("px", -1, 2.5), in("py", 3, 5.5)), q(in("qx", -1, 2.5), in("qy", 3, 5.5)); grid_2d<int, GT> a(g); hash_grid_2d<int, GT> h(g); CHECK(a.get_cell(q) == 0, "initial"); CHECK(h.find_cell(q) == nullptr, "absent"); a.get_cell(p) = 7; h.get_cell(p) = 7; bool same = std::floor(p[0] + 1) == std::floor(q[0] + 1) && std::floor(p[1] - 3) == std::floor(q[1] - 3); CHECK(a.get_cell(q) == (same ? 7 : 0), "dense"); auto* c = h.find_cell(q); CHECK((c != nullptr) == same && (!c || *c == 7), "hashed"); h.get_cell(q) = 9; CHECK(h.get_cell(p) == (same ? 9 : 7), "independent"); h.erase(g.get_x_index(q[0]), g.get_y_index(q[1])); CHECK(h.find_cell(q) == nullptr && (h.find_cell(p) == nullptr) == same, "erased"); h.clear(); CHECK(h.find_cell(p) == nullptr, "cleared"); }
// clipping
SX_REAL(clip, "any segment against any box: accepted exactly when it meets the box; the clipped ends are the ends of the common part") { double xm = in("xm"), xM = in("xM"), ym = in("ym"), yM = in("yM"), t = in("t", 0, 1); ASSUME(xm < xM && ym < yM); P2 a = pt("a"), b = pt("b"); double x0 = a[0], y0 = a[1], x1 = b[0], y1 = b[1]; bool r = cohen_sutherland_line_clip(x0, y0, x1, y1, xm, xM, ym, yM, Exact()); auto inb = [&](double x, double y) { return xm <= x && x <= xM && ym <= y && y <= yM; };
    P2 p = along(a, b, t); if (!r) { CHECK(!inb(p[0], p[1]), "misses"); return; } CHECK(inb(x0, y0) && inb(x1, y1), "inside"); P2 c(x0, y0), d(x1, y1); check_on_segment(c, a, b, "on-segment"); check_on_segment(d, a, b, "on-segment"); CHECK_GE((x1 - x0) * (b[0] - a[0]) + (y1 - y0) * (b[1] - a[1]), 0.0, "order"); }
SX_REAL(clip_keeps, "any segment from one of three starts against a fixed box: a point of the segment in the box stays in the clipped part") { int k = sx_choose("start", 0, 2); P2 a(k == 0 ? -1 : k == 1 ? 1 : 5, k == 0 ? -2 : k == 1 ? 1 : 0.5), b = pt("b"); double t = in("t", 0, 1), x0 = a[0], y0 = a[1], x1 = b[0], y1 = b[1]; P2 p = along(a, b, t); ASSUME(0 <= p[0] && p[0] <= 4 && 0 <= p[1] && p[1] <= 2); bool r = cohen_sutherland_line_clip(x0, y0, x1, y1, 0.0, 4.0, 0.0, 2.0, Exact()); CHECK(r, "accepted"); if (r) CHECK_LE((x0 - p[0]) * (x1 - p[0]) + (y0 - p[1]) * (y1 - p[1]), 0.0, "kept"); }
// traversals
struct Rec { Cells* c; void operator()(int i, int j) const { c->push_back(Cell(i, j)); } };
// the closed cell (unit cells, origin ox, oy) meets the segment
static bool touches(const P2& a, const P2& b, double x, double y, double w) { if ((a[0] < x && b[0] < x) || (a[0] > x + w && b[0] > x + w) || (a[1] < y && b[1] < y) || (a[1] > y + w && b[1] > y + w)) return false; double c[4] = {cr(a, b, P2(x, y)), cr(a, b, P2(x + w, y)), cr(a, b, P2(x + w, y + w)), cr(a, b, P2(x, y + w))}; return !((c[0] > 0 && c[1] > 0 && c[2] > 0 && c[3] > 0) || (c[0] < 0 && c[1] < 0 && c[2] < 0 && c[3] < 0)); }
static void path_ok(const Cells& c, const P2& a, const P2& b, double x0, double y0, double w, int W, int H, bool diag) { CHECK(!c.empty(), "some"); for (std::size_t k = 0; k < c.size(); ++k) { CHECK(c[k].first >= 0 && c[k].first < W && c[k].second >= 0 && c[k].second < H, "in-grid"); for (std::size_t l = 0; l < k; ++l) CHECK(c[l] != c[k], "once"); if (k) { int d = std::abs(c[k].first - c[k - 1].first) + std::abs(c[k].second - c[k - 1].second); CHECK(d == 1 || (diag && d == 2), "adjacent"); } CHECK(touches(a, b, x0 + c[k].first * w, y0 + c[k].second * w, w), "touches"); } }
static void walk(const P2& a, const P2& b, int kind) { GT g(0, 3, 0, 2, 1.0); Cells c; Rec r{&c}; S2 s(a, b); if (kind == 0) fast_voxel_grid_traversal(g, s, r, Exact()); else if (kind == 1) stoppable_fast_voxel_grid_traversal(g, s, [&](int i, int j) { c.push_back(Cell(i, j)); return true; }, Exact()); else orientation_segment_traversal(g, s, r, Exact());
    path_ok(c, a, b, 0, 0, 1, 4, 3, kind == 2); double t = in("t", 0, 1); P2 p = along(a, b, t); double fx = std::floor(p[0]), fy = std::floor(p[1]); if (fx < p[0] && fy < p[1]) CHECK(has(c, (int)fx, (int)fy), "covers"); if (kind != 2) CHECK(has(c, (int)std::floor(a[0]), (int)std::floor(a[1])), "start"); CHECK(has(c, (int)std::floor(b[0]), (int)std::floor(b[1])), "end"); }
SX_REAL(voxel, "segments inside a grid from one of five starts to anywhere: every cell crossed, only cells met, once each, step by step") { double S[5][2] = {{0.5, 0.5}, {0, 0}, {2.25, 1.5}, {1, 1.75}, {3, 2}}; int k = sx_choose("start", 0, 4); walk(P2(S[k][0], S[k][1]), P2(in("bx", 0, 3), in("by", 0, 2)), 0); }
SX_REAL(voxel_end, "segments inside a grid from anywhere to one of three ends") { double S[3][2] = {{0.5, 0.5}, {2, 1}, {0.25, 1.5}}; int k = sx_choose("end", 0, 2); walk(P2(in("bx", 0, 3), in("by", 0, 2)), P2(S[k][0], S[k][1]), 0); }
SX_REAL(voxel_stoppable, "the stoppable form, from two starts") { double S[2][2] = {{0.5, 0.5}, {2.25, 1.5}}; int k = sx_choose("start", 0, 1); walk(P2(S[k][0], S[k][1]), P2(in("bx", 0, 3), in("by", 0, 2)), 1); }
SX_REAL(oriented_walk, "the walk by orientation, from five starts") { double S[5][2] = {{0.5, 0.5}, {0, 0}, {2.25, 1.5}, {1, 1.75}, {3, 2}}; int k = sx_choose("start", 0, 4); walk(P2(S[k][0], S[k][1]), P2(in("bx", 0, 3), in("by", 0, 2)), 2); }
SX_REAL(voxel_clipped, "a grid of half-unit cells off the origin, from one of three points outside to anywhere within four units") { double S[3][2] = {{-2, 2.25}, {-0.25, 4.5}, {1, 1}}; int k = sx_choose("start", 0, 2); P2 a(S[k][0], S[k][1]), b(in("bx", -4, 4), in("by", -1, 7)); GT g(-1, 0.75, 2, 3.25, 0.5); Cells c; Rec r{&c}; S2 s(a, b); fast_voxel_grid_traversal(g, s, r, Exact()); double x0 = a[0], y0 = a[1], x1 = b[0], y1 = b[1]; bool hit = cohen_sutherland_line_clip(x0, y0, x1, y1, -1.0, 0.75, 2.0, 3.25, Exact()); CHECK(c.empty() == !hit, "iff-meets"); if (!hit) return; path_ok(c, a, b, -1, 2, 0.5, 4, 3, false); double t = in("t", 0, 1); P2 p = along(P2(x0, y0), P2(x1, y1), t); double fx = std::floor((p[0] + 1) * 2), fy = std::floor((p[1] - 2) * 2); if (fx < (p[0] + 1) * 2 && fy < (p[1] - 2) * 2) CHECK(has(c, (int)fx, (int)fy), "covers"); CHECK(has(c, (int)std::floor((x0 + 1) * 2), (int)std::floor((y0 - 2) * 2)), "start"); CHECK(has(c, (int)std::floor((x1 + 1) * 2), (int)std::floor((y1 - 2) * 2)), "end"); }
SX_REAL(voxel_stops, "the stoppable form visits the same cells up to the one refused") { double S[2][2] = {{0.5, 0.5}, {2.25, 1.5}}; int k = sx_choose("start", 0, 1), n = sx_choose("n", 1, 3); S2 s(P2(S[k][0], S[k][1]), P2(in("bx", 0, 3), in("by", 0, 2))); GT g(0, 3, 0, 2, 1.0); Cells c, d; fast_voxel_grid_traversal(g, s, Rec{&c}, Exact()); stoppable_fast_voxel_grid_traversal(g, s, [&](int i, int j) { d.push_back(Cell(i, j)); return (int)d.size() < n; }, Exact()); if ((int)c.size() > n) c.resize(n); CHECK(c == d, "prefix"); }
// long walks: the ends are in windows near opposite corners of a larger grid with cells of 2 units and its origin off zero
static void far_(int kind) {
    static const double A[4][2] = {{-2.5, 4}, {21, 6.5}, {20.25, 25}, {-1, 26}}; int k = sx_choose("from", 0, 3), steep = sx_choose("slope", 0, 2); const double* o = A[k]; double x = in("x", -0.375, 0.5), dx = k == 0 || k == 3 ? 1 : -1, dy = k < 2 ? 1 : -1; P2 a(o[0], o[1]), b(o[0] + dx * (steep == 0 ? 7.25 + x : steep == 1 ? 21 + x : 22.25), o[1] + dy * (steep == 0 ? 19.5 : steep == 1 ? 17.125 : 3.5 + x)); GT g(-3, 24.5, 3, 27, 2.0); Cells c, d; Rec r{&c}; S2 s(a, b);
    if (kind == 0) fast_voxel_grid_traversal(g, s, r, Exact()); else if (kind == 1) { stoppable_fast_voxel_grid_traversal(g, s, [&](int i, int j) { c.push_back(Cell(i, j)); return true; }, Exact()); for (std::size_t n = 1; n <= 15; ++n) { d.clear(); stoppable_fast_voxel_grid_traversal(g, s, [&](int i, int j) { d.push_back(Cell(i, j)); return d.size() < n; }, Exact()); CHECK(d.size() == (n < c.size() ? n : c.size()), "stops"); for (std::size_t q = 0; q < d.size() && q < c.size(); ++q) CHECK(d[q] == c[q], "prefix"); } } else orientation_segment_traversal(g, s, r, Exact());
    path_ok(c, a, b, -3, 3, 2, 14, 13, kind == 2); double t = in("t", 0, 1); P2 p = along(a, b, t); double fx = std::floor((p[0] + 3) / 2), fy = std::floor((p[1] - 3) / 2); if (fx < (p[0] + 3) / 2 && fy < (p[1] - 3) / 2) CHECK(has(c, (int)fx, (int)fy), "covers"); CHECK(has(c, (int)std::floor((a[0] + 3) / 2), (int)std::floor((a[1] - 3) / 2)), "start"); CHECK(has(c, (int)std::floor((b[0] + 3) / 2), (int)std::floor((b[1] - 3) / 2)), "end"); }
SX_REAL(voxel_far, "a grid of 14 by 13 cells of 2 units, from one of 4 corners at 3 slopes to anywhere in a window of a unit") { far_(0); }
SX_REAL(voxel_far_stoppable, "the same for the stoppable form, stopped after up to 14 cells") { far_(1); }
SX_REAL(oriented_walk_far, "the same for the walk by orientation") { far_(2); }
// filling
static bool in_convex(const Poly& q, const P2& p, bool open) { for (std::size_t k = 0; k < q.size(); ++k) { double c = cr(q[k], q[(k + 1) % q.size()], p); if (open ? c <= 0 : c < 0) return false; } return true; }
static bool cell_meets(const Poly& q, int i, int j) { for (std::size_t k = 0; k < q.size(); ++k) if (touches(q[k], q[(k + 1) % q.size()], i, j, 1)) return true; return in_convex(q, P2(i + 0.5, j + 0.5), false); }
static bool cell_inside(const Poly& q, int i, int j, bool open = true) { for (int k = 0; k < 4; ++k) if (!in_convex(q, P2(i + k % 2, j + k / 2), open)) return false; return true; }
static void fill_ok(const Cells& c, const Poly& q, const std::vector<Poly>& holes, int W, int H) { for (std::size_t k = 0; k < c.size(); ++k) { int i = c[k].first, j = c[k].second; CHECK(i >= 0 && i < W && j >= 0 && j < H, "in-grid"); for (std::size_t l = 0; l < k; ++l) CHECK(c[l] != c[k], "once"); CHECK(cell_meets(q, i, j), "meets"); for (auto& h : holes) CHECK(!cell_inside(h, i, j), "not-in-hole"); } }
static void fill_covers(const Cells& c, const Poly& q, const std::vector<Poly>& holes, const P2& p) { double fx = std::floor(p[0]), fy = std::floor(p[1]); ASSUME(fx < p[0] && fy < p[1] && in_convex(q, p, true)); for (auto& h : holes) ASSUME(!in_convex(h, p, true)); CHECK(has(c, (int)fx, (int)fy), "covers"); }
SX_REAL(fill, "triangles with two given corners and the third anywhere turning left: every cell crossed, only cells met, once each") { P2 v(in("vx", 0, 5), in("vy", 0, 4)); P2 a(0.5, 0.25), b(4.25, 0.5); ASSUME_GT(cr(a, b, v), 0.0); Poly q{a, b, v}; GT g(0, 5, 0, 4, 1.0); Cells c; floodfill_grid_traversal(g, q, Rec{&c}, Exact()); fill_ok(c, q, {}, 6, 5); fill_covers(c, q, {}, P2(in("px", 0, 5), in("py", 0, 4))); }
SX_REAL(fill_point, "a five-unit diamond moved anywhere by less than one cell: a point inside is in a visited cell") { double u = in("u", 0, 1), v = in("v", 0, 1); Poly q{P2(2.5 + u, v), P2(5 + u, 2.5 + v), P2(2.5 + u, 5 + v), P2(u, 2.5 + v)}; GT g(0, 6, 0, 6, 1.0); Cells c; floodfill_grid_traversal(g, q, Rec{&c}, Exact()); fill_ok(c, q, {}, 7, 7); fill_covers(c, q, {}, P2(in("px", 0, 6), in("py", 0, 6))); }
SX_REAL(fill_holes, "a box with two square holes in either orientation, one of them moved anywhere in a column: cells of neither hole, every other cell") { double u = in("u", 0, 1), v = in("v", 0, 1); Poly q{P2(0.5, 0.5), P2(4.5, 0.5), P2(4.5, 9.5), P2(0.5, 9.5)}; auto sq = [](double x, double y) { return Poly{P2(x, y), P2(x + 2.5, y), P2(x + 2.5, y + 2.5), P2(x, y + 2.5)}; }; std::vector<Poly> h{sq(0.75 + u, 0.625 + v), sq(1.25, 5.25)}; int turn = sx_choose("turn", 0, 3); std::vector<Poly> hh(h); for (auto& x : hh) { std::rotate(x.begin(), x.begin() + turn / 2, x.end()); if (turn % 2) std::reverse(x.begin(), x.end()); } polygon_with_holes<P2> w(q, hh); GT g(0, 5, 0, 10, 1.0); Cells c; floodfill_grid_traversal(g, w, Rec{&c}, Exact()); fill_ok(c, q, h, 6, 11); fill_covers(c, q, h, P2(in("px", 0, 5), in("py", 0, 10))); }
SX_REAL(fill_low_hole, "a box with one small hole in its lowest row and a larger hole anywhere above it") { double u = in("u", 0, 1), v = in("v", 0, 1); Poly q{P2(0.5, 0.5), P2(5.5, 0.5), P2(5.5, 6.5), P2(0.5, 6.5)}; std::vector<Poly> h{Poly{P2(1.5, 0.625), P2(3.75, 0.625), P2(3.75, 0.875), P2(1.5, 0.875)}, Poly{P2(1 + u, 1.5 + v), P2(4 + u, 1.5 + v), P2(4 + u, 4.5 + v), P2(1 + u, 4.5 + v)}}; polygon_with_holes<P2> w(q, h); GT g(0, 6, 0, 7, 1.0); Cells c; floodfill_grid_traversal(g, w, Rec{&c}, Exact()); fill_ok(c, q, h, 7, 8); }
SX_REAL(flood, "flooding from any point in a triangle with two given corners and the third anywhere turning left: no leak, no gap") { P2 v(in("vx", 0, 5), in("vy", 0, 4)), p(in("px", 0, 5), in("py", 0, 4)); P2 a(0.25, 0.25), b(4.75, 0.25); ASSUME_GT(cr(a, b, v), 0.0); Poly q{a, b, v}; GT g(0, 5, 0, 4, 1.0); floodfill_grid_traversal_helper<GT> ff(g); Cells c; ff.mark_boundary(q, Rec{&c}, Exact()); std::size_t n = c.size(); double fx = std::floor(p[0]), fy = std::floor(p[1]); ASSUME(fx < p[0] && fy < p[1] && in_convex(q, p, true)); bool onb = has(c, (int)fx, (int)fy); auto e = ff.get_empty_interior(); bool r = ff.traversal(p, Rec{&c}); CHECK(r == !onb, "refused-on-outline"); if (onb) { CHECK(c.size() == n, "nothing"); return; } CHECK((bool)e, "some-empty"); CHECK(e && cell_inside(q, e->first, e->second, false), "empty-inside"); CHECK(has(c, (int)fx, (int)fy), "start"); fill_ok(c, q, {}, 6, 5); for (std::size_t k = n; k < c.size(); ++k) { int i = c[k].first, j = c[k].second; CHECK(has(c, i + 1, j) && has(c, i - 1, j) && has(c, i, j + 1) && has(c, i, j - 1), "no-gap"); } }
SX_REAL(flood_bends, "an outline with two notches moved anywhere by less than one cell, flooded from any point: exactly the cells joined to the start, then nothing again") { double u = in("u", 0, 1), v = in("v", 0, 1); P2 p(in("px", 0, 14), in("py", 0, 10)); double xy[12][2] = {{0, 0}, {3, 0}, {3, 5}, {5, 5}, {5, 0}, {12, 0}, {12, 8}, {9, 8}, {9, 3}, {7, 3}, {7, 8}, {0, 8}}; Poly q; for (auto& c : xy) q.push_back(P2(c[0] + u, c[1] + v)); GT g(0, 14, 0, 10, 1.0); floodfill_grid_traversal_helper<GT> ff(g); Cells c; ff.mark_boundary(q, Rec{&c}, Exact()); Cells b = c; ff.mark_boundary(q, Rec{&c}, Exact()); CHECK(b == c, "outline-once"); int sx = (int)std::floor(p[0]), sy = (int)std::floor(p[1]); bool onb = has(b, sx, sy); ASSUME(onb || (p[0] >= u && p[0] <= 12 + u && p[1] >= v && p[1] <= 8 + v && !(p[0] >= 3 + u && p[0] <= 5 + u && p[1] <= 5 + v) && !(p[0] >= 7 + u && p[0] <= 9 + u && p[1] >= 3 + v))); bool r = ff.traversal(p, Rec{&c}); CHECK(r == !onb, "refused-on-outline"); if (onb) { CHECK(c.size() == b.size(), "nothing"); return; }
    std::set<Cell> seen(b.begin(), b.end()), want; std::vector<Cell> todo{Cell(sx, sy)}; while (!todo.empty()) { Cell x = todo.back(); todo.pop_back(); if (!seen.insert(x).second) continue; want.insert(x); todo.push_back(Cell(x.first + 1, x.second)); todo.push_back(Cell(x.first - 1, x.second)); todo.push_back(Cell(x.first, x.second + 1)); todo.push_back(Cell(x.first, x.second - 1)); } std::size_t n = c.size(); CHECK(std::set<Cell>(c.begin() + b.size(), c.end()) == want, "joined-cells"); CHECK(n == b.size() + want.size(), "once"); for (auto& x : want) CHECK(x.first >= 0 && x.first < 15 && x.second >= 0 && x.second < 11, "in-grid"); CHECK(ff.traversal(p, Rec{&c}) && c.size() == n, "again"); }
SX_REAL(flood_cut, "an outline larger than the grid with six notches, moved anywhere by less than one cell, flooded from one of 8 cells: exactly the cells of the grid joined to the start") { double u = in("u", 0, 1), v = in("v", 0, 1); static const double xy[24][2] = {{-2, -3}, {3, -3}, {3, 3}, {5, 3}, {5, -3}, {12, -3}, {12, 2}, {7, 4}, {7, 6}, {12, 6}, {12, 12}, {7, 12}, {7, 13}, {12, 13}, {12, 22}, {4, 22}, {4, 15}, {1, 15}, {1, 22}, {-2, 22}, {-2, 11}, {3, 9}, {3, 8}, {-2, 7}}; static const int st[8][2] = {{0, 0}, {8, 0}, {9, 17}, {0, 17}, {5, 9}, {0, 5}, {9, 9}, {6, 16}}; Poly q; for (auto& c : xy) q.push_back(P2(c[0] + u, c[1] + v)); GT g(0, 9.5, 0, 17.5, 1.0); floodfill_grid_traversal_helper<GT> ff(g); Cells c; ff.mark_boundary(q, Rec{&c}, Exact()); std::set<Cell> b(c.begin(), c.end()); CHECK(b.size() == c.size(), "outline-once"); int k = sx_choose("start", 0, 7); if (b.count(Cell(st[k][0], st[k][1]))) return; CHECK(ff.traversal(st[k][0], st[k][1], Rec{&c}), "filled");
    std::set<Cell> want; std::vector<Cell> todo{Cell(st[k][0], st[k][1])}; while (!todo.empty()) { Cell x = todo.back(); todo.pop_back(); if (x.first < 0 || x.first > 9 || x.second < 0 || x.second > 17 || b.count(x) || !want.insert(x).second) continue; todo.push_back(Cell(x.first + 1, x.second)); todo.push_back(Cell(x.first - 1, x.second)); todo.push_back(Cell(x.first, x.second + 1)); todo.push_back(Cell(x.first, x.second - 1)); } CHECK(std::set<Cell>(c.begin() + b.size(), c.end()) == want, "joined-cells"); CHECK(c.size() == b.size() + want.size(), "once"); }
SX_REAL(stored_seen, "two points anywhere in a four by three grid: reading through a constant grid, after a move and an assigned move") { GT g(-1, 2.5, 3, 5.5, 1.0); P2 p(in("px", -1, 2.5), in("py", 3, 5.5)), q(in("qx", -1, 2.5), in("qy", 3, 5.5)); grid_2d<int, GT> a(g); hash_grid_2d<int, GT> h(g), k(g); a.get_cell(p) = 7; h.get_cell(p) = 7; k.get_cell(0, 0) = 5; const grid_2d<int, GT>& ca = a; bool same = std::floor(p[0] + 1) == std::floor(q[0] + 1) && std::floor(p[1] - 3) == std::floor(q[1] - 3);
    CHECK(ca.get_cell(q) == (same ? 7 : 0), "dense"); CHECK(ca.is_contained(q), "contained"); hash_grid_2d<int, GT> m(std::move(h)); k = std::move(m); const hash_grid_2d<int, GT>& ck = k; auto* c = ck.find_cell(q); CHECK((c != nullptr) == same && (!c || *c == 7), "hashed"); CHECK(ck.is_contained(q), "contained"); CHECK(ck.get_traits().get_x_index(q[0]) == g.get_x_index(q[0]) && ca.get_traits().get_y_index(q[1]) == g.get_y_index(q[1]), "traits"); }
