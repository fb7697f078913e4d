// G20: kd-tree range search.
#include "g.h"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/kd_tree.hpp>
#include <geometrix/algorithm/median_partitioning_strategy.hpp>
#include <geometrix/primitive/polygon.hpp>
using namespace g;
template <typename P, typename Ps> void kd(const Ps& p, const P& lo, const P& hi, int D) { polygon<P> seq(p.begin(), p.end()); kd_tree<P> t(seq, Exact(), median_partitioning_strategy()); std::vector<P> got; t.search(axis_aligned_bounding_box<P>(lo, hi), [&](const P& q) { got.push_back(q); }, Exact());
    auto same = [&](const P& a, const P& b) { for (int d = 0; d < D; ++d) if (a[d] != b[d]) return false; return true; };
    for (auto& q : p) { bool in_ = true; for (int d = 0; d < D; ++d) in_ = in_ && lo[d] <= q[d] && q[d] <= hi[d]; int n = 0, m = 0; for (auto& r : p) m += same(q, r); for (auto& r : got) n += same(q, r); CHECK(n == (in_ ? m : 0), in_ ? "found-once" : "not-outside"); } CHECK(got.size() <= p.size(), "count"); }
static std::vector<P2> some(int n) { double c[7][2] = {{1, 1}, {3, 2}, {1, 4}, {5, 0}, {3, 2}, {2, 3}, {4, 4}}; std::vector<P2> v; for (int i = 0; i < n; ++i) v.push_back(P2(c[i][0], c[i][1])); return v; }
SX_REAL(kd_one, "any one point, any box") { P2 p = pt("p"), lo = pt("lo"), hi = pt("hi"); ASSUME(lo[0] <= hi[0] && lo[1] <= hi[1]); kd(std::vector<P2>{p}, lo, hi, 2); }
SX_REAL(kd_two, "any two points, any box") { P2 p = pt("p"), q = pt("q"), lo = pt("lo"), hi = pt("hi"); ASSUME(lo[0] <= hi[0] && lo[1] <= hi[1]); kd(std::vector<P2>{p, q}, lo, hi, 2); }
SX_REAL(kd_three, "any three points, a given box") { kd(std::vector<P2>{pt("p"), pt("q"), pt("r")}, P2(0, 0), P2(4, 2), 2); }
SX_REAL(kd_box, "up to seven given points, two of them equal, any box") { P2 lo = pt("lo"), hi = pt("hi"); ASSUME(lo[0] <= hi[0] && lo[1] <= hi[1]); kd(some(sx_choose("n", 2, 7)), lo, hi, 2); }
SX_REAL(kd_point, "up to six given points with one more anywhere, one of three boxes") { auto v = some(sx_choose("n", 2, 6)); v.insert(v.begin() + 1, pt("p")); int k = sx_choose("box", 0, 2); kd(v, k == 0 ? P2(1, 1) : k == 1 ? P2(2, 0) : P2(3, 3), k == 0 ? P2(3, 3) : k == 1 ? P2(6, 2) : P2(3, 3.5), 2); }
SX_REAL(kd_space, "five given points and one more anywhere in space, one of two boxes") { std::vector<P3> v{P3(0, 0, 0), P3(2, 1, 3), P3(1, 3, 2), P3(3, 2, 1), P3(1, 1, 4)}; v.insert(v.begin() + 2, pt3("p")); int k = sx_choose("box", 0, 1); kd(v, k ? P3(1, 1, 1) : P3(0, 0, 0), k ? P3(2, 3, 3) : P3(3, 1, 3), 3); }
static std::vector<P2> lots(int n) { std::vector<P2> v; for (int i = 0; i < n; ++i) v.push_back(P2((7 * i * i + 3 * i) % 23, (5 * i * i * i + 11 * i) % 19 + (i % 5 == 2 ? 0.5 : 0))); return v; }
SX_REAL(kd_many, "27 given points, four widths and three heights of boxes, the box anywhere along x or along y") { int w = sx_choose("width", 0, 3), h = sx_choose("height", 0, 2), y = sx_choose("along", 0, 1); static const double W[4] = {0, 2.5, 8, 40}, H[3][2] = {{2, 7}, {-1, 30}, {9, 9.5}}; double a = in("a", -10, 30); kd(lots(27), y ? P2(H[h][0], a) : P2(a, H[h][0]), y ? P2(H[h][1], a + W[w]) : P2(a + W[w], H[h][1]), 2); }
SX_REAL(kd_many_sizes, "4 to 33 given points, a box anywhere along the diagonal") { int n = sx_choose("n", 4, 33); double a = in("a", -10, 30); kd(lots(n), P2(a, a), P2(a + 9, a + 7), 2); }
SX_REAL(kd_many_space, "23 given points in space, a box anywhere along each of the axes") { int k = sx_choose("along", 0, 2), w = sx_choose("size", 0, 2); static const double W[3] = {0, 3, 20}; double a = in("a", -10, 30); std::vector<P3> v; auto l = lots(23); for (int i = 0; i < 23; ++i) v.push_back(P3(l[i][0], l[i][1], (3 * i * i + i) % 17)); P3 lo(1, 2, 3), hi(19, 13, 15); lo[k] = a; hi[k] = a + W[w]; kd(v, lo, hi, 3); }
// boxes
typedef axis_aligned_bounding_box<P2> B2; typedef axis_aligned_bounding_box<P3> B3;
static B2 box2(const char* n) { P2 a = pt(std::string(n) + ".lo"), b = pt(std::string(n) + ".hi"); ASSUME(a[0] <= b[0] && a[1] <= b[1]); return B2(a, b); }
static B3 box3(const char* n) { P3 a = pt3(std::string(n) + ".lo"), b = pt3(std::string(n) + ".hi"); ASSUME(a[0] <= b[0] && a[1] <= b[1] && a[2] <= b[2]); return B3(a, b); }
template <typename B, typename P> bool inbox(const B& b, const P& p, int D) { bool r = true; for (int d = 0; d < D; ++d) r = r && b.get_lower_bound()[d] <= p[d] && p[d] <= b.get_upper_bound()[d]; return r; }
SX_REAL(box_point, "any box and point, plane and space") { B2 b = box2("b"); P2 p = pt("p"); CHECK(b.intersects(p) == inbox(b, p, 2), "plane"); CHECK(b.intersects(p, Exact()) == inbox(b, p, 2), "plane"); }
SX_REAL(box_point3, "any box and point in space") { B3 b = box3("b"); P3 p = pt3("p"); CHECK(b.intersects(p) == inbox(b, p, 3), "space"); }
SX_REAL(box_box, "any two boxes: they meet exactly when some point is in both; one contains the other exactly when it has all its points") { B2 a = box2("a"), b = box2("b"); double x = std::max(a.get_lower_bound()[0], b.get_lower_bound()[0]), y = std::max(a.get_lower_bound()[1], b.get_lower_bound()[1]); P2 m(x, y); CHECK(a.intersects(b) == (inbox(a, m, 2) && inbox(b, m, 2)), "meet"); CHECK(a.contains(b) == (inbox(a, b.get_lower_bound(), 2) && inbox(a, b.get_upper_bound(), 2)), "contains"); }
SX_REAL(box_contains_all, "any two boxes and any point of the contained one, plane and space") { B3 a = box3("a"), b = box3("b"); P3 p = pt3("p"); ASSUME(inbox(b, p, 3)); if (a.contains(b)) CHECK(inbox(a, p, 3), "contains"); if (!a.intersects(b, Exact())) CHECK(!inbox(a, p, 3), "disjoint"); }
SX_REAL(box_expand, "any two boxes: the expanded box is the least one containing both") { B2 a = box2("a"), b = box2("b"), c = a, d = a; c.expand(b); d.expand(b.to_tuple()); for (int k = 0; k < 2; ++k) { CHECK_EQ(c.get_lower_bound()[k], std::min(a.get_lower_bound()[k], b.get_lower_bound()[k]), "low"); CHECK_EQ(c.get_upper_bound()[k], std::max(a.get_upper_bound()[k], b.get_upper_bound()[k]), "high"); } check_same(c.get_lower_bound(), d.get_lower_bound(), "tuple"); check_same(c.get_upper_bound(), d.get_upper_bound(), "tuple"); }
SX_REAL(box_expand3, "any two boxes in space") { B3 a = box3("a"), b = box3("b"), c = a; c.expand(b); for (int k = 0; k < 3; ++k) { CHECK_EQ(c.get_lower_bound()[k], std::min(a.get_lower_bound()[k], b.get_lower_bound()[k]), "low"); CHECK_EQ(c.get_upper_bound()[k], std::max(a.get_upper_bound()[k], b.get_upper_bound()[k]), "high"); } }
SX_REAL(box_of_segment, "any segment, plane and space") { P3 a = pt3("a"), b = pt3("b"); auto e = make_aabb<P3>(S3(a, b)); for (int k = 0; k < 3; ++k) { CHECK_EQ(e.get_lower_bound()[k], std::min(a[k], b[k]), "low"); CHECK_EQ(e.get_upper_bound()[k], std::max(a[k], b[k]), "high"); } }
SX_REAL(box_of_points, "any three points: the least box containing them; a subrange counts its own points only") { P2 p[3] = {pt("p"), pt("q"), pt("r")}; polygon<P2> s(p, p + 3); auto e = make_aabb<P2>(s); for (int k = 0; k < 2; ++k) { CHECK_EQ(e.get_lower_bound()[k], std::min({p[0][k], p[1][k], p[2][k]}), "low"); CHECK_EQ(e.get_upper_bound()[k], std::max({p[0][k], p[1][k], p[2][k]}), "high"); } auto f = make_aabb<P2>(s, std::make_tuple(std::size_t(1), std::size_t(2))); for (int k = 0; k < 2; ++k) { CHECK_EQ(f.get_lower_bound()[k], std::min(p[1][k], p[2][k]), "subrange"); CHECK_EQ(f.get_upper_bound()[k], std::max(p[1][k], p[2][k]), "subrange"); } }
SX_REAL(box_of_points3, "any three points in space") { P3 p[3] = {pt3("p"), pt3("q"), pt3("r")}; polygon<P3> s(p, p + 3); auto e = make_aabb<P3>(s); for (int k = 0; k < 3; ++k) { CHECK_EQ(e.get_lower_bound()[k], std::min({p[0][k], p[1][k], p[2][k]}), "low"); CHECK_EQ(e.get_upper_bound()[k], std::max({p[0][k], p[1][k], p[2][k]}), "high"); } }
SX_REAL(box_forms, "any box: corners in order, tuple and back") { B2 b = box2("b"); auto t = b.to_tuple(); P2 l = b.get_lower_bound(), h = b.get_upper_bound(); CHECK_EQ(std::get<0>(t), l[0], "tuple"); CHECK_EQ(std::get<1>(t), h[0], "tuple"); CHECK_EQ(std::get<2>(t), l[1], "tuple"); CHECK_EQ(std::get<3>(t), h[1], "tuple"); B2 c(t), d = make_aabb<P2>(t); c = t; for (auto& e : {c, d}) { check_same(e.get_lower_bound(), l, "back"); check_same(e.get_upper_bound(), h, "back"); } check_same(b[0], l, "corner"); check_same(b[1], P2(h[0], l[1]), "corner"); check_same(b[2], h, "corner"); check_same(b[3], P2(l[0], h[1]), "corner"); }
SX_REAL(box_forms3, "any box in space: tuple and back") { B3 b = box3("b"); auto t = b.to_tuple(); B3 c(t), d = make_aabb<P3>(t); for (auto& e : {c, d}) { check_same(e.get_lower_bound(), b.get_lower_bound(), "back"); check_same(e.get_upper_bound(), b.get_upper_bound(), "back"); } }
