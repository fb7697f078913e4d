// G26: segments chained into the polygons and polylines they came from.
#include "g.h"
#include <numeric>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/algorithm/doubly_connected_edge_list.hpp>
using namespace g;
typedef doubly_connected_edge_list<P2, Tol> Dcel;
typedef std::vector<std::pair<int, int>> Ring;
static P2 at(const std::pair<int, int>& c, const P2& o) { return P2(o[0] + c.first, o[1] + c.second); }
static bool near2(const P2& a, const P2& b) { return std::fabs(a[0] - b[0]) < 1e-6 && std::fabs(a[1] - b[1]) < 1e-6; }
static std::vector<S2> edges(const Ring& r, bool closed, const P2& o) { std::vector<S2> s; std::size_t n = r.size(); for (std::size_t i = 0; i + (closed ? 0 : 1) < n; ++i) s.push_back(S2(at(r[i], o), at(r[(i + 1) % n], o))); return s; }
template <typename L> static bool same_line(const L& l, const Ring& r, const P2& o) { if (l.size() != r.size()) return false; for (std::size_t i = 0; i < r.size(); ++i) if (!near2(l[i], at(r[i], o))) return false; return true; }
template <typename L> static bool same_ring(const L& l, const Ring& r, const P2& o) { std::size_t n = r.size(); if (l.size() != n) return false; for (std::size_t k = 0; k < n; ++k) { bool ok = true; for (std::size_t i = 0; ok && i < n; ++i) ok = near2(l[(i + k) % n], at(r[i], o)); if (ok) return true; } return false; }
// the i-th permutation of n things
static std::vector<std::size_t> perm(std::size_t n, int k) { std::vector<std::size_t> left(n), p; std::iota(left.begin(), left.end(), 0); for (std::size_t i = n; i > 0; --i) { std::size_t j = k % i; k /= (int)i; p.push_back(left[j]); left.erase(left.begin() + j); } return p; }
static const Ring TRI = {{0, 0}, {3, 0}, {1, 2}}, SQ = {{0, 0}, {0, 2}, {2, 2}, {2, 0}}, PEN = {{0, 0}, {4, 0}, {4, 3}, {2, 1}, {0, 3}}, LIN = {{0, 0}, {2, 1}, {1, 3}, {-1, 2}}, TWO = {{0, 0}, {1, 1}};
SX_REAL(ring, "edges of a triangle, quadrilateral or pentagon anywhere, in every order") { P2 o = pt("o"); int k = sx_choose("k", 0, 2); const Ring& r = k == 0 ? TRI : k == 1 ? SQ : PEN; auto e = edges(r, true, o); int f = k == 0 ? 6 : k == 1 ? 24 : 120; auto p = perm(e.size(), sx_choose("p", 0, f - 1)); std::vector<S2> s; for (auto i : p) s.push_back(e[i]); auto d = make_dcel<P2>(s, Tol(1e-9)); CHECK(d.get_polylines().empty(), "no polyline"); CHECK(d.get_polygons().size() == 1, "one polygon"); CHECK(same_ring(d.get_polygons()[0], r, o), "ring"); }
SX_REAL(line, "edges of polylines of 2 and 4 vertices anywhere, in every order") { P2 o = pt("o"); int k = sx_choose("k", 0, 1); const Ring& r = k ? LIN : TWO; auto e = edges(r, false, o); auto p = perm(e.size(), sx_choose("p", 0, k ? 5 : 0)); std::vector<S2> s; for (auto i : p) s.push_back(e[i]); auto d = make_dcel<P2>(s, Tol(1e-9)); CHECK(d.get_polygons().empty(), "no polygon"); CHECK(d.get_polylines().size() == 1, "one polyline"); CHECK(same_line(d.get_polylines()[0], r, o), "line"); }
SX_REAL(mixed, "a triangle and two polylines far enough apart, in 720 orders") { P2 o = pt("o"); P2 a(o[0] + 10, o[1]), b(o[0], o[1] + 10); auto e = edges(TRI, true, o), f = edges(LIN, false, a), g_ = edges(TWO, false, b); e.insert(e.end(), f.begin(), f.end()); e.insert(e.end(), g_.begin(), g_.end()); auto p = perm(e.size(), sx_choose("p", 0, 59) * 83); std::vector<S2> s; for (auto i : p) s.push_back(e[i]); auto d = make_dcel<P2>(s, Tol(1e-9)); CHECK(d.get_polygons().size() == 1 && d.get_polylines().size() == 2, "counts"); CHECK(same_ring(d.get_polygons()[0], TRI, o), "ring"); bool x = false, y = false; for (auto& l : d.get_polylines()) { x = x || same_line(l, LIN, a); y = y || same_line(l, TWO, b); } CHECK(x && y, "lines"); }
SX_REAL(merge, "a square whose corners differ by less than the tolerance between its edges") { double u = in("u", -0.0004, 0.0004), v = in("v", -0.0004, 0.0004); P2 o(0, 0); auto e = edges(SQ, true, o); int m = sx_choose("m", 0, 3); P2 q = e[m].get_end(); e[m] = S2(e[m].get_start(), P2(q[0] + u, q[1] + v)); auto p = perm(4, sx_choose("p", 0, 23)); std::vector<S2> s; for (auto i : p) s.push_back(e[i]); auto d = make_dcel<P2>(s, Tol(1e-3)); CHECK(d.get_polygons().size() == 1 && d.get_polylines().empty(), "one polygon"); auto& r = d.get_polygons()[0]; CHECK(r.size() == 4, "corners"); }
SX_REAL(stepwise, "edges added one by one, sequences computed before and after the last") { P2 o = pt("o"); auto e = edges(SQ, true, o); int last = sx_choose("last", 0, 3); Dcel d{Tol(1e-9)}; for (int i = 0; i < 4; ++i) if (i != last) { if (i % 2) d.add_edge(e[i]); else d.add_edge(e[i].get_start(), e[i].get_end()); } d.calculate_point_sequences(); CHECK(d.get_polygons().empty() && d.get_polylines().size() == 1, "open"); Ring open; for (int i = 1; i <= 4; ++i) open.push_back(SQ[(last + i) % 4]); CHECK(same_line(d.get_polylines()[0], open, o), "open"); d.add_edge(e[last]); d.calculate_point_sequences(); CHECK(d.get_polylines().empty() && d.get_polygons().size() == 1, "closed"); CHECK(same_ring(d.get_polygons()[0], SQ, o), "closed"); }
SX_REAL(copies, "copying, moving and assigning a list before its last edge is added") { P2 o = pt("o"); auto e = edges(SQ, true, o); int how = sx_choose("how", 0, 3), last = sx_choose("last", 0, 3); Dcel d{Tol(1e-9)}; for (int i = 0; i < 4; ++i) if (i != last) d.add_edge(e[i]); Dcel x{Tol(1e-9)}; if (how == 2) x = d; if (how == 3) x = std::move(d); Dcel y = how == 0 ? Dcel(d) : how == 1 ? Dcel(std::move(d)) : x; Dcel& z = how < 2 ? y : x; z.calculate_point_sequences(); CHECK(z.get_polylines().size() == 1 && z.get_polygons().empty(), "open"); z.add_edge(e[last]); z.calculate_point_sequences(); CHECK(z.get_polylines().empty() && z.get_polygons().size() == 1, "closed"); CHECK(same_ring(z.get_polygons()[0], SQ, o), "closed"); }
static const Ring STAR = {{0, 0}, {3, 1}, {4, -2}, {5, 1}, {9, 0}, {6, 3}, {7, 6}, {4, 4}, {1, 7}, {2, 3}}, WAY = {{0, 0}, {1, 2}, {3, 2}, {3, 5}, {6, 4}, {7, 7}, {5, 9}, {8, 9}};
static void all_of(const std::vector<std::pair<Ring, bool>>& r, const std::vector<P2>& o, int k, bool one) { std::vector<S2> e, s; for (std::size_t i = 0; i < r.size(); ++i) { auto x = edges(r[i].first, r[i].second, o[i]); e.insert(e.end(), x.begin(), x.end()); } std::size_t n = e.size(), st = 1; for (int i = 0; i <= k; ++i) do ++st; while (std::__gcd(st, n) != 1); for (std::size_t i = 0; i < n; ++i) s.push_back(e[(i * st + k) % n]);
    Dcel d{Tol(1e-9)}; if (one) { for (auto& x : s) d.add_edge(x); d.calculate_point_sequences(); } else d = make_dcel<P2>(s, Tol(1e-9)); std::size_t rings = 0, lines = 0; for (std::size_t i = 0; i < r.size(); ++i) { bool f = false; if (r[i].second) { ++rings; for (auto& g_ : d.get_polygons()) f = f || same_ring(g_, r[i].first, o[i]); CHECK(f, "ring"); } else { ++lines; for (auto& g_ : d.get_polylines()) f = f || same_line(g_, r[i].first, o[i]); CHECK(f, "line"); } } CHECK(d.get_polygons().size() == rings && d.get_polylines().size() == lines, "counts"); }
SX_REAL(many_ring, "an outline of ten edges anywhere, in ten orders, whole or one by one") { P2 o = pt("o"); all_of({{STAR, true}}, {o}, sx_choose("p", 0, 9), sx_choose("one", 0, 1)); }
SX_REAL(many_line, "a polyline of eight vertices anywhere, in ten orders, whole or one by one") { P2 o = pt("o"); all_of({{WAY, false}}, {o}, sx_choose("p", 0, 9), sx_choose("one", 0, 1)); }
SX_REAL(many_mixed, "outlines of ten, five and three edges and polylines of eight and two vertices apart from each other, moved anywhere along x, in twelve orders") { double x = in("x"); all_of({{STAR, true}, {WAY, false}, {PEN, true}, {TRI, true}, {TWO, false}}, {P2(x, 0), P2(x + 20, 0), P2(x, 20), P2(x + 20, 20), P2(x + 40, 3)}, sx_choose("p", 0, 11), sx_choose("one", 0, 1)); }
SX_REAL(many_close, "five outlines of the same kind next to each other, the last at any distance that keeps them apart") { double x = in("x"); ASSUME_GT(x, 40.5); all_of({{TRI, true}, {TRI, true}, {SQ, true}, {SQ, true}, {PEN, true}}, {P2(0, 0), P2(8, 0), P2(16, 0), P2(24, 0), P2(x, 0)}, sx_choose("p", 0, 11), sx_choose("one", 0, 1)); }
SX_REAL(stepwise_many, "five outlines and two polylines anywhere along x, each added in whole or in part after the sequences of those before it were calculated, in seven orders") { double x = in("x"); std::vector<std::pair<Ring, bool>> r = {{TRI, true}, {LIN, false}, {SQ, true}, {PEN, true}, {TWO, false}, {STAR, true}, {TRI, true}}; int k = sx_choose("first", 0, 6), part = sx_choose("part", 0, 1); Dcel d{Tol(1e-9)}; std::size_t rings = 0, lines = 0;
    for (int i = 0; i < 7; ++i) { auto& c = r[(i + k) % 7]; P2 o(x + 20 * i, i); auto e = edges(c.first, c.second, o); for (std::size_t j = 0; j + 1 < e.size(); ++j) d.add_edge(e[j]); if (part && e.size() > 1) { d.calculate_point_sequences(); CHECK(d.get_polygons().size() == rings && d.get_polylines().size() == lines + 1, "open counts"); } d.add_edge(e.back()); d.calculate_point_sequences(); if (c.second) ++rings; else ++lines; CHECK(d.get_polygons().size() == rings && d.get_polylines().size() == lines, "counts"); bool f = false; if (c.second) { for (auto& g_ : d.get_polygons()) f = f || same_ring(g_, c.first, o); } else for (auto& g_ : d.get_polylines()) f = f || same_line(g_, c.first, o); CHECK(f, "found"); } }
