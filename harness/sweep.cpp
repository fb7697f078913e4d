// G25: the plane sweep reporting segment intersections.
#include "g.h"
#include <set>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/algebra/exterior_product.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/bentley_ottmann_segment_intersection.hpp>
using namespace g;
typedef std::vector<S2> Ss;
struct Event { P2 p; Ss s; };
struct Collect { std::vector<Event>* v; template <class P, class I> void operator()(const P& p, I f, I l) const { Event e; e.p = p; for (; f != l; ++f) e.s.push_back(**f); v->push_back(e); } };
static bool same(const P2& a, const P2& b) { return a[0] == b[0] && a[1] == b[1]; }
static bool same(const S2& a, const S2& b) { return (same(a.get_start(), b.get_start()) && same(a.get_end(), b.get_end())) || (same(a.get_start(), b.get_end()) && same(a.get_end(), b.get_start())); }
static int sg(double x) { return x > eps ? 1 : x < -eps ? -1 : 0; }
static bool on(const S2& s, const P2& p) { P2 a = s.get_start(), b = s.get_end(); if (sg(cr(a, b, p)) != 0) return false; double d = dt(a, b, p); return d >= -eps && d <= d2(a, b) + eps; }
static int common(const S2& s, const S2& t) { P2 a = s.get_start(), b = s.get_end(), c = t.get_start(), d = t.get_end(); int p = sg(cr(a, b, c)), q = sg(cr(a, b, d)); if (p == 0 && q == 0) { double u = dt(a, b, c), v = dt(a, b, d), l = d2(a, b), lo = u < v ? u : v, hi = u < v ? v : u; lo = lo > 0 ? lo : 0; hi = hi < l ? hi : l; return sg(hi - lo) + 1; } if (p * q > 0) return 0; return sg(cr(c, d, a)) * sg(cr(c, d, b)) > 0 ? 0 : 1; }
static void sweep(const Ss& s) { std::vector<Event> e; bentley_ottmann_segment_intersection(s, Collect{&e}, strict());
    for (std::size_t i = 0; i < e.size(); ++i) { CHECK(e[i].s.size() > 1, "several"); for (auto& x : e[i].s) CHECK(on(x, e[i].p), "on"); if (i) CHECK(e[i - 1].p[0] < e[i].p[0] || (e[i - 1].p[0] == e[i].p[0] && e[i - 1].p[1] < e[i].p[1]), "ordered"); }
    for (std::size_t i = 0; i < s.size(); ++i) for (std::size_t j = i + 1; j < s.size(); ++j) { int n = 0; for (auto& x : e) { int c = 0; bool a = false, b = false; for (auto& y : x.s) { if (!a && same(y, s[i])) a = true; else if (!b && same(y, s[j])) b = true; (void)c; } n += a && b; } int k = common(s[i], s[j]); CHECK(k == 0 ? n == 0 : k == 1 ? n == 1 : n >= 2, k == 0 ? "apart" : k == 1 ? "point" : "overlap"); } }
static S2 given(int k) { switch (k) { case 0: return S2(P2(0, 0), P2(4, 0)); case 1: return S2(P2(2, 3), P2(2, -1)); case 2: return S2(P2(3, 2), P2(-1, -2)); default: return S2(P2(0, 3), P2(4, 1)); } }
SX_REAL(sweep_two, "one of four segments and any other segment, either first") { int k = sx_choose("given", 0, 3), f = sx_choose("order", 0, 1); P2 a = pt("a"), b = pt("b"); distinct(a, b); Ss s{given(k), S2(a, b)}; if (f) std::swap(s[0], s[1]); sweep(s); }
SX_REAL(sweep_three, "two of four segments and a third with a free end") { int k = sx_choose("first", 0, 2), l = sx_choose("second", 1, 3); if (k >= l) return; P2 b = pt("b"), a(1, 1); distinct(a, b); sweep(Ss{given(k), S2(a, b), given(l)}); }
SX_REAL(sweep_four, "a square's sides and a segment with a free end") { P2 b = pt("b"), a(1, 2); distinct(a, b); sweep(Ss{S2(P2(0, 0), P2(4, 0)), S2(P2(4, 0), P2(4, 4)), S2(P2(4, 4), P2(0, 4)), S2(P2(0, 4), P2(0, 0)), S2(a, b)}); }
SX_REAL(sweep_star, "three or four segments through one point and one with a free end") { P2 b = pt("b"), a(-3, -1); distinct(a, b); Ss s{S2(P2(-2, 0), P2(2, 0)), S2(P2(0, 2), P2(0, -2)), S2(P2(-1, -1), P2(2, 2))}; if (sx_choose("more", 0, 1)) s.push_back(S2(P2(-1, 2), P2(1, -2))); s.insert(s.begin() + 1, S2(a, b)); sweep(s); }
SX_REAL(sweep_collinear, "three segments of one line, horizontal, vertical or slanted, one with free ends") { int d = sx_choose("dir", 0, 2); double u = in("u"), v = in("v"); ASSUME_LT(u, v); auto P = [&](double t) { return d == 0 ? P2(t, 1) : d == 1 ? P2(1, t) : P2(t, 2 * t); }; sweep(Ss{S2(P(0), P(2)), S2(P(v), P(u)), S2(P(3), P(5))}); }
SX_REAL(sweep_cross_free, "three segments, one moved freely") { P2 t = pt("t"); int k = sx_choose("dir", 0, 3); static const int d[4][2] = {{3, 0}, {0, 3}, {2, 1}, {-1, 3}}; sweep(Ss{given(0), given(1), S2(t, P2(t[0] + d[k][0], t[1] + d[k][1]))}); }
// ten segments: crossings, a common end, an end on another, two on one line, a vertical, a horizontal
static Ss web() { return Ss{S2(P2(0, 0), P2(10, 3)), S2(P2(1, 6), P2(9, -2)), S2(P2(2, -3), P2(2, 7)), S2(P2(-1, 5), P2(11, 5)), S2(P2(4, 5), P2(6, -4)), S2(P2(10, 3), P2(5, 8)), S2(P2(-2, -1), P2(3, 7)), S2(P2(7, -3), P2(11, 6)), S2(P2(0, -2), P2(4, -2)), S2(P2(3, -2), P2(6, -2))}; }
static void web_with(const S2& m) { auto s = web(); int r = sx_choose("order", 0, 2); s.insert(s.begin() + 3, m); if (r == 1) std::reverse(s.begin(), s.end()); if (r == 2) for (std::size_t i = 0; i < s.size(); i += 2) s[i] = S2(s[i].get_end(), s[i].get_start()); sweep(s); }
SX_REAL(sweep_many_slid, "ten segments that meet in many ways and one slid along x, five directions, three orders") { double x = in("x", -4, 12); int k = sx_choose("dir", 0, 4); static const int d[5][2] = {{0, 9}, {3, 8}, {-4, 7}, {5, 0}, {6, 2}}; double y = k < 3 ? -3.5 : k == 3 ? 1.25 : 2; web_with(S2(P2(x, y), P2(x + d[k][0], y + d[k][1]))); }
SX_REAL(sweep_many_turned, "the same and one with an end anywhere on a line, three lines, three orders") { double u = in("u", -6, 14); int k = sx_choose("line", 0, 2); P2 b = k == 0 ? P2(u, 6.5) : k == 1 ? P2(8.5, u) : P2(u, u / 2 - 1); P2 a(4.5, 1.5); distinct(a, b); web_with(S2(a, b)); }
SX_REAL(sweep_grid, "four by four lines, one of them slid or all of one direction turned") { Ss s; int k = sx_choose("which", 0, 3); double u = in("u", -2, 5); for (int i = 0; i < 4; ++i) s.push_back(S2(P2(-3, i + (i == 1 && k == 0 ? u : 0)), P2(6, i + (i == 1 && k == 1 ? u : 0)))); for (int i = 0; i < 4; ++i) s.push_back(S2(P2(i, -3), P2(i + (k == 2 && i == 2 ? u : k == 3 ? u / 8 : 0), 6))); sweep(s); }
// a vertex where i pieces end, j begin and k pass through, and bystanders above and below that meet past it
SX_REAL(sweep_vertex, "a point where none to three segments end, begin or pass, between two that meet beyond it wherever they start") { int i = sx_choose("ending", 0, 3), j = sx_choose("beginning", 0, 3), k = sx_choose("passing", 0, 5), r = sx_choose("order", 0, 1); if (i + j + k < 2) return; Ss s; P2 o(0, 0); static const int y[5] = {1, -2, 0, 3, -4}; for (int n = 0; n < i; ++n) s.push_back(S2(P2(-8, y[n] * 1.5 + 0.5), o)); for (int n = 0; n < j; ++n) s.push_back(S2(o, P2(8, y[n] * 1.25 - 0.25))); for (int n = 0; n < k; ++n) s.push_back(S2(P2(-6, y[n]), P2(6, -y[n]))); double u = in("u", -12, -0.5); s.insert(s.begin() + 1, S2(P2(u, 7), P2(14, -1))); s.push_back(S2(P2(-3, -7), P2(13, 1))); if (r) { std::reverse(s.begin(), s.end()); for (auto& x : s) x = S2(x.get_end(), x.get_start()); } sweep(s); }
