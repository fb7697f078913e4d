#include "g.h"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
#include <geometrix/algorithm/point_sequence/polyline_split.hpp>
#include <geometrix/algorithm/point_sequence/clip_polyline_ends.hpp>
using namespace g;
typedef polygon<P2> PG; typedef polyline<P2> PL; typedef std::vector<P2> VP;
static PL line_(const VP& v) { PL r; for (auto& p : v) r.push_back(p); return r; }
static PG poly(const VP& v) { PG r; for (auto& p : v) r.push_back(p); return r; }
// chains whose pieces have known lengths
struct Ch { VP v; std::vector<double> len; };
static Ch chain(int k) {
    Ch c; if (k == 0) { c.v = {P2(1, 2), P2(5, 2), P2(5, 5), P2(-2, 5), P2(-2, 1)}; c.len = {4, 3, 7, 4}; }
    else if (k == 1) { c.v = {P2(0, 0), P2(2, 0), P2(5, 0), P2(3, 0)}; c.len = {2, 3, 2}; }
    else if (k == 2) { c.v = {P2(0, 0), P2(3, 4), P2(3, 6), P2(-5, 0)}; c.len = {5, 2, 10}; }
    else if (k == 4) { c.v = {P2(0, 0), P2(3, 4), P2(3, 9), P2(9, 17), P2(9, 20), P2(5, 23), P2(5, 30), P2(-7, 35), P2(-7, 33)}; c.len = {5, 5, 10, 3, 5, 7, 13, 2}; }
    else { c.v = {P2(-1, 3), P2(-1, -4)}; c.len = {7}; }
    return c; }
static Ch box(double w, double h, double u) { Ch c; c.v = {P2(0, 0), P2(w, 0), P2(w, h), P2(w - u, h)}; c.len = {w, h, u}; return c; }
static double total(const Ch& c) { double s = 0; for (double l : c.len) s += l; return s; }
static P2 at(const Ch& c, std::size_t i, double off) { double t = off / c.len[i]; return along(c.v[i], c.v[i + 1], t); }
static void close(const P2& p, const P2& q, const char* l) { CHECK_LE(d2(p, q), 1e-18, l); }
static void same_chain(const PL& g, const VP& e, const char* l) { CHECK(g.size() == e.size(), l); if (g.size() == e.size()) for (std::size_t i = 0; i < e.size(); ++i) close(g[i], e[i], l); }
// expected pieces before and after position pos in [0,total]
static void cut(const Ch& c, double pos, VP& a, VP& b) { std::size_t i = 0; double s = 0; while (i < c.len.size() && s + c.len[i] <= pos) { a.push_back(c.v[i]); s += c.len[i]; ++i; } if (i == c.len.size()) { a.push_back(c.v[i]); b.push_back(c.v[i]); return; } a.push_back(c.v[i]); if (s < pos) { P2 x = at(c, i, pos - s); a.push_back(x); b.push_back(x); } else b.push_back(c.v[i]); for (std::size_t j = i + 1; j < c.v.size(); ++j) b.push_back(c.v[j]); }
SX_REAL(length, "polylines and polygons with 4 axis-parallel legs of any length") { double w = in("w", 0.001, 1000), h = in("h", 0.001, 1000), u = in("u", 0.001, 1000); auto c = box(w, h, u); CHECK_EQ(polyline_length(line_(c.v)), w + h + u, "polyline-length"); VP r{P2(0, 0), P2(w, 0), P2(w, h), P2(0, h)}; double per = polygon_length(poly(r)); CHECK_EQ(per, 2 * w + 2 * h, "polygon-length"); CHECK_EQ(polygon_length(poly(r)) - polyline_length(line_(r)), h, "closing-edge"); }
SX_REAL(segment_lengths, "3 legs of any length: the running lengths, up to the first beyond a cutoff") { double w = in("w", 0.001, 1000), h = in("h", 0.001, 1000), u = in("u", 0.001, 1000), t = in("t", 0, 4000); auto c = box(w, h, u); auto p = line_(c.v); auto g = polyline_segment_lengths(p); double e[3] = {w, w + h, w + h + u}; CHECK(g.size() == 3, "count"); for (int i = 0; i < 3; ++i) CHECK_EQ(g[i], e[i], "running"); auto q = polyline_segment_lengths(p, t); std::size_t n = e[0] > t ? 1 : e[1] > t ? 2 : 3; CHECK(q.size() == n, "cutoff"); auto z = polyline_segment_lengths(p.begin(), p.end(), t); CHECK(z.size() == n, "cutoff-range"); for (std::size_t i = 0; i < n; ++i) { CHECK_EQ(q[i], e[i], "cutoff-running"); CHECK_EQ(z[i], e[i], "cutoff-running"); } }
SX_REAL(mid_point, "3 legs of any length: both sides of the middle are equally long") { double w = in("w", 0.001, 1000), h = in("h", 0.001, 1000), u = in("u", 0.001, 1000); auto c = box(w, h, u); P2 m = polyline_mid_point(line_(c.v)); double pos = (w + h + u) / 2; VP a, b; cut(c, pos, a, b); close(m, b[0], "middle"); }
SX_REAL(mid_point_shapes, "5 chains of 1 to 8 legs moved anywhere") { int k = sx_choose("k", 0, 4); double x = in("x", -1000, 1000); auto c = chain(k); for (auto& p : c.v) p = P2(p[0] + x, p[1]); P2 m = polyline_mid_point(line_(c.v)); VP a, b; cut(c, total(c) / 2, a, b); close(m, b[0], "middle"); }
SX_REAL(position, "5 chains of 1 to 8 legs, any position inside: the index of the piece and the point on it, none on a vertex") {
    int k = sx_choose("k", 0, 4); auto c = chain(k); double pos = in("pos", 0, total(c)); std::size_t i = 0; double s = 0; while (i < c.len.size() && s + c.len[i] <= pos) { s += c.len[i]; ++i; } auto g = polyline_point_at_position(line_(c.v), pos); boost::optional<P2> o = std::get<1>(g);
    if (i == c.len.size()) { CHECK(!o, "end-none"); CHECK(std::get<0>(g) + 1 == i, "end-index"); return; } CHECK(std::get<0>(g) == i, "index"); if (s < pos) { CHECK((bool)o, "point"); if (o) close(*o, at(c, i, pos - s), "place"); } else CHECK(!o, "vertex-none"); }
SX_REAL(position_any_legs, "3 legs of any length, any position") { double w = in("w", 0.001, 1000), h = in("h", 0.001, 1000), u = in("u", 0.001, 1000); auto c = box(w, h, u); double pos = in("pos", 0, 3000); ASSUME_GE(total(c), pos); std::size_t i = 0; double s = 0; while (i < 3 && s + c.len[i] <= pos) { s += c.len[i]; ++i; } auto g = polyline_point_at_position(line_(c.v), pos); boost::optional<P2> o = std::get<1>(g); if (i == 3) { CHECK(!o, "end-none"); return; } CHECK(std::get<0>(g) == i, "index"); if (s < pos) { CHECK((bool)o, "point"); if (o) close(*o, at(c, i, pos - s), "place"); } else CHECK(!o, "vertex-none"); }
SX_REAL(split, "5 chains of 1 to 8 legs cut at any position from start to end: two chains that together are the input, the first of the given length") { int k = sx_choose("k", 0, 4); auto c = chain(k); double pos = in("pos", 0, total(c)); VP a, b; cut(c, pos, a, b); auto g = polyline_split(line_(c.v), pos); same_chain(std::get<0>(g), a, "before"); same_chain(std::get<1>(g), b, "after"); }
SX_REAL(split_any_legs, "3 legs of any length cut anywhere") { double w = in("w", 0.001, 1000), h = in("h", 0.001, 1000), u = in("u", 0.001, 1000); auto c = box(w, h, u); double pos = in("pos", 0, 3000); ASSUME_GE(total(c), pos); VP a, b; cut(c, pos, a, b); auto g = polyline_split(line_(c.v), pos); same_chain(std::get<0>(g), a, "before"); same_chain(std::get<1>(g), b, "after"); }
SX_REAL(clip_front, "5 chains of 1 to 8 legs clipped at the front by any length: what remains, nothing once the whole is gone") { int k = sx_choose("k", 0, 4); auto c = chain(k); double l = in("l", 0, 60); auto p = line_(c.v); auto g = clip_polyline_front(p, l, Exact()); auto z = clip_polyline_front<PL>(p.begin(), p.end(), l, Exact()); VP a, b; if (l < total(c)) cut(c, l, a, b); same_chain(g, b, "rest"); same_chain(z, b, "rest-range"); }
SX_REAL(clip_back, "the same at the back") { int k = sx_choose("k", 0, 4); auto c = chain(k); double l = in("l", 0, 60); Ch r = c; std::reverse(r.v.begin(), r.v.end()); std::reverse(r.len.begin(), r.len.end()); auto g = clip_polyline_back(line_(c.v), l, Exact()); VP a, b; if (l < total(c)) cut(r, l, a, b); std::reverse(b.begin(), b.end()); same_chain(g, b, "rest"); }
SX_REAL(clip_ends, "5 chains of 1 to 8 legs clipped at both ends by any length") { int k = sx_choose("k", 0, 4); auto c = chain(k); double l = in("l", 0, 60); auto g = clip_polyline_ends(line_(c.v), l, Exact()); double T = total(c); if (2 * l >= T) { CHECK(g.size() == 0, "all-gone"); return; } VP a, b; cut(c, T - l, a, b); Ch f; f.v = a; double s = 0; for (std::size_t i = 0; i + 1 < a.size(); ++i) { double d = c.len[i]; if (i + 2 == a.size()) d = T - l - s; f.len.push_back(d); s += d; } VP x, y; cut(f, l, x, y); same_chain(g, y, "middle"); }
SX_REAL(characteristics, "5 chains of 1 to 8 legs, any point of any piece: lengths before and after it, and the first piece that holds it") { int k = sx_choose("k", 0, 4); auto c = chain(k); int i = sx_choose("i", 0, (int)c.len.size() - 1); double t = in("t", 0, 1); P2 p = along(c.v[i], c.v[i + 1], t); auto g = point_on_polyline_length_characteristics(line_(c.v), p, Tol(1e-10)); std::size_t ix = std::get<2>(g).value(); double pre = std::get<0>(g).value(), post = std::get<1>(g).value(); CHECK(ix <= (std::size_t)i, "first-piece"); if (ix > (std::size_t)i) return; double s = 0; for (std::size_t m = 0; m < ix; ++m) s += c.len[m]; double off = pre - s; CHECK_LE(off, c.len[ix] + 1e-9, "on-piece"); CHECK_GE(off, -1e-9, "on-piece"); P2 q = at(c, ix, off); CHECK_LE(d2(q, p), 1e-17, "before"); double sum = pre + post - total(c); CHECK_LE(sum, 1e-9, "sum"); CHECK_GE(sum, -1e-9, "sum"); }
SX_REAL(characteristics_off, "any point off the chain: no piece, and the full length before it") { int k = sx_choose("k", 0, 4); auto c = chain(k); P2 p = pt("p", -20, 20); for (std::size_t i = 0; i < c.len.size(); ++i) { double a = cr(c.v[i], c.v[i + 1], p), d = dt(c.v[i], c.v[i + 1], p), L = c.len[i] * c.len[i]; bool away = a > 1e-3 || a < -1e-3 || d < -1e-2 || d > L + 1e-2; ASSUME(away); } auto g = point_on_polyline_length_characteristics(line_(c.v), p, Tol(1e-10)); CHECK(std::get<2>(g).value() == (std::numeric_limits<std::size_t>::max)(), "no-piece"); double pre = std::get<0>(g).value(); CHECK_EQ(pre, total(c), "full-length"); }

SX_REAL(length_many, "outlines of 10 axis-parallel edges of any lengths: the sum of the edges, closed and open") { double w = in("w", 0.001, 1000), h = in("h", 0.001, 1000); VP v{P2(0, 0), P2(5 * w, 0), P2(5 * w, h), P2(4 * w, h), P2(4 * w, 2 * h), P2(3 * w, 2 * h), P2(3 * w, 3 * h), P2(2 * w, 3 * h), P2(2 * w, 4 * h), P2(0, 4 * h)}; double p = polygon_length(poly(v)), q = polyline_length(line_(v)); CHECK_EQ(p, 10 * w + 8 * h, "polygon-length"); CHECK_EQ(q, 10 * w + 4 * h, "polyline-length"); }
