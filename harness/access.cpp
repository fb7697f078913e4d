// G28: containers of coordinates give back what was put in, under every access path.
#include "g.h"
#include <geometrix/utility/array.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <array>
#include <deque>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/deque_point_sequence.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/capsule.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/rectangle.hpp>
#include <geometrix/primitive/triangle.hpp>
#include <geometrix/tensor/vector_matrix_adaptors.hpp>
#include <boost/fusion/include/at_c.hpp>
#include <boost/fusion/include/for_each.hpp>
using namespace g;
typedef matrix<double, 2, 2> M2; typedef matrix<double, 3, 3> M3;
SX_REAL(alias_matrix, "every vector and matrix, the result assigned to an operand") {
    double a = in("a"), b = in("b"), c = in("c"), d = in("d"); V2 v = vec("v"), w = v; M2 m = {{{a, b}, {c, d}}};
    w = m * w; CHECK_EQ(w[0], a * v[0] + b * v[1], "x"); CHECK_EQ(w[1], c * v[0] + d * v[1], "y");
}
SX_REAL(alias_scalar, "every vector divided by its own coordinate") { V2 v = vec("v"), w = v, u = v, x = v; ASSUME_NE(v[0], 0.0); w = w / w[0]; CHECK_EQ(w[0], 1.0, "x"); CHECK_EQ(w[1] * v[0], v[1], "y"); u /= u[0]; CHECK_EQ(u[0], 1.0, "x="); CHECK_EQ(u[1] * v[0], v[1], "y="); x = x[0] * x; CHECK_EQ(x[0], v[0] * v[0], "x*"); CHECK_EQ(x[1], v[0] * v[1], "y*"); }
SX_REAL(alias_point, "every point") { P2 p = pt("p"), q = pt("q"), r = p; r = r + (r - q); CHECK_EQ(r[0], 2 * p[0] - q[0], "x"); CHECK_EQ(r[1], 2 * p[1] - q[1], "y"); }
SX_REAL(alias_compound, "every vector and matrix added to or taken from itself under the matrix; scaled by its own square") {
    double a = in("a"), b = in("b"), c = in("c"), d = in("d"); V2 v = vec("v"), w = v, u = v, x = v, y = v; M2 m = {{{a, b}, {c, d}}};
    w += m * w; CHECK_EQ(w[0], v[0] + a * v[0] + b * v[1], "+x"); CHECK_EQ(w[1], v[1] + c * v[0] + d * v[1], "+y"); u -= m * u; CHECK_EQ(u[0], v[0] - a * v[0] - b * v[1], "-x"); CHECK_EQ(u[1], v[1] - c * v[0] - d * v[1], "-y");
    x *= dot_product(x, x); CHECK_EQ(x[0], v[0] * (v[0] * v[0] + v[1] * v[1]), "*x"); CHECK_EQ(x[1], v[1] * (v[0] * v[0] + v[1] * v[1]), "*y"); ASSUME_GT(v[0] * v[0] + v[1] * v[1], 0.0); y /= magnitude_sqrd(y); CHECK_EQ(y[0] * (v[0] * v[0] + v[1] * v[1]), v[0], "/x"); CHECK_EQ(y[1] * (v[0] * v[0] + v[1] * v[1]), v[1], "/y");
}
SX_REAL(alias_cross, "every two vectors in space") { V3 v = vec3("v"), u = vec3("u"), w = v, x = v; w = w ^ u; x = u ^ x; for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; CHECK_EQ(w[i], v[j] * u[k] - v[k] * u[j], "left"); CHECK_EQ(x[i], u[j] * v[k] - u[k] * v[j], "right"); } }
SX_REAL(alias_rotation3, "every vector in space under every matrix") { double e[9]; for (int i = 0; i < 9; ++i) e[i] = in(nm("e", i)); M3 m = {{{e[0], e[1], e[2]}, {e[3], e[4], e[5]}, {e[6], e[7], e[8]}}}; V3 v = vec3("v"), w = v; w = m * w; for (int i = 0; i < 3; ++i) CHECK_EQ(w[i], e[3 * i] * v[0] + e[3 * i + 1] * v[1] + e[3 * i + 2] * v[2], "m"); }

// --- primitives
typedef polygon<P2> G; typedef polyline<P2> L; typedef polygon_with_holes<P2> H;
static G ring(const std::string& n, int k) { G g_; for (int i = 0; i < k; ++i) g_.push_back(pt(nm((n + "p").c_str(), i))); return g_; }
template <typename A, typename B> static void same_seq(const A& a, const B& b, const char* l) { CHECK(a.size() == b.size(), l); for (std::size_t i = 0; i < b.size(); ++i) check_same(a[i], b[i], l); }
SX_REAL(holes_lvalues, "any outline and hole, given as variables") { G o = ring("o", 3), h = ring("h", 3), k = ring("k", 4), o0 = o, h0 = h, k0 = k; H a; a.set_outer(o); a.add_hole(h); a.add_hole(k); same_seq(a.get_outer(), o0, "outer"); CHECK(a.get_holes().size() == 2, "holes"); same_seq(a.get_holes()[0], h0, "first"); same_seq(a.get_holes()[1], k0, "second"); same_seq(o, o0, "argument kept"); same_seq(h, h0, "argument kept"); same_seq(k, k0, "argument kept");
    const G& c = o; H b; b.set_outer(c); b.add_hole(c); same_seq(b.get_outer(), o0, "constant"); same_seq(b.get_holes()[0], o0, "constant"); H d; d.set_outer(G(o)); d.add_hole(G(h)); same_seq(d.get_outer(), o0, "temporary"); same_seq(d.get_holes()[0], h0, "temporary"); }
SX_REAL(holes_copies, "any outline and hole in every construction, copy, move and assignment") { G o = ring("o", 3), h = ring("h", 4); std::vector<G> hs(1, h); int how = sx_choose("how", 0, 8); std::vector<G> hs2 = hs; G o2 = o;
    H a = how == 0 ? H(o, hs) : how == 1 ? H(G(o), hs) : how == 2 ? H(o, std::move(hs2)) : how == 3 ? H(std::move(o2), std::move(hs2)) : H(o, hs); H b; if (how == 4) b = a; if (how == 5) b = H(a); H c(a), d(std::move(a)); if (how == 6) b = c; if (how == 7) b = std::move(c); if (how == 8) { b = d; b.set_outer(h); } if (how == 8) { same_seq(b.get_outer(), h, "replaced"); same_seq(d.get_outer(), o, "original kept"); return; }
    const H& r = how < 4 ? d : b; same_seq(r.get_outer(), o, "outer"); CHECK(r.get_holes().size() == 1, "holes"); same_seq(r.get_holes()[0], h, "hole"); same_seq(d.get_outer(), o, "moved"); H e(o); CHECK(e.get_holes().empty(), "no holes"); same_seq(e.get_outer(), o, "outline only"); }
SX_REAL(holes_onto, "assigning polygons with none, one or two holes onto others") { G o = ring("o", 3), h = ring("h", 3); int n = sx_choose("n", 0, 2), m = sx_choose("m", 0, 2), how = sx_choose("how", 0, 2); H a(o, std::vector<G>(n, h)), b(h, std::vector<G>(m, o)); if (how == 0) b = a; else if (how == 1) b = std::move(a); else { b = H(a); a = a; same_seq(a.get_outer(), o, "self"); CHECK((int)a.get_holes().size() == n, "self"); } same_seq(b.get_outer(), o, "outer"); CHECK((int)b.get_holes().size() == n, "holes"); for (auto& x : b.get_holes()) same_seq(x, h, "hole"); }
template <typename S> static void seqs() { G v = ring("v", 3), w = ring("w", 2); std::vector<P2> q(v.begin(), v.end()); S a(q), b(q.begin(), q.end()), c{v[0], v[1], v[2]}, d(a), e((std::vector<P2>(q))), f; f = a; S k(std::move(d)); S m; m = S(a); S n; n = q; S x; x = {w[0], w[1]}; S y(w.begin(), w.end()); y = std::vector<P2>(q); S z(2);
    same_seq(a, v, "vector"); same_seq(b, v, "iterators"); same_seq(c, v, "list"); same_seq(e, v, "moved vector"); same_seq(f, v, "assigned"); same_seq(k, v, "moved"); same_seq(m, v, "move assigned"); same_seq(n, v, "vector assigned"); same_seq(x, w, "list assigned"); same_seq(y, v, "moved vector assigned"); CHECK(z.size() == 2, "sized"); same_seq(construct<S>(q), v, "construct"); CHECK(number_vertices(a) == 3, "count"); check_same(get_vertex(a, 1), v[1], "vertex"); }
SX_REAL(polygon_copies, "any three and two points") { seqs<G>(); }
SX_REAL(polyline_copies, "any three and two points") { seqs<L>(); }
template <typename S> static void access_(S s, const G& v) { typedef point_sequence_traits<S> T; const S& c = s; CHECK(T::size(c) == v.size() && !T::empty(c), "size"); check_same(T::front(c), v.front(), "front"); check_same(T::back(c), v.back(), "back"); int i = 0; for (auto it = T::begin(c); it != T::end(c); ++it) check_same(*it, v[i++], "forward"); CHECK(i == (int)v.size(), "forward"); for (auto it = T::rbegin(c); it != T::rend(c); ++it) check_same(*it, v[--i], "backward"); CHECK(i == 0, "backward");
    for (std::size_t j = 0; j < v.size(); ++j) check_same(T::get_point(c, j), v[j], "indexed"); P2 n = pt("n"); T::get_point(s, 1) = n; check_same(T::get_point(c, 1), n, "written"); T::front(s) = n; T::back(s) = v[0]; check_same(*T::begin(s), n, "front written"); check_same(*T::rbegin(s), v[0], "back written"); }
SX_REAL(sequence_access, "any three points in five kinds of sequence") { G v = ring("v", 3); switch (sx_choose("k", 0, 4)) { case 0: access_(v, v); break; case 1: access_(L(v.begin(), v.end()), v); break; case 2: access_(std::vector<P2>(v), v); break; case 3: access_(std::deque<P2>(v.begin(), v.end()), v); break; default: access_(std::array<P2, 3>{{v[0], v[1], v[2]}}, v); } }
SX_REAL(segment_parts, "any ends") { P2 a = pt("a"), b = pt("b"), c = pt("c"); S2 s(a, b), t(s), u(a[0], a[1], b[0], b[1]), w = s.reverse(), x = make_segment(a, b), y = construct<S2>(a, b); check_same(get_start(s), a, "start"); check_same(get_end(s), b, "end"); check_same(u.get_start(), a, "coordinates"); check_same(u.get_end(), b, "coordinates"); check_same(w.get_start(), b, "reverse"); check_same(w.get_end(), a, "reverse"); check_same(x.get_end(), b, "make"); check_same(y.get_start(), a, "construct"); t.set_start(c); check_same(get_start(t), c, "set start"); check_same(get_end(t), b, "set start"); t.set_end(a); check_same(get_end(t), a, "set end"); check_same(get_start(s), a, "copy apart");
    std::array<P2, 2> q{{a, b}}; S2 z = construct<S2>(q); check_same(z.get_start(), a, "from pair"); check_same(z.get_end(), b, "from pair"); set_start(t, b); set_end(t, c); check_same(get_start(t), b, "free set"); check_same(get_end(t), c, "free set"); }
SX_REAL(round_parts, "any centre, ends and radius") { P2 a = pt("a"), b = pt("b"); double r = in("r"), q = in("q"); sphere<2, P2> s(a, r); check_same(get_center(s), a, "centre"); CHECK_EQ(get_radius(s), r, "radius"); s.set_center(b); s.set_radius(q); check_same(s.get_center(), b, "set centre"); CHECK_EQ(s.get_radius(), q, "set radius"); capsule<P2> c(a, b, r), d(S2(a, b), q), e = construct<capsule<P2>>(b, a, r); check_same(c.get_segment().get_start(), a, "capsule"); check_same(c.get_segment().get_end(), b, "capsule"); CHECK_EQ(c.get_radius(), r, "capsule"); check_same(d.get_segment().get_end(), b, "capsule of segment"); CHECK_EQ(d.get_radius(), q, "capsule of segment"); check_same(e.get_segment().get_start(), b, "construct"); auto m = make_sphere<2>(a, r); check_same(m.get_center(), a, "make"); }
SX_REAL(corner_parts, "any corners") { P2 a = pt("a"), b = pt("b"), c = pt("c"), d = pt("d"); rectangle<P2> r(a, b, c, d); G v{a, b, c, d}; same_seq(r, v, "rectangle"); rectangle<P2> s(std::array<P2, 4>{{d, c, b, a}}); check_same(s[0], d, "array"); check_same(point_sequence_traits<rectangle<P2>>::back(s), a, "traits"); triangle<P2> t(std::array<P2, 3>{{a, b, c}}), t2(c, a, b); check_same(t2[0], c, "triangle of points"); check_same(t2[2], b, "triangle of points"); G w{a, b, c}; same_seq(t, w, "triangle"); CHECK((point_sequence_traits<triangle<P2>>::size(t)) == 3, "size"); }
// --- tensors
template <typename T, std::size_t N> static void tens(const double* x, const double* y) { T a; for (std::size_t i = 0; i < N; ++i) a[i] = x[i]; T b(a); for (std::size_t i = 0; i < N; ++i) { CHECK_EQ(b[i], x[i], "copy"); CHECK_EQ(a.get(i), x[i], "run time index"); b.set(i, y[i]); CHECK_EQ(b[i], y[i], "set"); CHECK_EQ(a[i], x[i], "copy apart"); }
    CHECK_EQ(geometrix::get<0>(a), x[0], "get"); CHECK_EQ(geometrix::get<N - 1>(a), x[N - 1], "get"); CHECK_EQ(boost::fusion::at_c<N - 1>(a), x[N - 1], "fusion"); geometrix::set<N - 1>(a, y[0]); CHECK_EQ(a[N - 1], y[0], "static set"); T c = construct<T>(b), d; for (std::size_t i = 0; i < N; ++i) CHECK_EQ(c[i], y[i], "construct"); assign(d, b); for (std::size_t i = 0; i < N; ++i) CHECK_EQ(d[i], y[i], "assign"); }
SX_REAL(tensor_access, "all coordinates of points and vectors of two and three dimensions") { double x[4], y[4]; for (int i = 0; i < 4; ++i) { x[i] = in(nm("x", i)); y[i] = in(nm("y", i)); } switch (sx_choose("k", 0, 3)) { case 0: tens<P2, 2>(x, y); break; case 1: tens<P3, 3>(x, y); break; case 2: tens<V2, 2>(x, y); break; default: tens<V3, 3>(x, y); } }
SX_REAL(tensor_make, "all coordinates given one by one or at once") { double x = in("x"), y = in("y"), z = in("z"); P2 p = construct<P2>(x, y), p2; assign(p2, y, x); V3 v = construct<V3>(x, y, z), v2; assign(v2, z, x, y); P3 q(x, y, z); check_same(p, P2(x, y), "construct"); CHECK_EQ(p2[0], y, "assign"); CHECK_EQ(p2[1], x, "assign"); for (int i = 0; i < 3; ++i) { CHECK_EQ(v[i], i == 0 ? x : i == 1 ? y : z, "construct"); CHECK_EQ(v2[i], i == 0 ? z : i == 1 ? x : y, "assign"); CHECK_EQ(as_vector(q)[i], v[i], "as vector"); } V3 w = as_vector(q); P3 r = as_point(v); for (int i = 0; i < 3; ++i) { CHECK_EQ(w[i], v[i], "vector of point"); CHECK_EQ(r[i], v[i], "point of vector"); } }
SX_REAL(matrix_access, "all elements of 2x2, 3x3 and 2x3 matrices, rows and columns") { double e[9]; for (int i = 0; i < 9; ++i) e[i] = in(nm("e", i)); M3 m = {{{e[0], e[1], e[2]}, {e[3], e[4], e[5]}, {e[6], e[7], e[8]}}}; matrix<double, 2, 3> n = {{{e[0], e[1], e[2]}, {e[3], e[4], e[5]}}};
    CHECK_EQ((geometrix::get<0, 2>(m)), e[2], "02"); CHECK_EQ((geometrix::get<2, 0>(m)), e[6], "20"); CHECK_EQ((geometrix::get<1, 1>(m)), e[4], "11"); CHECK_EQ((geometrix::get<1, 2>(n)), e[5], "2x3"); CHECK_EQ((geometrix::get<0, 1>(n)), e[1], "2x3"); geometrix::row<M3, 1> r(m); geometrix::column<M3, 1> c(m); CHECK_EQ(geometrix::get<0>(r), e[3], "row"); CHECK_EQ(geometrix::get<2>(r), e[5], "row"); CHECK_EQ(geometrix::get<0>(c), e[1], "column"); CHECK_EQ(geometrix::get<2>(c), e[7], "column"); geometrix::row<matrix<double, 2, 3>, 1> r2(n); geometrix::column<matrix<double, 2, 3>, 2> c2(n); CHECK_EQ(geometrix::get<2>(r2), e[5], "row of 2x3"); CHECK_EQ(geometrix::get<1>(c2), e[5], "column of 2x3");
    M3 k = m; geometrix::set<1, 2>(k, e[0]); CHECK_EQ((geometrix::get<1, 2>(k)), e[0], "set"); CHECK_EQ((geometrix::get<2, 1>(k)), e[7], "others kept"); CHECK_EQ((geometrix::get<1, 2>(m)), e[5], "copy apart"); }
SX_REAL(vector_as_matrix, "any vector as a row and as a column") { V3 v = vec3("v"); auto c = as_column_vector(v); auto r = as_row_vector(v); CHECK_EQ((geometrix::get<0, 0>(c)), v[0], "column"); CHECK_EQ((geometrix::get<2, 0>(c)), v[2], "column"); CHECK_EQ((geometrix::get<0, 1>(r)), v[1], "row"); CHECK_EQ((geometrix::get<0, 2>(r)), v[2], "row"); double t = in("t"); geometrix::set<1, 0>(c, t); CHECK_EQ(v[1], t, "written through"); geometrix::set<0, 2>(r, t); CHECK_EQ(v[2], t, "written through"); }
SX_REAL(makers, "any points, directions and lengths: shapes made and constructed") { typedef sphere<2, P2> Round; P2 a = pt("a"), b = pt("b"), c = pt("c"), d = pt("d"); double r = in("r"); Round s = construct<Round>(a, r); check_same(s.get_center(), a, "sphere"); CHECK_EQ(s.get_radius(), r, "sphere"); capsule<P2> e = construct<capsule<P2>>(S2(a, b), r); check_same(e.get_segment().get_end(), b, "capsule"); CHECK_EQ(e.get_radius(), r, "capsule"); G v{a, b, c, d}; rectangle<P2> q = construct<rectangle<P2>>(a, b, c, d); same_seq(q, v, "rectangle"); G w; std::vector<P2> u{c, d}; w = u; check_same(w[0], c, "assigned"); check_same(w[1], d, "assigned"); CHECK(w.size() == 2, "assigned"); L l; l = u; check_same(l[1], d, "assigned"); CHECK(l.size() == 2, "assigned"); std::vector<P2> x = construct<std::vector<P2>>(v); same_seq(x, v, "vector"); std::deque<P2> y = construct<std::deque<P2>>(v); same_seq(y, v, "deque"); G z = construct<G>(x); same_seq(z, v, "polygon"); }
template <typename Ln> static void line_ok(const Ln& h, const P2& a, const V2& v, const char* l) { check_same(h.get_reference_point(), a, l); V2 p = h.get_parallel_vector(), n = h.get_normal_vector(); CHECK_EQ(p[0] * p[0] + p[1] * p[1], 1.0, l); CHECK_EQ(p[0] * v[1] - p[1] * v[0], 0.0, l); CHECK_GT(p[0] * v[0] + p[1] * v[1], 0.0, l); check_same(n, V2(-p[1], p[0]), l); CHECK_EQ(h.get_distance_to_origin(), n[0] * a[0] + n[1] * a[1], l); typedef line_access_traits<Ln> LT; check_same(LT::get_reference_point(h), a, l); check_same(LT::get_parallel_vector(h), p, l); check_same(LT::get_normal_vector(h), n, l); }
SX_REAL(line_parts, "any point and direction: lines made in six ways; direction and left normal of length one, the distance to the origin along the normal") { P2 a = pt("a"); V2 v = vec("v"); ASSUME(v[0] != 0 || v[1] != 0); P2 b = a + v; S2 s(a, b); switch (sx_choose("form", 0, 5)) { case 0: line_ok(line<P2>(a, v), a, v, "direction"); break; case 1: line_ok(line<P2>(a, b), a, v, "points"); break; case 2: line_ok(line<P2>(s), a, v, "segment"); break; case 3: line_ok(make_line(a, v), a, v, "make"); break; case 4: line_ok(make_line(s), a, v, "make from segment"); break; default: line_ok(construct<line<P2>>(a, v), a, v, "construct"); } }
