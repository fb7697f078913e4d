// G01/G03: the vector and point algebra is the algebra of its coordinates.
#include "g.h"
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/algebra/exterior_product.hpp>
#include <geometrix/algebra/vector_projection.hpp>
#include <geometrix/arithmetic/vector/bisect.hpp>
#include <geometrix/arithmetic/vector/lerp.hpp>
#include <geometrix/arithmetic/vector/is_antiparallel.hpp>
#include <geometrix/utility/utilities.hpp>
using namespace g;
// --- expressions
SX_REAL(expr_add2, "any vectors of the plane") { V2 a = vec("a"), b = vec("b"), c = vec("c"), r; r <<= a + b; check_same(r, V2(a[0]+b[0], a[1]+b[1]), "sum"); r <<= a - b; check_same(r, V2(a[0]-b[0], a[1]-b[1]), "difference");
    r <<= -a; check_same(r, V2(-a[0], -a[1]), "negate"); r <<= a - (b - c); check_same(r, V2(a[0]-b[0]+c[0], a[1]-b[1]+c[1]), "nested"); V2 q = a + b; check_same(q, V2(a[0]+b[0], a[1]+b[1]), "construct-from-expression"); }
SX_REAL(expr_add3, "any vectors of space") { V3 a = vec3("a"), b = vec3("b"), c = vec3("c"), r; r <<= a + b; check_same(r, V3(a[0]+b[0], a[1]+b[1], a[2]+b[2]), "sum"); r <<= a - b; check_same(r, V3(a[0]-b[0], a[1]-b[1], a[2]-b[2]), "difference");
    r <<= -a; check_same(r, V3(-a[0], -a[1], -a[2]), "negate"); r <<= (a - b) - c; check_same(r, V3(a[0]-b[0]-c[0], a[1]-b[1]-c[1], a[2]-b[2]-c[2]), "nested"); }
SX_REAL(expr_scale, "any vectors of space and two scalars, either side") { V3 a = vec3("a"), b = vec3("b"), r; double s = in("s"), t = in("t"); r <<= s * a; check_same(r, V3(s*a[0], s*a[1], s*a[2]), "scalar-times-vector"); r <<= a * s; check_same(r, V3(s*a[0], s*a[1], s*a[2]), "vector-times-scalar");
    r <<= s * (a - b); check_same(r, V3(s*(a[0]-b[0]), s*(a[1]-b[1]), s*(a[2]-b[2])), "distributes"); r <<= s * a + t * b; check_same(r, V3(s*a[0]+t*b[0], s*a[1]+t*b[1], s*a[2]+t*b[2]), "linear-combination"); }
SX_REAL(expr_divide, "any vector and any non-zero scalar") { V2 a = vec("a"), r; double s = in("s"); ASSUME(s != 0); r <<= a / s; CHECK_EQ(r[0] * s, a[0], "x"); CHECK_EQ(r[1] * s, a[1], "y"); }
SX_REAL(expr_point2, "any points and vector of the plane") { P2 p = pt("p"), q = pt("q"); V2 v = vec("v"); P2 r; V2 w; r <<= p + v; check_same(r, P2(p[0]+v[0], p[1]+v[1]), "point-plus-vector"); r <<= p - v; check_same(r, P2(p[0]-v[0], p[1]-v[1]), "point-minus-vector");
    w <<= q - p; check_same(w, V2(q[0]-p[0], q[1]-p[1]), "point-minus-point"); r <<= p + (q - p); check_same(r, q, "p+(q-p)=q"); double s = in("s"); r <<= p + s * (q - p); check_same(r, along(p, q, s), "affine-combination"); }
SX_REAL(expr_point3, "any points and vector of space") { P3 p = pt3("p"), q = pt3("q"); V3 v = vec3("v"); P3 r; V3 w; r <<= p + v; check_same(r, P3(p[0]+v[0], p[1]+v[1], p[2]+v[2]), "point-plus-vector"); r <<= p - v; check_same(r, P3(p[0]-v[0], p[1]-v[1], p[2]-v[2]), "point-minus-vector");
    w <<= q - p; check_same(w, V3(q[0]-p[0], q[1]-p[1], q[2]-p[2]), "point-minus-point"); double s = in("s"); r <<= p + s * (q - p); check_same(r, along(p, q, s), "affine-combination"); }
SX_REAL(expr_alias, "assigning to one of the operands") { V3 a = vec3("a"), b = vec3("b"), a0 = a; a <<= a + b; check_same(a, V3(a0[0]+b[0], a0[1]+b[1], a0[2]+b[2]), "target-is-operand"); V3 e = a; double s = in("s"); a <<= s * a; check_same(a, V3(s*e[0], s*e[1], s*e[2]), "scale-in-place"); }
SX_REAL(expr_alias_cross, "assigning a cross product to one of its operands") { V3 a = vec3("a"), b = vec3("b"), e = a; a <<= a ^ b; check_same(a, V3(e[1]*b[2]-e[2]*b[1], e[2]*b[0]-e[0]*b[2], e[0]*b[1]-e[1]*b[0]), "target-is-operand"); }
SX_REAL(expr_dot, "any vectors of the plane and of space") { V3 a = vec3("a"), b = vec3("b"); double d; d <<= a * b; double e = a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; CHECK_EQ(d, e, "operator"); CHECK_EQ(dot_product(a, b), e, "dot_product"); V2 p = vec("p"), q = vec("q"); d <<= p * q; CHECK_EQ(d, p[0]*q[0]+p[1]*q[1], "2d"); CHECK_EQ(dot_product(p, q), p[0]*q[0]+p[1]*q[1], "2d-function");
    CHECK_EQ(dot_product(a - b, b), (a[0]-b[0])*b[0] + (a[1]-b[1])*b[1] + (a[2]-b[2])*b[2], "of-expression"); }
SX_REAL(expr_cross, "any vectors of space") { V3 a = vec3("a"), b = vec3("b"), r; V3 e(a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]); r <<= a ^ b; check_same(r, e, "operator"); r <<= b ^ a; check_same(r, V3(-e[0], -e[1], -e[2]), "anticommutes"); double d; d <<= (a ^ b) * a; CHECK_EQ(d, 0.0, "orthogonal-to-first"); d <<= (a ^ b) * b; CHECK_EQ(d, 0.0, "orthogonal-to-second");
    CHECK_EQ(e[0]*e[0]+e[1]*e[1]+e[2]*e[2], dot_product(r, r), "length"); }
SX_REAL(expr_area_volume, "any two vectors of the plane, any three of space") { V2 a = vec("a"), b = vec("b"); CHECK_EQ(exterior_product_area(a, b), cr(a[0], a[1], b[0], b[1]), "area"); V3 u = vec3("u"), v = vec3("v"), w = vec3("w"); double e = u[0]*(v[1]*w[2]-v[2]*w[1]) - u[1]*(v[0]*w[2]-v[2]*w[0]) + u[2]*(v[0]*w[1]-v[1]*w[0]); CHECK_EQ(exterior_product_volume(u, v, w), e, "volume"); }
SX_REAL(expr_reciprocal, "any vector without a zero coordinate") { V3 a = vec3("a"), k; ASSUME(a[0] != 0 && a[1] != 0 && a[2] != 0); k <<= rec(a); for (int i = 0; i < 3; ++i) CHECK_EQ(k[i] * a[i], 1.0, "reciprocal"); }
SX_REAL(expr_mag, "any vector") { V3 a = vec3("a"); double m = magnitude(a), e; e <<= mag(a); CHECK_GE(m, 0.0, "sign"); CHECK_EQ(m*m, a[0]*a[0]+a[1]*a[1]+a[2]*a[2], "3d"); CHECK_EQ(e, m, "expression"); V2 b = vec("b"); double n = magnitude(b); CHECK_GE(n, 0.0, "sign"); CHECK_EQ(n*n, b[0]*b[0]+b[1]*b[1], "2d"); CHECK_EQ(magnitude_sqrd(a), a[0]*a[0]+a[1]*a[1]+a[2]*a[2], "squared"); }
SX_REAL(expr_as, "any point and vector") { P3 p = pt3("p"); V3 v = vec3("v"), r; P3 q; r <<= as_vector(p) + v; check_same(r, V3(p[0]+v[0], p[1]+v[1], p[2]+v[2]), "as_vector"); q <<= as_point(v) + v; check_same(q, P3(2*v[0], 2*v[1], 2*v[2]), "as_point"); }
// --- helpers
SX_REAL(help_normalize2, "any non-zero vector of the plane") { V2 a = vec("a"); ASSUME_GT(a[0]*a[0]+a[1]*a[1], 0.0); V2 n = normalize(a); CHECK_EQ(n[0]*n[0]+n[1]*n[1], 1.0, "unit"); CHECK_EQ(cr(a[0], a[1], n[0], n[1]), 0.0, "parallel"); CHECK_GT(a[0]*n[0]+a[1]*n[1], 0.0, "direction"); }
SX_REAL(help_normalize3, "any non-zero vector of space") { V3 a = vec3("a"); ASSUME_GT(a[0]*a[0]+a[1]*a[1]+a[2]*a[2], 0.0); V3 n = normalize(a); double m = magnitude(a); for (int i = 0; i < 3; ++i) CHECK_EQ(n[i] * m, a[i], "parallel"); }
SX_REAL(help_norm_expr, "any non-zero vector") { V2 a = vec("a"), n; ASSUME_GT(a[0]*a[0]+a[1]*a[1], 0.0); n <<= norm(a); double m = magnitude(a); CHECK_EQ(n[0]*m, a[0], "x"); CHECK_EQ(n[1]*m, a[1], "y"); CHECK_EQ(normal_at_index<0>(a)*m, a[0], "at-0"); CHECK_EQ(normal_at_index<1>(a)*m, a[1], "at-1"); }
SX_REAL(help_normals, "any vector") { V2 a = vec("a"); check_same(left_normal(a), V2(-a[1], a[0]), "left"); check_same(right_normal(a), V2(a[1], -a[0]), "right"); check_same(perp(a), V2(-a[1], a[0]), "perp"); check_same(oriented_normal<oriented_left>(a), V2(-a[1], a[0]), "oriented-left"); check_same(oriented_normal<oriented_right>(a), V2(a[1], -a[0]), "oriented-right"); }
SX_REAL(help_projection, "any vector on any non-zero vector") { V2 a = vec("a"), b = vec("b"); ASSUME_GT(b[0]*b[0]+b[1]*b[1], 0.0); V2 p = vector_projection(a, b); CHECK_EQ(cr(b[0], b[1], p[0], p[1]), 0.0, "along-target"); CHECK_EQ((a[0]-p[0])*b[0] + (a[1]-p[1])*b[1], 0.0, "residual-orthogonal"); }
SX_REAL(help_scalar_projection, "any vector on any unit vector") { V3 a = vec3("a"), u = vec3("u"); ASSUME_EQ(u[0]*u[0]+u[1]*u[1]+u[2]*u[2], 1.0); double s = scalar_projection(a, u); CHECK_EQ(s, a[0]*u[0]+a[1]*u[1]+a[2]*u[2], "component"); }
SX_REAL(help_lerp, "two unit vectors and a fraction, where the blend does not vanish") { V2 a = unit("a"), b = unit("b"); double t = in("t", 0, 1); double x = a[0]+t*(b[0]-a[0]), y = a[1]+t*(b[1]-a[1]); ASSUME_GT(x*x+y*y, 0.0); V2 r = lerp(a, b, t); CHECK_EQ(cr(x, y, r[0], r[1]), 0.0, "parallel"); CHECK_GT(x*r[0]+y*r[1], 0.0, "direction"); }
SX_REAL(help_antiparallel, "two directions with any lengths") { V2 a = unit("a"), b = unit("b"); double la = in("la", 0.001, 1000), lb = in("lb", 0.001, 1000); bool e = a[0] == -b[0] && a[1] == -b[1]; bool r = is_antiparallel(V2(a[0]*la, a[1]*la), V2(b[0]*lb, b[1]*lb), Exact()); CHECK(r == e, "iff"); }
static void bis(V2 a, V2 b, double la, double lb, bool strict) {
    V2 lo(a[0]*la, a[1]*la), hi(b[0]*lb, b[1]*lb); V2 r = strict ? bisect_not_antiparallel(lo, hi) : bisect(lo, hi);
    CHECK_EQ(r[0]*r[0]+r[1]*r[1], 1.0, "unit"); CHECK_EQ(r[0]*a[0]+r[1]*a[1], r[0]*b[0]+r[1]*b[1], "equal-angles");
    double c = cr(a[0], a[1], b[0], b[1]), d = a[0]*b[0]+a[1]*b[1];
    if (c > 0 || (c == 0 && d < 0)) { CHECK_GE(cr(a[0], a[1], r[0], r[1]), 0.0, "between"); CHECK_GE(cr(r[0], r[1], b[0], b[1]), 0.0, "between"); }   // at most half a turn from lo to hi
    else { double rx = -r[0], ry = -r[1]; CHECK_LE(rx*(-a[0])+ry*(-a[1]), rx*a[0]+ry*a[1], "reflex"); } // more than half a turn: opposite side
}
SX_REAL(help_bisect, "two directions with any lengths: the unit vector at equal angles, in the counterclockwise sweep from the first to the second") { V2 a = unit("a"), b = unit("b"); double la = in("la", 0.001, 1000), lb = in("lb", 0.001, 1000); bis(a, b, la, lb, false); }
SX_REAL(help_bisect_strict, "the same, not collinear") { V2 a = unit("a"), b = unit("b"); double la = in("la", 0.001, 1000), lb = in("lb", 0.001, 1000); ASSUME(cr(a[0], a[1], b[0], b[1]) != 0); bis(a, b, la, lb, true); }
SX_REAL(help_vector_between, "three directions, no two collinear: between exactly when met in the counterclockwise sweep") { V2 a = vec("a"), b = vec("b"), c = vec("c"); double ab = cr(a[0],a[1],b[0],b[1]), ac = cr(a[0],a[1],c[0],c[1]), cb = cr(c[0],c[1],b[0],b[1]); ASSUME(ab != 0 && ac != 0 && cb != 0); 
    bool e = ab > 0 ? (ac > 0 && cb > 0) : !(cr(b[0],b[1],c[0],c[1]) > 0 && cr(c[0],c[1],a[0],a[1]) > 0); CHECK(is_vector_between(a, b, c, true, Exact()) == e, "iff-in-ccw-sweep"); CHECK(is_vector_between(a, b, c, false, Exact()) == e, "strict-same-inside"); }
SX_REAL(help_vector_between_bounds, "the sweep's own bounds, with any length") { V2 a = vec("a"), b = vec("b"); double s = in("s", 0.001, 1000); ASSUME(cr(a[0],a[1],b[0],b[1]) != 0); V2 c(a[0]*s, a[1]*s), d(b[0]*s, b[1]*s); CHECK(is_vector_between(a, b, c, true, Exact()), "first-included"); CHECK(!is_vector_between(a, b, c, false, Exact()), "first-excluded"); CHECK(is_vector_between(a, b, d, true, Exact()), "second-included"); CHECK(!is_vector_between(a, b, d, false, Exact()), "second-excluded"); }
SX_REAL(help_vector_between_opposite, "opposite bounds: between exactly when to the left of the first") { V2 a = vec("a"), c = vec("c"); double s = in("s", 0.001, 1000); double ac = cr(a[0], a[1], c[0], c[1]); ASSUME_NE(ac, 0.0); V2 b(-a[0] * s, -a[1] * s); bool inc = sx_choose("ends", 0, 1); CHECK(is_vector_between(a, b, c, inc, Exact()) == (ac > 0.0), "half-turn"); }
SX_REAL(help_vector_between_behind, "a direction opposite to the first bound: between exactly when the second bound is past it") { V2 a = vec("a"), b = vec("b"); double s = in("s", 0.001, 1000); double ab = cr(a[0], a[1], b[0], b[1]); ASSUME_NE(ab, 0.0); V2 c(-a[0] * s, -a[1] * s); bool inc = sx_choose("ends", 0, 1); CHECK(is_vector_between(a, b, c, inc, Exact()) == (ab < 0.0), "half-turn"); }
SX_REAL(help_lerp_any, "any two vectors and any fraction, where the blend does not vanish") { V2 a = vec("a"), b = vec("b"); double t = in("t", 0, 1); double x = a[0]+t*(b[0]-a[0]), y = a[1]+t*(b[1]-a[1]); ASSUME_GT(x*x+y*y, 0.0); V2 r = lerp(a, b, t); CHECK_EQ(cr(x, y, r[0], r[1]), 0.0, "parallel"); CHECK_GT(x*r[0]+y*r[1], 0.0, "direction"); CHECK_EQ(r[0]*r[0]+r[1]*r[1], 1.0, "unit"); }
SX_REAL(expr_convert, "any vectors: the named forms of an expression: converted, cast, copied; reciprocal") { V3 a = vec3("a"), b = vec3("b"), r; check_same(as<V3>(a + b), V3(a[0]+b[0], a[1]+b[1], a[2]+b[2]), "as-vector"); CHECK_EQ(as<double>(a * b), a[0]*b[0] + a[1]*b[1] + a[2]*b[2], "as-number"); r <<= expr_cast<V3>(a - b); check_same(r, V3(a[0]-b[0], a[1]-b[1], a[2]-b[2]), "cast"); V3 q; q <<= b; check_same(q, b, "copy");
    P3 p = pt3("p"); check_same(as<P3>(p + a), P3(p[0]+a[0], p[1]+a[1], p[2]+a[2]), "as-point"); ASSUME(a[0] != 0 && a[1] != 0 && a[2] != 0); r <<= reciprocal(a); for (int i = 0; i < 3; ++i) CHECK_EQ(r[i] * a[i], 1.0, "reciprocal"); }
