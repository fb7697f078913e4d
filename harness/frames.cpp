// G23: coordinates in another frame name the same point; homogeneous coordinates.
#include "g.h"
#include <geometrix/utility/array.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/tensor/matrix_traits.hpp>
#include <geometrix/arithmetic/matrix_arithmetic.hpp>
#include <geometrix/tensor/homogeneous_adaptor.hpp>
#include <geometrix/space/cartesian_reference_frame.hpp>
#include <geometrix/space/polar_reference_frame.hpp>
#include <geometrix/space/reference_frame_adaptor.hpp>
#include <geometrix/space/reference_frame_transformation.hpp>
#include <geometrix/space/cartesian_polar_transformation.hpp>
#include <geometrix/space/polar_cartesian_transformation.hpp>
#include <geometrix/space/cartesian_access_traits.hpp>
#include <geometrix/space/polar_access_traits.hpp>
using namespace g;
static void close(double a, double b, const char* l) { CHECK_LE(a - b, 1e-9, l); CHECK_LE(b - a, 1e-9, l); } // the axes are rounded constants
typedef reference_frame_adaptor<P2, cartesian_reference_frame_2d> C2; typedef reference_frame_adaptor<P3, cartesian_reference_frame_3d> C3;
typedef reference_frame_adaptor<P2, polar_reference_frame_2d> O2; typedef reference_frame_adaptor<P3, polar_reference_frame_3d> O3;
SX_REAL(to_polar2, "any point to 1000 of the plane but the origin") { P2 p = pt("p", -1000, 1000); ASSUME_GT(p[0]*p[0] + p[1]*p[1], 0.0); O2 o{C2(p)}; double r = o.get<0>(), a = o.get<1>(); CHECK_GE(r, 0.0, "radius"); CHECK_EQ(r * r, p[0]*p[0] + p[1]*p[1], "radius"); close(r * std::cos(a), p[0], "x"); close(r * std::sin(a), p[1], "y"); }
SX_REAL(to_cartesian2, "any radius and angle") { double r = in("r"), a = in("a", -7, 7); C2 c{O2(P2(r, a))}; CHECK_EQ(c.get<0>(), r * std::cos(a), "x"); CHECK_EQ(c.get<1>(), r * std::sin(a), "y"); }
SX_REAL(round_trip2, "any point to 1000 of the plane but the origin, there and back") { P2 p = pt("p", -1000, 1000); ASSUME_GT(p[0]*p[0] + p[1]*p[1], 0.0); C2 c{O2{C2(p)}}; close(c.get<0>(), p[0], "x"); close(c.get<1>(), p[1], "y"); }
SX_REAL(same_frame, "any point keeps its coordinates in its own frame") { P2 p = pt("p"); P3 q = pt3("q"); C2 c(p), d(c); O2 o(p), u(o); CHECK_EQ(c.get<0>(), p[0], "x"); CHECK_EQ(d.get<1>(), p[1], "y"); CHECK_EQ(o.get<0>(), p[0], "radius"); CHECK_EQ(u.get<1>(), p[1], "angle"); C3 e(q); CHECK_EQ(e.get<0>(), q[0], "x"); CHECK_EQ(e.get<2>(), q[2], "z"); }
SX_REAL(to_polar3, "any point to 1000 of space off the axis") { P3 p = P3(in("x", -1000, 1000), in("y", -1000, 1000), in("z", -1000, 1000)); double h = p[0]*p[0] + p[1]*p[1]; ASSUME_GT(h, 0.0); O3 o{C3(p)}; double r = o.get<0>(), a = o.get<1>(), b = o.get<2>(); CHECK_GE(r, 0.0, "radius"); CHECK_EQ(r * r, h + p[2]*p[2], "radius"); close(r * std::cos(b), p[2], "z"); CHECK_GE(std::sin(b), -1e-9, "inclination"); close(r * std::sin(b) * std::cos(a), p[0], "x"); close(r * std::sin(b) * std::sin(a), p[1], "y"); }
SX_REAL(to_cartesian3, "any radius and angles") { double r = in("r"), a = in("a", -7, 7), b = in("b", -7, 7); C3 c{O3(P3(r, a, b))}; CHECK_EQ(c.get<2>(), r * std::cos(b), "z"); CHECK_EQ(c.get<0>(), r * std::sin(b) * std::cos(a), "x"); CHECK_EQ(c.get<1>(), r * std::sin(b) * std::sin(a), "y"); }
SX_REAL(round_trip3, "any point to 1000 of space off the axis, there and back") { P3 p = P3(in("x", -1000, 1000), in("y", -1000, 1000), in("z", -1000, 1000)); ASSUME_GT(p[0]*p[0] + p[1]*p[1], 0.0); C3 c{O3{C3(p)}}; close(c.get<0>(), p[0], "x"); close(c.get<1>(), p[1], "y"); close(c.get<2>(), p[2], "z"); }
SX_REAL(homogeneous2, "any affine map of the plane: points move, vectors do not") { geometrix::matrix<double, 3, 3> m = {{{in("a"), in("b"), in("c")}, {in("d"), in("e"), in("f")}, {0, 0, 1}}}; P2 p = pt("p"), q; V2 v = vec("v"), w; q = m * as_positional_homogeneous<double>(p); check_same(q, P2(m[0][0]*p[0] + m[0][1]*p[1] + m[0][2], m[1][0]*p[0] + m[1][1]*p[1] + m[1][2]), "point"); w = m * as_vectoral_homogeneous<double>(v); check_same(w, V2(m[0][0]*v[0] + m[0][1]*v[1], m[1][0]*v[0] + m[1][1]*v[1]), "vector"); auto h = as_positional_homogeneous<double>(p); CHECK(geometrix::get<0>(h) == p[0] && geometrix::get<1>(h) == p[1] && geometrix::get<2>(h) == 1, "position"); auto k = as_vectoral_homogeneous<double>(v); CHECK(geometrix::get<0>(k) == v[0] && geometrix::get<1>(k) == v[1] && geometrix::get<2>(k) == 0, "direction"); }
SX_REAL(homogeneous3, "a map of space: the same") { geometrix::matrix<double, 4, 4> m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) m[i][j] = in("m" + std::to_string(i) + std::to_string(j)); m[3][0] = m[3][1] = m[3][2] = 0; m[3][3] = 1; P3 p = pt3("p"), q; V3 v = vec3("v"), w; q = m * as_positional_homogeneous<double>(p); w = m * as_vectoral_homogeneous<double>(v); for (int i = 0; i < 3; ++i) { CHECK_EQ(q[i], m[i][0]*p[0] + m[i][1]*p[1] + m[i][2]*p[2] + m[i][3], "point"); CHECK_EQ(w[i], m[i][0]*v[0] + m[i][1]*v[1] + m[i][2]*v[2], "vector"); } }
SX_REAL(homogeneous_product, "two affine maps applied as one") { geometrix::matrix<double, 3, 3> m = {{{in("a"), in("b"), in("c")}, {in("d"), in("e"), in("f")}, {0, 0, 1}}}, n = {{{in("g"), in("h"), in("i")}, {in("j"), in("k"), in("l")}, {0, 0, 1}}}; P2 p = pt("p"), q, r, s; r = (m * n) * as_positional_homogeneous<double>(p); q = n * as_positional_homogeneous<double>(p); s = m * as_positional_homogeneous<double>(q); check_same(r, s, "point"); }
SX_REAL(named_cartesian, "any point, by the name of the coordinate") { P2 p = pt("p"); P3 q = pt3("q"); C2 c(p); C3 e(q); CHECK_EQ(get_x(c).value(), p[0], "x"); CHECK_EQ(get_y(c).value(), p[1], "y"); CHECK_EQ(get_x(e).value(), q[0], "x-space"); CHECK_EQ(get_y(e).value(), q[1], "y-space"); CHECK_EQ(get_z(e).value(), q[2], "z-space"); double r = in("r"), a = in("a", -7, 7); O2 o(P2(r, a)); CHECK_EQ(get_r(o).value(), r, "radius"); CHECK_EQ(get_theta(o).value(), a, "angle"); CHECK_EQ(get_x(o).value(), r * std::cos(a), "x-of-polar"); CHECK_EQ(get_y(o).value(), r * std::sin(a), "y-of-polar"); }
SX_REAL(named_polar, "any point to 1000 off the origin, by the name of the coordinate") { P2 p = pt("p", -1000, 1000); ASSUME_GT(p[0]*p[0] + p[1]*p[1], 0.0); C2 c(p); double r = get_r(c).value(), a = get_theta(c).value(); CHECK_GE(r, 0.0, "radius"); CHECK_EQ(r * r, p[0]*p[0] + p[1]*p[1], "radius"); close(r * std::cos(a), p[0], "x"); close(r * std::sin(a), p[1], "y"); }
SX_REAL(named_space, "any radius and angles, by the name of the coordinate") { double r = in("r"), a = in("a", -7, 7), b = in("b", -7, 7); O3 o(P3(r, a, b)); CHECK_EQ(get_r(o).value(), r, "radius"); CHECK_EQ(get_theta(o).value(), a, "azimuth"); CHECK_EQ(get_phi(o).value(), b, "inclination"); CHECK_EQ(get_z(o).value(), r * std::cos(b), "z"); CHECK_EQ(get_x(o).value(), r * std::sin(b) * std::cos(a), "x"); CHECK_EQ(get_y(o).value(), r * std::sin(b) * std::sin(a), "y"); }
