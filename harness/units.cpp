// G27: geometry over dimensioned numbers gives the numbers of plain geometry.
#include "g.h"
#include <geometrix/utility/array.hpp>
#include <queue>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/algebra/exterior_product.hpp>
#include <geometrix/numeric/boost_units_quantity.hpp>
#include <geometrix/arithmetic/boost_units_arithmetic.hpp>
#include <boost/units/systems/si.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
using namespace g;
typedef boost::units::quantity<boost::units::si::length, double> Metre; typedef boost::units::quantity<boost::units::si::dimensionless, double> Plain; typedef point<Metre, 2> UP; typedef vector<Metre, 2> UV; typedef segment<UP> US;
GEOMETRIX_DEFINE_POINT_TRAITS(UP, (Metre), 2, Plain, Metre, neutral_reference_frame_2d, index_operator_vector_access_policy<UP>);
typedef boost::units::quantity<boost::units::si::plane_angle, double> Angle; typedef mapped_tolerance_comparison_policy<absolute_tolerance_comparison_policy<double>, boost::fusion::pair<Angle, relative_tolerance_comparison_policy<double>>> Pol;
static Pol pol() { return Pol(absolute_tolerance_comparison_policy<double>(1e-9), boost::fusion::make_pair<Angle>(relative_tolerance_comparison_policy<double>(1e-9))); }
static UP up(const P2& p) { return UP(p[0] * boost::units::si::meter, p[1] * boost::units::si::meter); }
static US us(const S2& s) { return US(up(s.get_start()), up(s.get_end())); }
template <typename T> static void same_pt(const UP& p, const T& q, const char* l) { CHECK_EQ(p[0].value(), q[0], l); CHECK_EQ(p[1].value(), q[1], l); }
SX_REAL(units_vectors, "every two points and vectors of lengths") {
    P2 a = pt("a"), b = pt("b"), c = pt("c"); V2 u = b - a, w = c - a; UV uu = up(b) - up(a), uw = up(c) - up(a); double k = in("k");
    CHECK_EQ(uu[0].value(), u[0], "difference"); CHECK_EQ(uu[1].value(), u[1], "difference"); CHECK_EQ(dot_product(uu, uw).value(), dot_product(u, w), "dot"); CHECK_EQ(exterior_product_area(uu, uw).value(), exterior_product_area(u, w), "area");
    UP p = up(a) + k * uu; CHECK_EQ(p[0].value(), a[0] + k * u[0], "point"); CHECK_EQ(p[1].value(), a[1] + k * u[1], "point"); UV s = uu + uw; CHECK_EQ(s[0].value(), u[0] + w[0], "sum"); UV m = -uu; CHECK_EQ(m[1].value(), -u[1], "minus");
    CHECK_EQ(magnitude_sqrd(uu).value(), u[0] * u[0] + u[1] * u[1], "square"); CHECK_EQ(point_point_distance_sqrd(up(a), up(b)).value(), d2(a, b), "distance");
    CHECK_EQ(magnitude(uu).value(), std::sqrt(d2(a, b)), "magnitude");
}
SX_REAL(units_orientation, "every three points") { P2 a = pt("a"), b = pt("b"), c = pt("c"); CHECK(get_orientation(up(a), up(b), up(c), pol()) == get_orientation(a, b, c, pol()), "orientation"); }
SX_REAL(units_intersection, "a horizontal segment and every other") { double w = in("w", 1, 4); S2 s(P2(0, 0), P2(w, 0)); P2 c = pt("c"), d = pt("d"); S2 t(c, d); distinct(c, d); P2 x[2]; UP y[2]; auto r = segment_segment_intersection(s, t, x, pol()); auto q = segment_segment_intersection(us(s), us(t), y, pol()); CHECK(r == q, "kind"); if (r != e_non_crossing) same_pt(y[0], x[0], "point"); if (r == e_overlapping) same_pt(y[1], x[1], "second"); }
SX_REAL(units_closest, "a segment and every point") { double w = in("w", 1, 4); S2 s(P2(0, 0), P2(w, 1)); P2 p = pt("p"); CHECK_EQ(point_segment_distance_sqrd(up(p), us(s)).value(), point_segment_distance_sqrd(p, s), "distance"); same_pt(point_segment_closest_point(up(p), us(s)), point_segment_closest_point(p, s), "closest"); }
SX_REAL(units_in_polygon, "a concave pentagon and every point") { polygon<P2> g_{P2(0, 0), P2(4, 0), P2(4, 3), P2(2, 1), P2(0, 3)}; polygon<UP> h; for (auto& p : g_) h.push_back(up(p)); P2 p = pt("p"); CHECK(point_in_polygon(up(p), h) == point_in_polygon(p, g_), "in"); }
SX_REAL(units_measures, "a quadrilateral with a free corner") { polygon<P2> g_{P2(0, 0), P2(4, 0), pt("p"), P2(0, 3)}; polygon<UP> h; for (auto& p : g_) h.push_back(up(p)); CHECK_EQ(get_area(h).value(), get_area(g_), "area"); ASSUME_GT(get_signed_area(g_), 0.5); auto c = get_centroid(g_); auto d = get_centroid(h); CHECK_EQ(d[0].value(), c[0], "centroid"); CHECK_EQ(d[1].value(), c[1], "centroid"); }
SX_REAL(units_plain, "sums and differences of a plain number with a dimensionless quantity, either side; powers; conversion between numbers and quantities") { double x = in("x"), y = in("y"); Plain p(x); CHECK_EQ((p + y).value(), x + y, "add"); CHECK_EQ((y + p).value(), x + y, "add-left"); CHECK_EQ((p - y).value(), x - y, "subtract"); CHECK_EQ((y - p).value(), y - x, "subtract-left");
    CHECK_EQ(construct<Metre>(x).value(), x, "make"); CHECK_EQ(construct<const Metre>(y).value(), y, "make-const"); Metre m = x * boost::units::si::meter; CHECK_EQ(construct<Metre>(m).value(), x, "same"); CHECK_EQ(construct<double>(m), x, "number"); CHECK_EQ(construct<double>(y), y, "number"); }
