// Types of other libraries and of users, declared to be points, vectors and matrices
#include "g.h"
#include <geometrix/utility/array.hpp>
#include <boost/tuple/tuple.hpp>
#include <geometrix/primitive/point_traits.hpp>
#include <geometrix/tensor/vector_traits.hpp>
#include <geometrix/tensor/tuple_vector_access_policy.hpp>
#include <geometrix/tensor/fusion_vector_access_policy.hpp>
#include <geometrix/tensor/index_operator_vector_access_policy.hpp>
#include <geometrix/utility/member_function_fusion_adaptor.hpp>
#include <geometrix/space/neutral_reference_frame.hpp>
#include <geometrix/space/cartesian_reference_frame.hpp>
#include <geometrix/tensor/numeric_sequence.hpp>
#include <geometrix/tensor/fusion_vector.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/tensor/fusion_matrix.hpp>
#include <geometrix/tensor/index_operator_matrix_access_policy.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/algorithm/orientation.hpp>

// accessors by name
struct MemberPoint { MemberPoint(double x = 0, double y = 0, double z = 0) : a(x), b(y), c(z) {} const double& get_x() const { return a; } const double& get_y() const { return b; } const double& get_z() const { return c; } double& get_x() { return a; } double& get_y() { return b; } double& get_z() { return c; } void set_x(const double& v) { a = v; } void set_y(const double& v) { b = v; } void set_z(const double& v) { c = v; } double a, b, c; };
GEOMETRIX_MEMBER_FUNCTION_FUSION_SEQUENCE(MemberPoint, (double&, const double&, get_x, set_x)(double&, const double&, get_y, set_y)(double&, const double&, get_z, set_z));
GEOMETRIX_DEFINE_POINT_TRAITS(MemberPoint, (double), 3, double, double, cartesian_reference_frame_3d, fusion_vector_member_function_access_policy<MemberPoint>);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_CONSTRUCTION_POLICY(MemberPoint, 3);
// accessor by index
struct IndexedVector { IndexedVector(double x = 0, double y = 0, double z = 0) { m[0] = x; m[1] = y; m[2] = z; } const double& get(std::size_t i) const { return m[i]; } void set(std::size_t i, const double& v) { m[i] = v; } double m[3]; };
GEOMETRIX_INDEXED_MEMBER_FUNCTION_FUSION_SEQUENCE(IndexedVector, double, get, 3);
GEOMETRIX_DEFINE_VECTOR_TRAITS(IndexedVector, (double), 3, double, double, neutral_reference_frame_3d, fusion_vector_access_policy<IndexedVector>);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_CONSTRUCTION_POLICY(IndexedVector, 3);
struct StaticVector { StaticVector(double x = 0, double y = 0, double z = 0) { m[0] = x; m[1] = y; m[2] = z; } template <int I> double item() const { return m[I]; } double m[3]; };
GEOMETRIX_COMPILE_INDEXED_MEMBER_FUNCTION_FUSION_SEQUENCE(StaticVector, double, item, 3);
GEOMETRIX_DEFINE_VECTOR_TRAITS(StaticVector, (double), 3, double, double, neutral_reference_frame_3d, fusion_vector_access_policy<StaticVector>);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_CONSTRUCTION_POLICY(StaticVector, 3);
// tuples
typedef boost::tuple<double, double> Tuple2; typedef boost::tuple<double, double, double> Tuple3;
struct TuplePoint2 : Tuple2 { TuplePoint2(double x = 0, double y = 0) : Tuple2(x, y) {} };
GEOMETRIX_DEFINE_POINT_TRAITS(TuplePoint2, (double), 2, double, double, neutral_reference_frame_2d, tuple_vector_access_policy<TuplePoint2>);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_CONSTRUCTION_POLICY(TuplePoint2, 2);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_ASSIGNMENT_POLICY(TuplePoint2, 2);
struct TupleVector2 : Tuple2 { TupleVector2(double x = 0, double y = 0) : Tuple2(x, y) {} };
GEOMETRIX_DEFINE_VECTOR_TRAITS(TupleVector2, (double), 2, double, double, neutral_reference_frame_2d, tuple_vector_access_policy<TupleVector2>);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_CONSTRUCTION_POLICY(TupleVector2, 2);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_ASSIGNMENT_POLICY(TupleVector2, 2);
struct TuplePoint3 : Tuple3 { TuplePoint3(double x = 0, double y = 0, double z = 0) : Tuple3(x, y, z) {} };
GEOMETRIX_DEFINE_POINT_TRAITS(TuplePoint3, (double), 3, double, double, neutral_reference_frame_3d, tuple_vector_access_policy<TuplePoint3>);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_CONSTRUCTION_POLICY(TuplePoint3, 3);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_ASSIGNMENT_POLICY(TuplePoint3, 3);
struct TupleVector3 : Tuple3 { TupleVector3(double x = 0, double y = 0, double z = 0) : Tuple3(x, y, z) {} };
GEOMETRIX_DEFINE_VECTOR_TRAITS(TupleVector3, (double), 3, double, double, neutral_reference_frame_3d, tuple_vector_access_policy<TupleVector3>);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_CONSTRUCTION_POLICY(TupleVector3, 3);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_ASSIGNMENT_POLICY(TupleVector3, 3);
// subscripts
struct SubPoint { SubPoint(double x = 0, double y = 0, double z = 0) : p(3) { p[0] = x; p[1] = y; p[2] = z; } const double& operator[](std::size_t i) const { return p[i]; } double& operator[](std::size_t i) { return p[i]; } std::vector<double> p; };
GEOMETRIX_DEFINE_POINT_TRAITS(SubPoint, (double), 3, double, double, neutral_reference_frame_3d, index_operator_vector_access_policy<SubPoint>);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_CONSTRUCTION_POLICY(SubPoint, 3);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_ASSIGNMENT_POLICY(SubPoint, 3);
struct FusedPoint { FusedPoint(double x = 0, double y = 0, double z = 0) { p[0] = x; p[1] = y; p[2] = z; } const double& operator[](std::size_t i) const { return p[i]; } double& operator[](std::size_t i) { return p[i]; } double p[3]; };
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(FusedPoint, double, 3);
GEOMETRIX_DEFINE_POINT_TRAITS(FusedPoint, (double), 3, double, double, neutral_reference_frame_3d, fusion_vector_access_policy<FusedPoint>);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_CONSTRUCTION_POLICY(FusedPoint, 3);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_ASSIGNMENT_POLICY(FusedPoint, 3);
GEOMETRIX_FUSION_POD_VECTOR(PodVector, (double)(double)(double), double, neutral_reference_frame_3d)
struct SubMatrix { std::vector<std::vector<double>> r; SubMatrix(double a = 0, double b = 0, double c = 0, double d = 0, double e = 0, double f = 0, double g = 0, double h = 0, double i = 0) : r{{a, b, c}, {d, e, f}, {g, h, i}} {} const std::vector<double>& operator[](std::size_t k) const { return r[k]; } std::vector<double>& operator[](std::size_t k) { return r[k]; } };
GEOMETRIX_DEFINE_HOMOGENEOUS_MATRIX_TRAITS(SubMatrix, double, 3, 3, double, index_operator_matrix_access_policy<SubMatrix>)
GEOMETRIX_FUSION_POD_MATRIX(PodMatrix, ((double, double))((double, double)), 2, 2)
struct WideMatrix { std::vector<std::vector<double>> r; WideMatrix() : r(2, std::vector<double>(3)) {} const std::vector<double>& operator[](std::size_t k) const { return r[k]; } std::vector<double>& operator[](std::size_t k) { return r[k]; } };
GEOMETRIX_DEFINE_HOMOGENEOUS_MATRIX_TRAITS(WideMatrix, double, 2, 3, double, index_operator_matrix_access_policy<WideMatrix>)
GEOMETRIX_FUSION_POD_MATRIX(PodWide, ((double, double, double))((double, double, double)), 2, 3)
struct PodPoint { double x, y, z; const double& operator[](std::size_t i) const { return i == 0 ? x : i == 1 ? y : z; } double& operator[](std::size_t i) { return i == 0 ? x : i == 1 ? y : z; } };
GEOMETRIX_DEFINE_POINT_TRAITS(PodPoint, (double), 3, double, double, neutral_reference_frame_3d, index_operator_vector_access_policy<PodPoint>);
GEOMETRIX_DEFINE_POD_NUMERIC_SEQUENCE_CONSTRUCTION_POLICY(PodPoint, 3);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_ASSIGNMENT_POLICY(PodPoint, 3);
using namespace geometrix; using namespace g;

template <typename T> double at(const T& t, int i) { return i == 0 ? geometrix::get<0>(t) : i == 1 ? geometrix::get<1>(t) : geometrix::get<2>(t); }
template <typename T> void check3(const T& t, double a, double b, double c, const char* l) { CHECK_EQ(geometrix::get<0>(t), a, l); CHECK_EQ(geometrix::get<1>(t), b, l); CHECK_EQ(geometrix::get<2>(t), c, l); }
template <typename T> void check2(const T& t, double a, double b, const char* l) { CHECK_EQ(geometrix::get<0>(t), a, l); CHECK_EQ(geometrix::get<1>(t), b, l); }
template <typename T> void access3(double a, double b, double c, double d) {
    T p(construct<T>(a, b, c)); check3(p, a, b, c, "made"); geometrix::set<1>(p, d); check3(p, a, d, c, "second"); geometrix::set<0>(p, d); check3(p, d, d, c, "first"); geometrix::set<2>(p, b); check3(p, d, d, b, "third"); T q(p); geometrix::set<0>(q, a); check3(p, d, d, b, "copy"); check3(q, a, d, b, "copied"); }
template <typename P> void points3(const P3& u, const P3& v, const V3& w, double t) {
    P p(construct<P>(u[0], u[1], u[2])), q(construct<P>(v[0], v[1], v[2]));
    check3(construct<V3>(p - q), u[0] - v[0], u[1] - v[1], u[2] - v[2], "difference"); check3(construct<V3>(p - v), u[0] - v[0], u[1] - v[1], u[2] - v[2], "difference-mixed"); check3(construct<V3>(u - q), u[0] - v[0], u[1] - v[1], u[2] - v[2], "difference-mixed");
    check3(construct<P>(p + w), u[0] + w[0], u[1] + w[1], u[2] + w[2], "moved"); check3(construct<P>(p + t * (q - p)), u[0] + t * (v[0] - u[0]), u[1] + t * (v[1] - u[1]), u[2] + t * (v[2] - u[2]), "between");
    CHECK_EQ(point_point_distance_sqrd(p, q), d2(u, v), "distance"); CHECK_EQ(point_point_distance_sqrd(p, v), d2(u, v), "distance-mixed"); CHECK_EQ(point_point_distance_sqrd(u, q), d2(u, v), "distance-mixed");
    check3(construct<P>(v), v[0], v[1], v[2], "from-point"); check3(construct<P3>(q), v[0], v[1], v[2], "to-point"); }
SX_REAL(member_access, "any coordinates") { double a = in("a"), b = in("b"), c = in("c"), d = in("d"); const MemberPoint p(construct<MemberPoint>(a, b, c)); check3(p, a, b, c, "made"); MemberPoint q(p); check3(q, a, b, c, "copy"); q.set_y(d); check3(q, a, d, c, "second"); CHECK_EQ((double)boost::fusion::at_c<2>(p), c, "fusion"); boost::fusion::at_c<0>(q).set(d); check3(q, d, d, c, "first"); check3(p, a, b, c, "source"); }
SX_REAL(tuple_access, "any coordinates") { double a = in("a"), b = in("b"), c = in("c"), d = in("d"); access3<TuplePoint3>(a, b, c, d); access3<TupleVector3>(a, b, c, d); TuplePoint2 p(construct<TuplePoint2>(a, b)); geometrix::set<1>(p, c); check2(p, a, c, "pair"); }
SX_REAL(subscript_access, "any coordinates") { double a = in("a"), b = in("b"), c = in("c"), d = in("d"); access3<SubPoint>(a, b, c, d); FusedPoint p(construct<FusedPoint>(a, b, c)); check3(p, a, b, c, "fused"); p[1] = d; check3(p, a, d, c, "fused-second"); }
SX_REAL(member_points, "any points and vectors") { points3<MemberPoint>(pt3("p"), pt3("q"), vec3("w"), in("t")); }
SX_REAL(tuple_points, "any points and vectors") { points3<TuplePoint3>(pt3("p"), pt3("q"), vec3("w"), in("t")); }
SX_REAL(subscript_points, "any points and vectors") { P3 p = pt3("p"), q = pt3("q"); V3 w = vec3("w"); double t = in("t"); points3<SubPoint>(p, q, w, t); points3<FusedPoint>(p, q, w, t); }

// planar algorithms over tuples
template <typename P> void flat(const P2& a, const P2& b, const P2& c) { P p(construct<P>(a[0], a[1])), q(construct<P>(b[0], b[1])), r(construct<P>(c[0], c[1])); Exact cmp; double k = cr(a, b, c);
    auto o = get_orientation(p, q, r, cmp); CHECK((o == oriented_left) == (k > 0.0), "left"); CHECK((o == oriented_right) == (k < 0.0), "right"); CHECK_EQ(point_point_distance_sqrd(p, b), d2(a, b), "distance"); CHECK_EQ(exterior_product_area(construct<V2>(q - p), construct<V2>(r - p)), k, "area"); }
SX_REAL(tuple_plane, "any three points") { P2 a = pt("a"), b = pt("b"), c = pt("c"); flat<TuplePoint2>(a, b, c); }
SX_REAL(tuple_segment, "any point and a segment along the first axis") { double x = in("x"), y = in("y"), l = in("l"); ASSUME_GT(l, 0.0); segment<TuplePoint2> s(TuplePoint2(0, 0), TuplePoint2(l, 0)); double d = point_segment_distance_sqrd(TuplePoint2(x, y), s); double e = x < 0.0 ? sq(x) + sq(y) : x > l ? sq(x - l) + sq(y) : sq(y); CHECK_EQ(d, e, "distance"); check2(get_start(s), 0, 0, "start"); check2(get_end(s), l, 0, "end"); }
SX_REAL(tuple_polygon, "any point and triangle of tuples with its base on the first axis") { double l = in("l"), u = in("u"), v = in("v"); ASSUME_GT(l, 0.0); ASSUME_GT(v, 0.0); double x = in("x"), y = in("y"); polygon<TuplePoint2> t{TuplePoint2(0, 0), TuplePoint2(l, 0), TuplePoint2(u, v)}; bool inside = y > 0.0 && cr(l - 0.0, 0.0, x, y) > 0.0 && cr(u - l, v, x - l, y) > 0.0 && cr(-u, -v, x - u, y - v) > 0.0; bool outside = y < 0.0 || cr(u - l, v, x - l, y) < 0.0 || cr(-u, -v, x - u, y - v) < 0.0; bool r = point_in_polygon(TuplePoint2(x, y), t); if (inside) CHECK(r, "inside"); if (outside) CHECK(!r, "outside"); }
SX_REAL(tuple_crossing, "any segment against a segment along the first axis, not parallel") { double l = in("l"); ASSUME_GT(l, 0.0); P2 a = pt("a"), b = pt("b"); ASSUME_NE(a[1], b[1]); TuplePoint2 x[2]; auto t = segment_segment_intersection(TuplePoint2(a[0], a[1]), TuplePoint2(b[0], b[1]), TuplePoint2(0, 0), TuplePoint2(l, 0), x, Exact()); bool meet = (a[1] <= 0.0 && b[1] >= 0.0) || (a[1] >= 0.0 && b[1] <= 0.0); double at = a[0] + (b[0] - a[0]) * a[1] / (a[1] - b[1]); CHECK((t != e_non_crossing) == (meet && at >= 0.0 && at <= l), "found"); if (t != e_non_crossing) { CHECK_EQ(geometrix::get<0>(x[0]), at, "x"); CHECK_EQ(geometrix::get<1>(x[0]), 0.0, "y"); } }
// vectors
template <typename V> void vectors3(const V3& a, const V3& b, double t) { V u(construct<V>(a[0], a[1], a[2])), v(construct<V>(b[0], b[1], b[2])); double d = a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
    CHECK_EQ(dot_product(u, v), d, "dot"); CHECK_EQ(dot_product(u, b), d, "dot-mixed"); CHECK_EQ(dot_product(a, v), d, "dot-mixed"); check3(construct<V3>(u + v), a[0] + b[0], a[1] + b[1], a[2] + b[2], "sum"); check3(construct<V3>(u - b), a[0] - b[0], a[1] - b[1], a[2] - b[2], "difference"); check3(construct<V3>(t * u), t * a[0], t * a[1], t * a[2], "scaled"); check3(construct<V3>(u * t), t * a[0], t * a[1], t * a[2], "scaled-right"); check3(construct<V3>(-u), -a[0], -a[1], -a[2], "negated");
    check3(construct<V3>(u ^ v), a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0], "cross"); CHECK_EQ(magnitude_sqrd(u), a[0] * a[0] + a[1] * a[1] + a[2] * a[2], "magnitude"); }
SX_REAL(tuple_vectors, "any vectors") { vectors3<TupleVector3>(vec3("u"), vec3("v"), in("t")); }
SX_REAL(pod_vectors, "any vectors") { vectors3<PodVector>(vec3("u"), vec3("v"), in("t")); }
SX_REAL(foreign_assign, "any coordinates") { double a = in("a"), b = in("b"), c = in("c"); TuplePoint3 p; assign(p, a, b, c); check3(p, a, b, c, "tuple"); SubPoint q; assign(q, a, b, c); check3(q, a, b, c, "subscript"); TupleVector2 v; assign(v, b, c); check2(v, b, c, "pair"); TuplePoint3 r; assign(r, q); check3(r, a, b, c, "sequence"); }
// matrices
template <int R, int C, typename M> void element(const M& m, double e) { CHECK_EQ((geometrix::get<R, C>(m)), e, "element"); }
SX_REAL(subscript_matrix, "any matrix") { double m[9]; for (int i = 0; i < 9; ++i) m[i] = in(nm("m", i)); SubMatrix M(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]); element<0, 1>(M, m[1]); element<2, 0>(M, m[6]); element<1, 1>(M, m[4]); element<0, 2>(M, m[2]); double d = in("d"); geometrix::set<1, 2>(M, d); element<1, 2>(M, d); element<2, 1>(M, m[7]); element<1, 0>(M, m[3]); element<0, 2>(M, m[2]); CHECK_EQ(M[1][2], d, "own");
    geometrix::row<SubMatrix, 2> r(M); CHECK_EQ((double)geometrix::get<0>(r), m[6], "row"); CHECK_EQ((double)geometrix::get<1>(r), m[7], "row"); CHECK_EQ((double)geometrix::get<2>(r), m[8], "row"); geometrix::column<SubMatrix, 2> c(M); CHECK_EQ((double)geometrix::get<0>(c), m[2], "column"); CHECK_EQ((double)geometrix::get<1>(c), d, "column"); CHECK_EQ((double)geometrix::get<2>(c), m[8], "column"); }
SX_REAL(pod_matrix, "any matrix") { double a = in("a"), b = in("b"), c = in("c"), d = in("d"), e = in("e"); PodMatrix M; M.r0.a00 = a; M.r0.a01 = b; M.r1.a10 = c; M.r1.a11 = d; element<0, 0>(M, a); element<0, 1>(M, b); element<1, 0>(M, c); element<1, 1>(M, d); geometrix::set<1, 0>(M, e); element<1, 0>(M, e); element<0, 1>(M, b); element<1, 1>(M, d); CHECK_EQ(M.r1.a10, e, "own"); }
template <typename M> void wide(M& M_, const double* m) { geometrix::set<0, 0>(M_, m[0]); geometrix::set<0, 1>(M_, m[1]); geometrix::set<0, 2>(M_, m[2]); geometrix::set<1, 0>(M_, m[3]); geometrix::set<1, 1>(M_, m[4]); geometrix::set<1, 2>(M_, m[5]); element<0, 0>(M_, m[0]); element<0, 1>(M_, m[1]); element<0, 2>(M_, m[2]); element<1, 0>(M_, m[3]); element<1, 1>(M_, m[4]); element<1, 2>(M_, m[5]);
    CHECK((int)row_dimension_of<M>::value == 2 && (int)column_dimension_of<M>::value == 3, "size"); geometrix::row<M, 1> r(M_); check3(r, m[3], m[4], m[5], "row"); geometrix::column<M, 2> c(M_); check2(c, m[2], m[5], "column"); typedef geometrix::row<M, 1> R; typedef geometrix::column<M, 2> C; CHECK((int)dimension_of<R>::value == 3, "row-size"); CHECK((int)dimension_of<C>::value == 2, "column-size"); }
SX_REAL(wide_matrix, "any matrix of two rows and three columns") { double m[6]; for (int i = 0; i < 6; ++i) m[i] = in(nm("m", i)); WideMatrix a; wide(a, m); PodWide b; wide(b, m); }
SX_REAL(pod_points, "any points and vectors") { points3<PodPoint>(pt3("p"), pt3("q"), vec3("w"), in("t")); }
template <typename P> double rd(const P& p, int i) { return index_operator_vector_access_policy<P>::get(p, i); }
template <typename P> void wr(P& p, int i, double d) { index_operator_vector_access_policy<P>::set(p, i, d); }
SX_REAL(run_time_index, "any coordinates, any index") { double a = in("a"), b = in("b"), c = in("c"), d = in("d"); int i = sx_choose("i", 0, 2), j = sx_choose("j", 0, 2); SubPoint p(construct<SubPoint>(a, b, c)); PodPoint q(construct<PodPoint>(a, b, c)); double e[3] = {a, b, c}; CHECK_EQ(rd(p, i), e[i], "read"); CHECK_EQ(rd(q, i), e[i], "read"); wr(p, j, d); wr(q, j, d); e[j] = d; for (int k = 0; k < 3; ++k) { CHECK_EQ(rd(p, k), e[k], "written"); CHECK_EQ(rd(q, k), e[k], "written"); } }
template <typename S> void walk(S& q, double a, double b, double c) { namespace f = boost::fusion; typedef typename f::result_of::begin<S>::type B; typedef typename f::result_of::end<S>::type E; CHECK((int)f::result_of::size<S>::value == 3, "size"); typedef typename f::result_of::distance<B, E>::type N; CHECK((int)N::value == 3, "distance"); auto i = f::begin(q); CHECK_EQ((double)f::deref(i), a, "begin"); auto j = f::next(i); CHECK_EQ((double)f::deref(j), b, "next"); auto k = f::advance_c<2>(i); CHECK_EQ((double)f::deref(k), c, "advance"); CHECK_EQ((double)f::deref(f::prior(k)), b, "prior"); typedef typename f::result_of::advance_c<E, -1>::type L; typedef typename f::result_of::distance<B, L>::type M; CHECK((int)M::value == 2, "last");
    CHECK_EQ((double)f::at_c<0>(q), a, "at"); CHECK_EQ((double)f::at_c<1>(q), b, "at"); CHECK_EQ((double)f::at_c<2>(q), c, "at"); }
SX_REAL(fusion_walk, "any coordinates") { double a = in("a"), b = in("b"), c = in("c"); IndexedVector u(a, b, c); walk(u, a, b, c); StaticVector s(a, b, c); walk(s, a, b, c); MemberPoint m(a, b, c); walk(m, a, b, c); FusedPoint q(a, b, c); walk(q, a, b, c); }
SX_REAL(indexed_vectors, "any vectors") { V3 u = vec3("u"), v = vec3("v"); double t = in("t"); vectors3<IndexedVector>(u, v, t); vectors3<StaticVector>(u, v, t); }
SX_REAL(point_as_vector, "any points and vectors") { P3 p = pt3("p"); V3 v = vec3("v"); MemberPoint m(p[0], p[1], p[2]); TuplePoint3 t(p[0], p[1], p[2]); SubPoint s(p[0], p[1], p[2]); double d = p[0] * v[0] + p[1] * v[1] + p[2] * v[2]; CHECK_EQ(dot_product(as_vector(m), v), d, "member"); CHECK_EQ(dot_product(as_vector(t), v), d, "tuple"); CHECK_EQ(dot_product(v, as_vector(s)), d, "subscript"); check3(construct<V3>(as_vector(t) + v), p[0] + v[0], p[1] + v[1], p[2] + v[2], "sum"); }
