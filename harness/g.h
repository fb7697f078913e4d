// Shared by the harness files: short names for the library's types and symbolic values of them.
#ifndef G_H
#define G_H
#include "sx.h"
#include <string>
#include <vector>
#include <cmath>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/numeric/number_comparison_policy.hpp>
#include <geometrix/arithmetic/vector.hpp>
namespace g {
using namespace geometrix;
typedef point<double, 2> P2; typedef point<double, 3> P3;
typedef vector<double, 2> V2; typedef vector<double, 3> V3;
typedef segment<P2> S2; typedef segment<P3> S3;
typedef direct_comparison_policy Exact;
typedef absolute_tolerance_comparison_policy<double> Tol;
// where whole chains of rounded results are compared, the native replay allows for rounding; the symbolic run is exact
#ifdef SX_NATIVE
static const double eps = 1e-9; typedef Tol Strict; inline Strict strict() { return Tol(1e-9); }
#else
static const double eps = 0; typedef Exact Strict; inline Strict strict() { return Exact(); }
#endif
inline double in(const std::string& n) { return sx_real(n.c_str()); }
inline double in(const std::string& n, double lo, double hi) { return sx_real_in(n.c_str(), lo, hi); }
inline P2 pt(const std::string& n) { double x = in(n + ".x"), y = in(n + ".y"); return P2(x, y); }
inline P2 pt(const std::string& n, double lo, double hi) { double x = in(n + ".x", lo, hi), y = in(n + ".y", lo, hi); return P2(x, y); }
inline P3 pt3(const std::string& n) { double x = in(n + ".x"), y = in(n + ".y"), z = in(n + ".z"); return P3(x, y, z); }
inline V2 vec(const std::string& n) { double x = in(n + ".x"), y = in(n + ".y"); return V2(x, y); }
inline V3 vec3(const std::string& n) { double x = in(n + ".x"), y = in(n + ".y"), z = in(n + ".z"); return V3(x, y, z); }
inline double X(const P2& p) { return p[0]; } inline double Y(const P2& p) { return p[1]; }
inline double X(const V2& p) { return p[0]; } inline double Y(const V2& p) { return p[1]; }
inline double sq(double x) { return x * x; }
// oracles, written out in scalars and independent of the library
inline double d2(const P2& a, const P2& b) { return sq(a[0] - b[0]) + sq(a[1] - b[1]); }
inline double d2(const P3& a, const P3& b) { return sq(a[0] - b[0]) + sq(a[1] - b[1]) + sq(a[2] - b[2]); }
inline P2 along(const P2& a, const P2& b, double t) { return P2(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])); }
inline P3 along(const P3& a, const P3& b, double t) { return P3(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), a[2] + t * (b[2] - a[2])); }
inline double cr(double ax, double ay, double bx, double by) { return ax * by - ay * bx; }
inline double cr(const P2& a, const P2& b, const P2& c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); }
inline double dt(const P2& a, const P2& b, const P2& c) { return (b[0] - a[0]) * (c[0] - a[0]) + (b[1] - a[1]) * (c[1] - a[1]); } // (b-a).(c-a)
inline void distinct(const P2& a, const P2& b) { ASSUME_GT(d2(a, b), 0.0); }
inline void distinct(const P3& a, const P3& b) { ASSUME_GT(d2(a, b), 0.0); }
// p lies on the closed segment ab (exactly)
inline void check_on_segment(const P2& p, const P2& a, const P2& b, const char* l) {
    CHECK_EQ(cr(a, b, p), 0.0, l); CHECK_GE(dt(a, b, p), 0.0, l); CHECK_LE(dt(a, b, p), d2(a, b), l);
}
inline void check_same(const P2& p, const P2& q, const char* l) { CHECK_EQ(p[0], q[0], l); CHECK_EQ(p[1], q[1], l); }
inline void check_same(const V2& p, const V2& q, const char* l) { CHECK_EQ(p[0], q[0], l); CHECK_EQ(p[1], q[1], l); }
inline void check_same(const P3& p, const P3& q, const char* l) { for (int i = 0; i < 3; ++i) CHECK_EQ(p[i], q[i], l); }
inline void check_same(const V3& p, const V3& q, const char* l) { for (int i = 0; i < 3; ++i) CHECK_EQ(p[i], q[i], l); }
// a unit vector (c,s)
inline V2 unit(const std::string& n) { double c = in(n + ".c", -1, 1), s = in(n + ".s", -1, 1); ASSUME_EQ(c * c + s * s, 1.0); return V2(c, s); }
inline std::string nm(const char* b, int i) { return b + std::to_string(i); }
}
#endif
