// Fixed-point numbers: symbolic integers, see ix.py
#include "ix.h"
#include <boost/units/quantity.hpp>
#include <boost/units/systems/si/length.hpp>
#include <boost/units/systems/si/area.hpp>
#include <geometrix/numeric/fixed_point.hpp>
#include <geometrix/numeric/fixed_point_traits.hpp>
#include <geometrix/numeric/boost_units_quantity_fixed_point.hpp>
#include <geometrix/arithmetic/arithmetic_promotion_policy.hpp>
using namespace geometrix;
template <typename I, int R, int E, typename Rd = round_half_to_even> using Dec = fixed_point<fixed_point_traits<I, generic_compile_time_scale_policy<R, E>, Rd>>;
template <typename I, int E, typename Rd = round_half_to_even> using Bin = fixed_point<fixed_point_traits<I, binary_compile_time_scale_policy<E>, Rd>>;
template <typename I, typename Rd = round_half_to_even> using DecR = fixed_point<fixed_point_traits<I, generic_run_time_scale_policy<10>, Rd>>;
template <typename I, typename Rd = round_half_to_even> using BinR = fixed_point<fixed_point_traits<I, binary_run_time_scale_policy, Rd>>;
typedef long long L;
typedef Dec<int, 10, 2> D2; typedef Dec<short, 10, 1> S1; typedef Bin<int, 8> B8; typedef Dec<unsigned, 10, 2> U2; typedef Bin<short, 4> H4;
template <typename F> F fx(L v) { return F::from_format_value((typename F::format_type)v); }
template <typename F> L raw(const F& f) { return f.get_scaled_value(); }
inline bool near(double a, double b) { double d = a - b; return d < 1e-6 && d > -1e-6; }
#define CHECK(c, l) ix_check((c), l)
template <typename F> bool fits(L v) { typedef std::numeric_limits<typename F::format_type> N; return v >= (L)(N::min)() && v <= (L)(N::max)(); }

// sums, differences, negation, steps
template <typename F, typename I> void sums(I a, I b, L one) {
    F x = fx<F>(a), y = fx<F>(b);
    if (fits<F>((L)a + b)) { CHECK(raw(x + y) == (L)a + b, "plus"); F z = x; z += y; CHECK(raw(z) == (L)a + b, "plus-assign"); }
    if (fits<F>((L)a - b)) { CHECK(raw(x - y) == (L)a - b, "minus"); F z = x; z -= y; CHECK(raw(z) == (L)a - b, "minus-assign"); }
    if (fits<F>(-(L)a)) CHECK(raw(-x) == -(L)a, "negate");
    if (fits<F>((L)a + one)) { F z = x; F p = ++z; CHECK(raw(z) == (L)a + one && raw(p) == raw(z), "increment"); F u = x; F q = u++; CHECK(raw(u) == (L)a + one && raw(q) == a, "post-increment"); }
    if (fits<F>((L)a - one)) { F z = x; F p = --z; CHECK(raw(z) == (L)a - one && raw(p) == raw(z), "decrement"); F u = x; F q = u--; CHECK(raw(u) == (L)a - one && raw(q) == a, "post-decrement"); } }
IX(sums_dec, "any two values of 32 bits with two decimals", int a, int b) { sums<D2>(a, b, 100); }
IX(sums_short, "any two values of 16 bits with one decimal", short a, short b) { sums<S1>(a, b, 10); }
IX(sums_bin, "any two values of 32 bits with eight binary places", int a, int b) { sums<B8>(a, b, 256); }
IX(sums_unsigned, "any two unsigned values of 32 bits whose sum and difference fit", unsigned a, unsigned b) { U2 x = fx<U2>(a), y = fx<U2>(b); if ((L)a + b <= 4294967295LL) CHECK(raw(x + y) == (L)a + b, "plus"); if (a >= b) CHECK(raw(x - y) == (L)a - b, "minus"); CHECK((x < y) == (a < b), "less"); }

// comparisons between themselves
template <typename F, typename I> void order(I a, I b) { F x = fx<F>(a), y = fx<F>(b); CHECK((x < y) == (a < b), "less"); CHECK((x > y) == (a > b), "greater"); CHECK((x <= y) == (a <= b), "less-equal"); CHECK((x >= y) == (a >= b), "greater-equal"); CHECK((x == y) == (a == b), "equal"); CHECK((x != y) == (a != b), "unequal"); CHECK(!x == (a == 0), "not"); }
IX(order_dec, "any two values", int a, int b) { order<D2>(a, b); }
IX(order_short, "any two values", short a, short b) { order<S1>(a, b); }
IX(order_bin, "any two values", int a, int b) { order<B8>(a, b); }
// comparisons with whole numbers
IX(order_int, "any value against any whole number within its range", int a, int n) { ix_assume(n > -20000000 && n < 20000000); D2 x = fx<D2>(a); L m = 100LL * n; CHECK((x < n) == (a < m), "less"); CHECK((x > n) == (a > m), "greater"); CHECK((x == n) == (a == m), "equal"); CHECK((x != n) == (a != m), "unequal"); CHECK((x <= n) == (a <= m), "less-equal"); CHECK((x >= n) == (a >= m), "greater-equal"); CHECK((n < x) == (m < a), "int-less"); CHECK((n > x) == (m > a), "int-greater"); CHECK((n <= x) == (m <= a), "int-less-equal"); CHECK((n >= x) == (m >= a), "int-greater-equal"); CHECK((n == x) == (m == a), "int-equal"); }

// products and quotients: within one last place, or refused
template <typename F> void product(L a, L b, L s) { L p = a * b; F x = fx<F>(a), y = fx<F>(b); L lo = (L)(std::numeric_limits<typename F::format_type>::min)(), hi = (L)(std::numeric_limits<typename F::format_type>::max)(); ix_may_throw(p <= (lo - 1) * s || p >= (hi + 1) * s); F z = x; z *= y; L r = raw(z); CHECK(r * s - p < s && p - r * s < s, "last-place"); }
IX(product_dec, "any two values of 32 bits with two decimals", int a, int b) { product<D2>(a, b, 100); }
IX(product_short, "any two values of 16 bits with one decimal", short a, short b) { product<S1>(a, b, 10); }
IX(product_bin, "values of 32 bits with eight binary places whose product fits", int a, int b) { L p = (L)a * b; ix_assume(p < 256LL * 2147483647 && p > -256LL * 2147483647); L r = raw(fx<B8>(a) * fx<B8>(b)); CHECK(r * 256 - p < 256 && p - r * 256 < 256, "last-place"); }
template <typename F> void quotient(L a, L b, L s) { ix_assume(b != 0); F x = fx<F>(a), y = fx<F>(b); L n = a * s, lo = (L)(std::numeric_limits<typename F::format_type>::min)(), hi = (L)(std::numeric_limits<typename F::format_type>::max)(); L u = b < 0 ? -b : b, v = b < 0 ? -n : n; // v / u
    ix_may_throw(v >= (hi + 1) * u || v <= (lo - 1) * u); F z = x; z /= y; L r = raw(z); CHECK(r * u - v < u && v - r * u < u, "last-place"); }
IX(quotient_dec, "any two values of 32 bits with two decimals, the second not zero", int a, int b) { quotient<D2>(a, b, 100); }
IX(quotient_short, "any two values of 16 bits with one decimal, the second not zero", short a, short b) { quotient<S1>(a, b, 10); }
IX(quotient_bin, "any two values of 32 bits with eight binary places, the second not zero", int a, int b) { quotient<B8>(a, b, 256); }
// with whole numbers on either side
IX(whole_operands, "any value and any whole number up to a thousand: exact", int a, int n) { ix_assume(a > -2000000 && a < 2000000 && n > -1000 && n < 1000); D2 x = fx<D2>(a); CHECK(raw(x + n) == a + 100 * n && raw(n + x) == a + 100 * n, "plus"); CHECK(raw(x - n) == a - 100 * n, "minus"); CHECK(raw(n - x) == 100 * n - a, "int-minus"); CHECK(raw(x * n) == (L)a * n && raw(n * x) == (L)a * n, "times"); if (n != 0) { L r = raw(x / n); L u = n < 0 ? -n : n, v = n < 0 ? -(L)a : a; CHECK(r * u - v < u && v - r * u < u, "over"); } if (a != 0) { L r = raw(n / x); L u = a < 0 ? -(L)a : a, v = a < 0 ? -10000LL * n : 10000LL * n; CHECK(r * u - v < u && v - r * u < u, "int-over"); } }

// whole numbers in and out
IX(from_int, "any whole number: exact, or refused when it does not fit", int n) { L m = 100LL * n; ix_may_throw(m > 2147483647 || m < -2147483648LL); D2 x(n); CHECK(raw(x) == m, "scaled"); D2 y; y = n; CHECK(raw(y) == m, "assigned"); CHECK(raw(D2(n, generic_compile_time_scale_policy<10, 2>())) == m, "with-policy"); }
IX(from_short, "any whole number of 16 bits: exact", short n) { CHECK(raw(D2(n)) == 100LL * n, "scaled"); B8 b(n); CHECK(raw(b) == 256LL * n, "binary"); }
IX(from_int_wide, "any whole number of 32 bits in a 64-bit format: exact", int n) { CHECK(raw(Dec<long long, 10, 2>(n)) == 100LL * n, "decimal"); CHECK(raw(Bin<long long, 8>(n)) == 256LL * n, "binary"); }
IX(to_int, "any value: its whole part", int a) { int d = fx<D2>(a).convert_to<int>(); CHECK((L)a - 100LL * d < 100 && 100LL * d - a < 100, "decimal"); CHECK(a < 0 || 100LL * d <= a, "toward-zero"); CHECK(a > 0 || 100LL * d >= a, "toward-zero-below"); L b = fx<B8>(a).convert_to<long long>(); CHECK((L)a - 256 * b < 256 && 256 * b - a < 256, "binary"); }
// to and from floating point
IX(to_double, "any value: the value over the scale", int a) { CHECK(near(fx<D2>(a).convert_to<double>() * 100, a), "decimal"); CHECK(near(fx<B8>(a).convert_to<double>() * 256, a), "binary"); CHECK(near((double)boost::numeric_cast<double>(fx<D2>(a)) * 100, a), "numeric-cast"); }
IX(from_double, "any multiple of 1/1024 up to a million: the nearest value, the even one of two", int n) { ix_assume(n > -1000000 && n < 1000000); double v = n / 1024.0; L r = raw(D2(v)); L e = 100LL * n - 1024 * r; CHECK(e <= 512 && e >= -512, "nearest"); if (e == 512 || e == -512) CHECK(r % 2 == 0, "even"); D2 z; z = v; CHECK(raw(z) == r, "assigned"); L q = raw(B8(v)); L g = 256LL * n - 1024 * q; CHECK(g <= 512 && g >= -512 && ((g != 512 && g != -512) || q % 2 == 0), "binary"); }
IX(rounding, "any multiple of 1/1024 up to a million: toward zero, up, down", int n) { ix_assume(n > -1000000 && n < 1000000); double v = n / 1024.0; L m = 10LL * n; L z = raw(Dec<int, 10, 1, round_toward_zero>(v)), u = raw(Dec<int, 10, 1, round_toward_infinity<int>>(v)), d = raw(Dec<int, 10, 1, round_toward_neg_infinity<int>>(v)); CHECK(n >= 0 ? z * 1024 <= m && m < (z + 1) * 1024 : z * 1024 >= m && m > (z - 1) * 1024, "zero"); CHECK(u * 1024 >= m && m > (u - 1) * 1024, "up"); CHECK(d * 1024 <= m && m < (d + 1) * 1024, "down"); }
IX(double_range, "any whole number as a double: refused when it does not fit", int n) { L m = 100LL * n; ix_may_throw(m > 2147483647 || m < -2147483648LL); double v = n; CHECK(raw(D2(v)) == m, "value"); }
IX(double_operands, "any value with any quarter: compared, added", int a, int n) { ix_assume(a > -2000000 && a < 2000000 && n > -1000 && n < 1000); double v = n / 4.0; D2 x = fx<D2>(a); CHECK((x < v) == (a < 25 * n), "less"); CHECK((x > v) == (a > 25 * n), "greater"); CHECK((x == v) == (a == 25 * n), "equal"); CHECK((v <= x) == (25 * n <= a), "less-equal"); CHECK(raw(x + v) == a + 25 * n, "plus"); CHECK(raw(v - x) == 25 * n - a, "minus"); L r = raw(x * v); CHECK(r * 4 - (L)a * n < 4 && (L)a * n - r * 4 < 4, "times"); }

// between scales
IX(rescale_up, "any value with two decimals that fits with four", int a) { ix_assume(a > -20000000 && a < 20000000); CHECK(raw(Dec<int, 10, 4>(fx<D2>(a))) == 100LL * a, "decimal"); CHECK(raw(Dec<long long, 10, 2>(fx<D2>(a))) == a, "wider"); }
IX(rescale_down, "any value with two decimals to one: nearest", int a) { L r = raw(Dec<int, 10, 1>(fx<D2>(a))); L e = a - 10 * r; CHECK(e <= 5 && e >= -5 && ((e != 5 && e != -5) || r % 2 == 0), "nearest"); Dec<int, 10, 1> z; z = fx<D2>(a); CHECK(raw(z) == r, "assigned"); }
IX(rescale_radix, "any value with eight binary places to two decimals: nearest", int a) { L r = raw(D2(fx<B8>(a))); L e = 100LL * a - 256 * r; CHECK(e <= 128 && e >= -128, "nearest"); }
IX(same_scale, "any value: copied, swapped", int a, int b) { D2 x = fx<D2>(a), y = fx<D2>(b), z(x); CHECK(raw(z) == a, "copy"); x.swap(y); CHECK(raw(x) == b && raw(y) == a, "swap"); z = y; CHECK(raw(z) == a, "assign"); }

// run-time scales
IX(run_decimal, "any two values with zero to four decimals chosen at run time", int a, int b, int k) { ix_assume(k >= 0 && k <= 4); generic_run_time_scale_policy<10> p(k); typedef DecR<int> F; F x = F::from_format_value(a, p), y = F::from_format_value(b, p); L s = k == 0 ? 1 : k == 1 ? 10 : k == 2 ? 100 : k == 3 ? 1000 : 10000; L q = (L)a * b; ix_assume(q < s * 2147483647 && q > -s * 2147483647); L r = raw(x * y); CHECK(r * s - q < s && q - r * s < s, "product"); CHECK((x < y) == (a < b), "less"); if (fits<F>((L)a + b)) CHECK(raw(x + y) == (L)a + b, "plus"); }
IX(run_decimal_convert, "any small whole number with zero to four decimals chosen at run time, and back", int n, int k) { ix_assume(k >= 0 && k <= 4 && n > -200000 && n < 200000); generic_run_time_scale_policy<10> p(k); DecR<int> x(n, p); L s = k == 0 ? 1 : k == 1 ? 10 : k == 2 ? 100 : k == 3 ? 1000 : 10000; CHECK(raw(x) == s * n, "scaled"); CHECK(x.convert_to<int>() == n, "back"); CHECK(x.convert_to<double>() == n, "double"); DecR<int> y = DecR<int>::from_format_value(n, p); CHECK(near(y.convert_to<double>() * s, n), "value"); ++x; CHECK(raw(x) == s * n + s, "step"); }
inline void run_quotient(int a, int b, int k, L s) { generic_run_time_scale_policy<10> p(k); typedef DecR<int> F; L n = (L)a * s; ix_assume(n < 2147483647LL * b && n > -2147483647LL * b); L r = raw(F::from_format_value(a, p) / F::from_format_value(b, p)); CHECK(r * b - n < b && n - r * b < b, "last-place"); }
IX(run_decimal_quotient, "any two values, the second positive, with zero to three decimals chosen at run time", int a, int b, int k) { ix_assume(k >= 0 && k <= 3 && b > 0); if (k == 0) run_quotient(a, b, 0, 1); else if (k == 1) run_quotient(a, b, 1, 10); else if (k == 2) run_quotient(a, b, 2, 100); else run_quotient(a, b, 3, 1000); }
IX(run_binary, "any two values with zero to eight binary places chosen at run time", int a, int b, int k) { ix_assume(k >= 0 && k <= 8); binary_run_time_scale_policy p(k); typedef BinR<int> F; F x = F::from_format_value(a, p), y = F::from_format_value(b, p); L s = 1; for (int i = 0; i < k; ++i) s *= 2; L q = (L)a * b; ix_assume(q < s * 2147483647 && q > -s * 2147483647); L r = raw(x * y); CHECK(r * s - q < s && q - r * s < s, "product"); if (b != 0) { L n = (L)a * s, u = b < 0 ? -(L)b : b, v = b < 0 ? -n : n; if (v < 2147483647 * u && v > -2147483647 * u) { L d = raw(x / y); CHECK(d * u - v < u && v - d * u < u, "quotient"); } } }
IX(run_binary_convert, "any small whole number with zero to eight binary places chosen at run time, and back", int n, int k) { ix_assume(k >= 0 && k <= 8 && n > -2000000 && n < 2000000); binary_run_time_scale_policy p(k); BinR<int> x(n, p); L s = 1; for (int i = 0; i < k; ++i) s *= 2; CHECK(raw(x) == s * n, "scaled"); CHECK(x.convert_to<int>() == n, "back"); CHECK(x.convert_to<double>() == n, "double"); BinR<int> y = BinR<int>::from_format_value(n, p); CHECK(near(y.convert_to<double>() * s, n), "value"); }

inline void run_plain(int a, int n, int k, L s) { generic_run_time_scale_policy<10> p(k); typedef DecR<int> F; F x = F::from_format_value(a, p); CHECK(raw(x + n) == a + s * n && raw(n + x) == a + s * n, "plus"); CHECK(raw(x - n) == a - s * n, "minus"); CHECK(raw(x * n) == (L)a * n, "times"); CHECK((x < n) == (a < s * n) && (x > n) == (a > s * n) && (x == n) == (a == s * n), "compare"); F y = x; y = n; CHECK(raw(y) == s * n, "assigned"); F z = x; --z; CHECK(raw(z) == a - s, "step"); CHECK(raw(-x) == -a, "negate"); }
IX(run_decimal_plain, "any value within a million and any whole number up to a thousand, with zero to two decimals chosen at run time", int a, int n, int k) { ix_assume(k >= 0 && k <= 2 && a > -1000000 && a < 1000000 && n > -1000 && n < 1000); if (k == 0) run_plain(a, n, 0, 1); else if (k == 1) run_plain(a, n, 1, 10); else run_plain(a, n, 2, 100); }
IX(run_decimal_over, "any value within a million over any whole number from one to a thousand, with one or two decimals chosen at run time", int a, int n, bool two) { ix_assume(a > -1000000 && a < 1000000 && n > 0 && n < 1000); typedef DecR<int> F; L r; if (two) r = raw(F::from_format_value(a, generic_run_time_scale_policy<10>(2)) / n); else r = raw(F::from_format_value(a, generic_run_time_scale_policy<10>(1)) / n); CHECK(r * n - a < n && a - r * n < n, "over"); }
IX(run_swap, "two values with different scales chosen at run time, swapped, copied and assigned", int a, int b) { ix_assume(a > -1000000 && a < 1000000 && b > -1000000 && b < 1000000); generic_run_time_scale_policy<10> p(1), q(3); typedef DecR<int> F; F x = F::from_format_value(a, p), y = F::from_format_value(b, q); F c(x), d = y; d = x; CHECK(raw(c) == a && raw(d) == a && near(c.convert_to<double>() * 10, a) && near(d.convert_to<double>() * 10, a), "copies"); x.swap(y); CHECK(raw(x) == b && raw(y) == a, "counts"); CHECK(near(x.convert_to<double>() * 1000, b) && near(y.convert_to<double>() * 10, a), "values"); x = 2; y = 2; CHECK(raw(x) == 2000 && raw(y) == 20, "scales");
    binary_run_time_scale_policy u(2), w(5); BinR<int> e = BinR<int>::from_format_value(a, u), f = BinR<int>::from_format_value(b, w); e.swap(f); CHECK(near(e.convert_to<double>() * 32, b) && near(f.convert_to<double>() * 4, a), "binary"); }
IX(run_rescale, "any value with two decimals within a million read with a scale chosen at run time, and back", int a, int k) { ix_assume(k >= 1 && k <= 3 && a > -1000000 && a < 1000000); generic_run_time_scale_policy<10> p(k); DecR<int> x(fx<D2>(a), p); L s = k == 1 ? 10 : k == 2 ? 100 : 1000; L e = (L)a * s - 100 * raw(x); CHECK(e <= 50 && e >= -50, "nearest"); CHECK(k < 2 || raw(D2(x)) == a, "back"); }

// sign, remainder, limits
IX(signs, "any value but the least: absolute value, sign of another", int a, int b) { ix_assume(a > -2147483647 && b > -2147483647); D2 x = fx<D2>(a), y = fx<D2>(b); L m = a < 0 ? -(L)a : a; CHECK(raw(fabs(x)) == m, "absolute"); CHECK(raw(copysign(x, y)) == (b < 0 ? -m : m), "copysign"); }
IX(remainders, "any two values, the second not zero: what is left after whole multiples, with the sign of the first", int a, int b) { ix_assume(b != 0 && b != -1); L r = raw(fmod(fx<D2>(a), fx<D2>(b))); L u = b < 0 ? -(L)b : b; CHECK(r < u && r > -u, "smaller"); CHECK((a >= 0 || r <= 0) && (a <= 0 || r >= 0), "sign"); CHECK(((L)a - r) % b == 0, "multiple"); }
IX(limits, "least, greatest, smallest step", int a) { typedef std::numeric_limits<D2> N; CHECK(raw((N::max)()) == 2147483647 && raw((N::min)()) == -2147483648LL && raw(N::epsilon()) == 1, "limits"); D2 x = fx<D2>(a); CHECK(raw(x.epsilon()) == 1, "step"); CHECK(x <= (N::max)() && x >= (N::min)(), "bounds"); CHECK(raw((x.max)()) == 2147483647 && raw((x.min)()) == -2147483648LL, "members"); CHECK(raw(boost::numeric::bounds<D2>::highest()) == 2147483647 && raw(boost::numeric::bounds<D2>::lowest()) == -2147483648LL, "cast-bounds"); }

// quantities with units
typedef boost::units::quantity<boost::units::si::length, D2> Q;
IX(quantities, "any value as a length and any whole number up to a hundred", int a, int n) { ix_assume(a > -2000000 && a < 2000000 && n > -100 && n < 100); Q q = Q::from_value(fx<D2>(a)); CHECK(raw((n * q).value()) == (L)a * n && raw((q * n).value()) == (L)a * n, "times"); CHECK(raw((q + n).value()) == a + 100 * n && raw((n + q).value()) == a + 100 * n, "plus"); CHECK(raw((q - n).value()) == a - 100 * n, "minus"); CHECK(raw((n - q).value()) == 100 * n - a, "int-minus"); if (n != 0) CHECK(raw((q / n).value()) == raw(fx<D2>(a) / n), "over"); if (a != 0) CHECK(raw((n / q).value()) == raw(n / fx<D2>(a)), "int-over"); }

// integers promoted to floating point and back
IX(promotion, "any integers: promoted, divided, demoted", int a, int b) { double p = arithmetic_promote(a); CHECK(p == a, "promote"); CHECK(arithmetic_demote<int>(p) == a, "demote"); ix_assume(b != 0); CHECK(near(arithmetic_promotion_policy<int>::promote_div(a, b) * b, a), "divide"); }
IX(powers, "any whole number up to a hundred to the zeroth through fourth power", int a, int k) { ix_assume(a > -100 && a < 100 && k >= -2 && k <= 4); int e = k < 0 ? 0 : 1; for (int i = 0; i < k; ++i) e *= a; CHECK(integral_pow(a, k) == e, "power"); }
