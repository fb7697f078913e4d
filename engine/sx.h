// Harness interface.  A harness is ordinary C++ that calls the library under
// test; it is compiled twice: with the sx pass (symbolic run) and without it
// (native replay of a counterexample, engine/sxnative.cpp).
#ifndef SX_H
#define SX_H
#include <cstdint>

extern "C" {
// inputs -------------------------------------------------------------------
double  sx_real(const char* name);                        // any real / any double in fp mode
double  sx_real_rng(const char* name, double lo, double hi); // the same; the range is a hint for restricted rounds
float   sx_float(const char* name);                       // any float (fp mode)
int64_t sx_choose(const char* name, int64_t lo, int64_t hi); // forks over the integers lo..hi
// relations: 0 <, 1 <=, 2 ==, 3 !=, 4 >=, 5 >
void sx_assume_rel(double a, int rel, double b);
void sx_assert_rel(double a, int rel, double b, const char* label, double tol);
void sx_assume_bool(int c);
void sx_assert_bool(int c, const char* label);
void sx_cover(const char* label);
// fp mode: the double is neither nan nor infinite
void sx_assume_finite(double a);
int  sx_is_symbolic_run();
int  sx_is_fp_mode();
// identical bit pattern up to nan (fp mode); equality in real mode
void sx_assert_same(double a, double b, const char* label);
void sx_register(const char* name, void (*fn)(), int mode, const char* bounds);
}

struct sx_reg { sx_reg(const char* n, void (*f)(), int mode, const char* b) { sx_register(n, f, mode, b); } };
// SX_REAL: exact real arithmetic; SX_FP: bit-precise IEEE-754 arithmetic.
#define SX_REAL(name, bounds) static void sxh_##name(); static sx_reg sxr_##name(#name, sxh_##name, 0, bounds); static void sxh_##name()
#define SX_FP(name, bounds)   static void sxh_##name(); static sx_reg sxr_##name(#name, sxh_##name, 1, bounds); static void sxh_##name()

#define SX_TOL 1e-6
#define ASSUME_LT(a,b) sx_assume_rel(a,0,b)
#define ASSUME_LE(a,b) sx_assume_rel(a,1,b)
#define ASSUME_EQ(a,b) sx_assume_rel(a,2,b)
#define ASSUME_NE(a,b) sx_assume_rel(a,3,b)
#define ASSUME_GE(a,b) sx_assume_rel(a,4,b)
#define ASSUME_GT(a,b) sx_assume_rel(a,5,b)
#define ASSUME(c) sx_assume_bool(c)
#define CHECK_LT(a,b,l) sx_assert_rel(a,0,b,l,SX_TOL)
#define CHECK_LE(a,b,l) sx_assert_rel(a,1,b,l,SX_TOL)
#define CHECK_EQ(a,b,l) sx_assert_rel(a,2,b,l,SX_TOL)
#define CHECK_NE(a,b,l) sx_assert_rel(a,3,b,l,SX_TOL)
#define CHECK_GE(a,b,l) sx_assert_rel(a,4,b,l,SX_TOL)
#define CHECK_GT(a,b,l) sx_assert_rel(a,5,b,l,SX_TOL)
#define CHECK(c,l) sx_assert_bool(c,l)
#define COVER(l) sx_cover(l)
inline double sx_real_in(const char* n, double lo, double hi) { double x = sx_real_rng(n, lo, hi); sx_assume_rel(lo,1,x); sx_assume_rel(x,1,hi); return x; }
#endif
