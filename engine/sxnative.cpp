// Native replay runtime: inputs come from a file of "name value" lines (%a
// doubles), assertions are evaluated on the values the real build computes.
#include "sx.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <signal.h>
namespace {
struct H { std::string name; void (*fn)(); int mode; std::string bounds; };
std::vector<H>& hs() { static std::vector<H> v; return v; }
std::map<std::string, std::string> in;
int violated = 0, reached = 0, g_mode = 0;
const std::string* get(const char* n) { auto i = in.find(n); return i == in.end() ? nullptr : &i->second; }
std::map<std::string,int> uses;
std::string uniq(const char* n) { int k = uses[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
void on_sig(int s) { printf("REPLAY-CRASH signal=%d\n", s); fflush(stdout); _exit(3); }
}
extern "C" {
double sx_real(const char* n) { auto s = get(uniq(n).c_str()); double v = s ? strtod(s->c_str(), nullptr) : 0.0; printf("  input %s = %.17g\n", n, v); return v; }
double sx_real_rng(const char* n, double, double) { return sx_real(n); }
float sx_float(const char* n) { return (float)sx_real(n); }
int64_t sx_choose(const char* n, int64_t lo, int64_t hi) { auto s = get(uniq(n).c_str()); int64_t v = s ? strtoll(s->c_str(), nullptr, 10) : lo; printf("  choice %s = %lld\n", n, (long long)v); if (v < lo || v > hi) { printf("REPLAY-ASSUME\n"); fflush(stdout); _exit(violated ? 1 : 4);} return v; }
static bool rel_ok(double a, int r, double b) { switch (r) { case 0: return a < b; case 1: return a <= b; case 2: return a == b; case 3: return a != b; case 4: return a >= b; default: return a > b; } }
void sx_assume_rel(double a, int r, double b) {
    bool ok = rel_ok(a, r, b);
    if (!ok && g_mode == 0 && (r == 1 || r == 2 || r == 4) && std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b))) ok = true; // rounding of the replayed model
    if (!ok) { printf("REPLAY-ASSUME %.17g rel%d %.17g\n", a, r, b); fflush(stdout); _exit(violated ? 1 : 4); } }
void sx_assert_rel(double a, int r, double b, const char* l, double tol) {
    ++reached; if (getenv("SX_LOG")) printf("LOG %s %a %a\n", l, a, b);
    bool bad;
    if (std::isnan(a) || std::isnan(b)) bad = g_mode == 0 ? true : !rel_ok(a, r, b);
    else {
        double m = g_mode == 0 ? tol * (1 + std::fabs(a) + std::fabs(b)) : 0;
        if (std::isinf(a) || std::isinf(b)) m = 0;
        switch (r) { // violated beyond rounding
        case 0: bad = g_mode == 0 ? a > b + m : !(a < b); break;
        case 1: bad = a > b + m; break;
        case 2: bad = (a == b) ? false : !(std::fabs(a - b) <= m); break;
        case 3: bad = (a == b); break;
        case 4: bad = a < b - m; break;
        default: bad = g_mode == 0 ? a < b - m : !(a > b); break; }
    }
    if (bad) { ++violated; printf("REPLAY-VIOLATED label=%s lhs=%.17g rel=%d rhs=%.17g\n", l, a, r, b); }
}
void sx_assume_bool(int c) { if (!c) { printf("REPLAY-ASSUME bool\n"); fflush(stdout); _exit(violated ? 1 : 4); } }
void sx_assert_bool(int c, const char* l) { ++reached; if (getenv("SX_LOG")) printf("LOG %s %a %a\n", l, (double)!!c, 1.0); if (!c) { ++violated; printf("REPLAY-VIOLATED label=%s\n", l); } }
void sx_cover(const char*) {}
void sx_assume_finite(double a) { if (!std::isfinite(a)) { printf("REPLAY-ASSUME finite\n"); fflush(stdout); _exit(violated ? 1 : 4); } }
int sx_is_symbolic_run() { return 0; }
int sx_is_fp_mode() { return g_mode; }
void sx_assert_same(double a, double b, const char* l) { ++reached; bool same = std::memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); if (g_mode == 0) same = same || std::fabs(a-b) <= SX_TOL*(1+std::fabs(a)+std::fabs(b)); if (!same) { ++violated; printf("REPLAY-VIOLATED label=%s lhs=%a rhs=%a\n", l, a, b); } }
void sx_register(const char* n, void (*f)(), int mode, const char* b) { hs().push_back({n, f, mode, b}); }
}
int main(int argc, char** argv) {
    if (argc < 3) { for (auto& h : hs()) printf("%s\n", h.name.c_str()); return 0; }
    std::ifstream f(argv[2]); std::string k, v; while (f >> k >> v) in[k] = v;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGTRAP}) signal(s, on_sig);
    signal(SIGALRM, [](int) { printf("REPLAY-HANG\n"); fflush(stdout); _exit(6); }); alarm(20);
    for (auto& h : hs()) if (h.name == argv[1]) {
        g_mode = h.mode;
        try { h.fn(); } catch (...) { printf("REPLAY-EXCEPTION\n"); fflush(stdout); return 3; }
        printf("replay: %d assertions evaluated, %d violated\n", reached, violated);
        return violated ? 1 : 0;
    }
    printf("no such harness\n"); return 5;
}
