#include <thread>
#include <atomic>
#include <chrono>
// Symbolic runtime.  The instrumented program (sxpass.cpp) calls __sx_* for each
// floating point operation.  A symbolic double is a quiet NaN with tag 0x7FFD and a
// 48 bit term number.  Every run of the harness follows one path; the feasible
// other side of each undecided comparison is put on a work list (depth first) and
// executed by a later run, so the whole path tree is covered unless a budget ends.
//
// mode 0 (real): terms are rational functions over the inputs and over algebraic
//   variables (one per square root), kept in normal form with GMP coefficients;
//   sign conditions are decided by Z3 (nlsat).
// mode 1 (fp): terms are Z3 FloatingPoint expressions, bit-precise IEEE-754 RNE.
#include "sx.h"
#include <gmpxx.h>
#include <z3++.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <setjmp.h>
#include <signal.h>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

using std::string; using std::vector;
typedef std::chrono::steady_clock Clk;
static double now() { return std::chrono::duration<double>(Clk::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ boxes
static const uint64_t TAG = 0x7FFDull;
static inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline bool boxed(double d) { return (bits(d) >> 48) == TAG; }
static inline uint64_t boxid(double d) { return bits(d) & 0xFFFFFFFFFFFFull; }
static inline double mkbox(uint64_t id) { return dbl((TAG << 48) | id); }

// ------------------------------------------------------------------ polynomials
typedef vector<uint32_t> Mono;               // sorted (var << 8 | exp)
struct MonoGt {                               // lexicographic, biggest first
    bool operator()(const Mono& a, const Mono& b) const {
        size_t n = std::min(a.size(), b.size());
        for (size_t i = 0; i < n; ++i) {
            if (a[i] == b[i]) continue;
            uint32_t va = a[i] >> 8, vb = b[i] >> 8;
            if (va != vb) return va < vb;
            return a[i] > b[i];
        }
        return a.size() > b.size();
    }
};
typedef std::map<Mono, mpq_class, MonoGt> Poly;

struct Var { int kind; string name; Poly rad; }; // kind 0 input, 1 sqrt(rad), 2 auxiliary
struct Val { int kind = 0; mpq_class q; std::optional<z3::expr> alg; }; // 0 none 1 rational 2 algebraic
struct Frac { Poly num; vector<std::pair<int,int>> den; };

static int g_mode = 0;
static z3::context* Z = nullptr;
static vector<Var> vars;
static vector<Val> vals;                      // witness of the current path
static vector<Frac> terms;                    // arena of the current path (real mode)
static vector<std::optional<z3::expr>> fterms;// fp mode
static vector<Poly> facs; static std::map<string,int> facid;
static std::map<string,int> facts;            // canonical poly -> allowed signs
struct Con { z3::expr e; vector<int> vs; };
static vector<Con> pc;
static vector<std::pair<Poly,int>> pcp;       // pc as (poly, mask) for samples
static bool model_ok = true;
static std::optional<z3::model> fmodel;
static vector<z3::expr> fvars;

struct Item { vector<int64_t> pre; vector<Val> vals; bool has_model = false; std::optional<z3::model> fm; };
static vector<Item> work;
static vector<int64_t> trace; static size_t tpos = 0; static vector<int64_t> prefix;

static sigjmp_buf jb;
static const int J_DONE = 1, J_ASSUME = 2, J_INFEAS = 3, J_UNSUP = 4, J_CRASH = 5, J_STEPS = 6, J_INCONC = 7, J_TIME = 8;
static string g_why;
static long steps = 0, max_steps = 3000000;
static unsigned qtimeout = 10000;
static double t_end = 1e300;

struct AStat { long reached = 0, discharged = 0, trivial = 0, sat = 0, unknown = 0; };
static std::map<string,AStat> asserts;
static std::map<string,long> covers;
static long n_sat = 0, n_unsat = 0, n_unk = 0, n_paths = 0, n_done = 0, n_assume = 0, n_infeas = 0, n_unsup = 0, n_inconc = 0, n_timecut = 0;
static double t_solver = 0, t_slow = 0;
static long n_cmp = 0, n_cmp_exact = 0, n_dec = 0;
static std::map<string,long> notes;
static bool path_uncertain = false;
struct CE { string label, kind; vector<std::pair<string,string>> in; vector<int64_t> tr; };
static vector<CE> ces; static std::map<string,int> ce_per_label;
static vector<string> samples;
// values seen by the assertions of the path, compared with a native run on the path's witness
struct VLog { string label; double a, b; }; static vector<VLog> vlog; static vector<string> witnesses; static int g_maxwit = 4;
static int g_maxce = 4;

static vector<std::pair<string,int64_t>> choices;
static vector<std::pair<string,int>> inputs;  // name -> var index / fvar index
static std::map<string,int> uses;
static string uniq(const char* n) { int k = uses[n]++; return k ? string(n) + "#" + std::to_string(k) : string(n); }

[[noreturn]] static void leave(int code, const string& why = "") { g_why = why; siglongjmp(jb, code); }
static void step() { if (++steps > max_steps) leave(J_STEPS, "step budget"); if ((steps & 255) == 0 && now() > t_end) leave(J_TIME); }

static void mulmono(const Mono& a, const Mono& b, Mono& r) {
    r.clear(); size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && (a[i] >> 8) < (b[j] >> 8))) r.push_back(a[i++]);
        else if (i == a.size() || (b[j] >> 8) < (a[i] >> 8)) r.push_back(b[j++]);
        else { r.push_back(a[i] + (b[j] & 255)); ++i; ++j; }
    }
}
static void addto(Poly& p, const Mono& m, const mpq_class& c) {
    if (c == 0) return;
    auto it = p.find(m);
    if (it == p.end()) p.emplace(m, c);
    else { it->second += c; if (it->second == 0) p.erase(it); }
}
static Poly padd(const Poly& a, const Poly& b, int sg) { Poly r = a; for (auto& t : b) addto(r, t.first, sg > 0 ? t.second : mpq_class(-t.second)); return r; }
static Poly pscale(const Poly& a, const mpq_class& c) { Poly r; if (c == 0) return r; for (auto& t : a) r.emplace_hint(r.end(), t.first, t.second * c); return r; }
static Poly pmul(const Poly& a, const Poly& b);
// a monomial with sqrt variables of exponent >= 2 is rewritten by v*v = rad
static bool reducible(const Mono& m) { for (auto x : m) if ((x & 255) >= 2 && vars[x >> 8].kind == 1) return true; return false; }
static Poly reduce(const Mono& m, const mpq_class& c) {
    Mono rest; Poly fac; bool any = false;
    for (auto x : m) {
        int e = x & 255, v = x >> 8;
        if (e >= 2 && vars[v].kind == 1) {
            for (int k = 0; k < e / 2; ++k) { fac = any ? pmul(fac, vars[v].rad) : vars[v].rad; any = true; }
            if (e & 1) rest.push_back((v << 8) | 1);
        } else rest.push_back(x);
    }
    Poly r0; r0.emplace(rest, c);
    return any ? pmul(r0, fac) : r0;
}
static size_t g_maxterms = 60000;
static Poly pmul(const Poly& a, const Poly& b) {
    if (a.size() * b.size() > 40 * g_maxterms) leave(J_INCONC, "expression size");
    Poly r; Mono m;
    for (auto& x : a) for (auto& y : b) {
        mulmono(x.first, y.first, m);
        if (reducible(m)) { Poly t = reduce(m, x.second * y.second); for (auto& z : t) addto(r, z.first, z.second); }
        else addto(r, m, x.second * y.second);
    }
    if (r.size() > g_maxterms) leave(J_INCONC, "expression size");
    return r;
}
static bool pconst(const Poly& p) { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
static mpq_class cval(const Poly& p) { return p.empty() ? mpq_class(0) : p.begin()->second; }
static Poly pc_(const mpq_class& c) { Poly p; if (c != 0) p.emplace(Mono(), c); return p; }
static Poly pvar(int v) { Poly p; p.emplace(Mono{(uint32_t)(v << 8) | 1}, mpq_class(1)); return p; }
// exact division; false when f does not divide p
static bool pdiv(const Poly& p, const Poly& f, Poly& q) {
    if (p.size() * f.size() > 20000) return false;
    q.clear(); Poly r = p; const Mono& lm = f.begin()->first; const mpq_class& lc = f.begin()->second; size_t guard = 0;
    // the reduction v*v = rad would break the division algorithm
    for (auto& t : f) for (auto x : t.first) if (vars[x >> 8].kind == 1) return false;
    while (!r.empty()) {
        if (++guard > 400) return false;
        const Mono& m = r.begin()->first; Mono d; size_t j = 0;
        for (size_t i = 0; i < m.size(); ++i) {
            if (j < lm.size() && (lm[j] >> 8) == (m[i] >> 8)) {
                int e = int(m[i] & 255) - int(lm[j] & 255); if (e < 0) return false;
                if (e) d.push_back((m[i] & ~255u) | e); ++j;
            } else if (j < lm.size() && (lm[j] >> 8) < (m[i] >> 8)) return false;
            else d.push_back(m[i]);
        }
        if (j != lm.size()) return false;
        mpq_class c = r.begin()->second / lc; q.emplace(d, c); Mono mm;
        for (auto& t : f) { mulmono(d, t.first, mm); addto(r, mm, -c * t.second); }
    }
    return true;
}
// primitive form: content removed, leading coefficient positive. returns the factor c with p = c * prim
static mpq_class primitive(Poly& p) {
    mpz_class g = 0, l = 1;
    for (auto& t : p) { mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), t.second.get_num_mpz_t()); mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), t.second.get_den_mpz_t()); }
    mpq_class c(g, l); c.canonicalize(); if (p.begin()->second < 0) c = -c;
    if (c != 1) for (auto& t : p) t.second /= c;
    return c;
}
static string key(const Poly& p) {
    string s; for (auto& t : p) { s += t.second.get_str(36); for (auto x : t.first) { s += ' '; s += std::to_string(x); } s += ';'; } return s;
}
static int fac_of(const Poly& prim) { string k = key(prim); auto it = facid.find(k); if (it != facid.end()) return it->second; facs.push_back(prim); return facid[k] = (int)facs.size() - 1; }

// ------------------------------------------------------------------ terms
static mpq_class q_of(double d) { return mpq_class(d); }
static bool exact_double(const mpq_class& q, double& out) { double d = q.get_d(); if (!std::isfinite(d)) return false; if (mpq_class(d) == q) { out = d; return true; } return false; }
static double box(Frac&& f) {
    if (f.den.empty() && pconst(f.num)) { double d; if (exact_double(cval(f.num), d)) return d; }
    terms.push_back(std::move(f)); return mkbox(terms.size() - 1);
}
static Frac frac(double d) {
    if (boxed(d)) { uint64_t id = boxid(d); if (id >= terms.size()) leave(J_UNSUP, "stale term"); return terms[id]; }
    Frac f; f.num = pc_(q_of(d)); return f;
}
static void cancel(Frac& f) {
    if (f.num.empty()) { f.den.clear(); return; }
    for (size_t i = 0; i < f.den.size();) {
        Poly q; bool gone = false;
        while (pdiv(f.num, facs[f.den[i].first], q)) { f.num = q; if (--f.den[i].second == 0) { gone = true; break; } }
        if (gone) f.den.erase(f.den.begin() + i); else ++i;
    }
}
static Frac fadd(const Frac& a, const Frac& b, int sg) {
    Frac r;
    if (a.den == b.den) { r.num = padd(a.num, b.num, sg); r.den = a.den; if (!r.den.empty()) cancel(r); return r; }
    Poly ma = pc_(1), mb = pc_(1); size_t i = 0, j = 0;
    auto pw = [](Poly& m, int f, int e) { while (e-- > 0) m = pmul(m, facs[f]); };
    while (i < a.den.size() || j < b.den.size()) {
        if (j == b.den.size() || (i < a.den.size() && a.den[i].first < b.den[j].first)) { r.den.push_back(a.den[i]); pw(mb, a.den[i].first, a.den[i].second); ++i; }
        else if (i == a.den.size() || b.den[j].first < a.den[i].first) { r.den.push_back(b.den[j]); pw(ma, b.den[j].first, b.den[j].second); ++j; }
        else { int e = std::max(a.den[i].second, b.den[j].second); pw(ma, a.den[i].first, e - a.den[i].second); pw(mb, a.den[i].first, e - b.den[j].second); r.den.push_back({a.den[i].first, e}); ++i; ++j; }
    }
    r.num = padd(pmul(a.num, ma), pmul(b.num, mb), sg); cancel(r); return r;
}
static vector<std::pair<int,int>> mergeden(const vector<std::pair<int,int>>& a, const vector<std::pair<int,int>>& b) {
    std::map<int,int> m; for (auto& x : a) m[x.first] += x.second; for (auto& x : b) m[x.first] += x.second; return {m.begin(), m.end()};
}
static Frac fmul_(const Frac& a, const Frac& b) { Frac r; r.num = pmul(a.num, b.num); r.den = mergeden(a.den, b.den); if (!r.den.empty()) cancel(r); return r; }

// ------------------------------------------------------------------ z3
static z3::expr zvar(int v) { return Z->real_const(("v" + std::to_string(v)).c_str()); }
static z3::expr zq(const mpq_class& q) { return Z->real_val(q.get_str().c_str()); }
static z3::expr zpoly(const Poly& p) {
    if (p.empty()) return Z->real_val(0);
    z3::expr_vector sum(*Z);
    for (auto& t : p) {
        z3::expr_vector pr(*Z);
        if (t.second != 1 || t.first.empty()) pr.push_back(zq(t.second));
        for (auto x : t.first) for (int k = 0; k < int(x & 255); ++k) pr.push_back(zvar(x >> 8));
        sum.push_back(pr.size() == 1 ? pr[0] : z3::expr(*Z, Z3_mk_mul(*Z, pr.size(), reinterpret_cast<Z3_ast*>(std::vector<Z3_ast>([&]{ std::vector<Z3_ast> v; for (unsigned i = 0; i < pr.size(); ++i) v.push_back(pr[i]); return v; }()).data()))));
    }
    if (sum.size() == 1) return sum[0];
    std::vector<Z3_ast> v; for (unsigned i = 0; i < sum.size(); ++i) v.push_back(sum[i]);
    return z3::expr(*Z, Z3_mk_add(*Z, v.size(), v.data()));
}
static z3::expr zmask(const z3::expr& e, int m) {
    z3::expr z = Z->real_val(0);
    switch (m) { case 1: return e < z; case 2: return e == z; case 4: return e > z; case 3: return e <= z; case 6: return e >= z; case 5: return e != z; case 7: return Z->bool_val(true); default: return Z->bool_val(false); }
}
static vector<int> pvars(const Poly& p) { std::set<int> s; for (auto& t : p) for (auto x : t.first) s.insert(x >> 8); return {s.begin(), s.end()}; }
static int pdeg(const Poly& p) { int d = 0; for (auto& t : p) { int e = 0; for (auto x : t.first) e += x & 255; d = std::max(d, e); } return d; }

enum R { UNSAT, SAT, UNK };
static bool is_linear_all(const vector<const Con*>&) { return false; }
static std::atomic<double> g_qlimit{0}; // a query that runs past this moment is interrupted
static R solve(const vector<z3::expr>& es, std::optional<z3::model>* m, unsigned tmo) {
    double t0 = now(); R r = UNK; g_qlimit = t0 + tmo / 1000.0 * 2.2 + 1;
    static z3::tactic* tac = nullptr;
    static int attempt_fallback = 1;
    try {
        z3::solver s = g_mode == 0 ? z3::tactic(*Z, "qfnra-nlsat").mk_solver() : z3::solver(*Z, "QF_FP");
        z3::params p(*Z); p.set("timeout", tmo); s.set(p);
        for (auto& e : es) s.add(e);
        switch (s.check()) { case z3::unsat: r = UNSAT; break; case z3::sat: r = SAT; if (m) *m = s.get_model(); break; default: r = UNK; }
        if (r == UNK && g_mode == 0 && attempt_fallback) {
            z3::solver s2(*Z, "QF_NRA"); s2.set(p); for (auto& e : es) s2.add(e);
            switch (s2.check()) { case z3::unsat: r = UNSAT; break; case z3::sat: r = SAT; if (m) *m = s2.get_model(); break; default: r = UNK; }
        }
    } catch (z3::exception& ex) { notes[string("z3: ") + ex.msg()]++; r = UNK; }
    (void)tac; g_qlimit = 0;
    double dt = now() - t0; t_solver += dt; if (dt > t_slow) t_slow = dt;
    if (r == SAT) ++n_sat; else if (r == UNSAT) ++n_unsat; else ++n_unk;
    if (dt > 2 && getenv("SX_DUMP")) { static int k = 0; std::ofstream f(string(getenv("SX_DUMP")) + std::to_string(k++) + ".smt2"); z3::solver s(*Z); for (auto& e : es) s.add(e); f << "; " << dt << "s result " << r << "\n" << s.to_smt2(); }
    return r;
}
// the part of the path condition connected with the given variables
static vector<z3::expr> slice(const vector<int>& vs, vector<int>* outvars) {
    std::set<int> s(vs.begin(), vs.end()); vector<char> in(pc.size(), 0); bool ch = true;
    while (ch) { ch = false;
        for (size_t i = 0; i < pc.size(); ++i) if (!in[i]) {
            bool hit = false; for (int v : pc[i].vs) if (s.count(v)) { hit = true; break; }
            if (hit) { in[i] = 1; ch = true; s.insert(pc[i].vs.begin(), pc[i].vs.end()); } } }
    vector<z3::expr> r; for (size_t i = 0; i < pc.size(); ++i) if (in[i]) r.push_back(pc[i].e);
    if (outvars) outvars->assign(s.begin(), s.end());
    return r;
}
static Val val_of(const z3::expr& e) {
    Val v;
    if (e.is_numeral()) { string s = Z3_get_numeral_string(*Z, e); v.kind = 1; v.q = mpq_class(s); v.q.canonicalize(); }
    else if (e.is_algebraic()) { v.kind = 2; v.alg = e; }
    return v;
}
static void merge_model(vector<Val>& dst, const z3::model& m, const vector<int>& vs) {
    for (int v : vs) { if ((int)dst.size() <= v) dst.resize(v + 1); Val x = val_of(m.eval(zvar(v), true)); if (x.kind) dst[v] = x; else dst[v].kind = 0; }
}
static mpq_class evalq(const Poly& p, bool& ok) {
    mpq_class r = 0; ok = true;
    for (auto& t : p) { mpq_class c = t.second; for (auto x : t.first) { int v = x >> 8; if (v >= (int)vals.size() || vals[v].kind != 1) { ok = false; return 0; } for (int k = 0; k < int(x & 255); ++k) c *= vals[v].q; } r += c; }
    return r;
}
static z3::expr evalz(const Poly& p) {
    z3::expr_vector from(*Z), to(*Z);
    for (int v : pvars(p)) { from.push_back(zvar(v)); if (vals[v].kind == 1) to.push_back(zq(vals[v].q)); else to.push_back(*vals[v].alg); }
    return zpoly(p).substitute(from, to).simplify();
}
// sign of p under the witness: 1, 2, 4 or 0 when it cannot be evaluated
static int eval_sign(const Poly& p) {
    bool ok; mpq_class q = evalq(p, ok);
    if (ok) return q < 0 ? 1 : q == 0 ? 2 : 4;
    for (int v : pvars(p)) if (v >= (int)vals.size() || vals[v].kind == 0) return 0;
    try {
        z3::expr e = evalz(p);
        if (e.is_numeral()) { mpq_class x(string(Z3_get_numeral_string(*Z, e))); return x < 0 ? 1 : x == 0 ? 2 : 4; }
        if (Z3_algebraic_is_value(*Z, e)) { int s = Z3_algebraic_sign(*Z, e); return s < 0 ? 1 : s == 0 ? 2 : 4; }
    } catch (z3::exception&) {}
    return 0;
}
static void add_con(const Poly& p, int mask) { pc.push_back({zmask(zpoly(p), mask), pvars(p)}); pcp.push_back({p, mask}); }
static bool replaying() { return tpos < prefix.size(); }
// a trace entry is code + 16 * (hash of what was decided): a replay that meets a
// different question (address dependent code, say) is detected
static int64_t khash(const string& k) { uint64_t h = 1469598103934665603ull; for (unsigned char c : k) { h ^= c; h *= 1099511628211ull; } return (int64_t)((h ^ (h >> 29)) & 0xFFFFFFFull); }
static int64_t ent(const string& k, int64_t d) { return d + 16 * khash(k); }
static int64_t nextent(const string& k) { int64_t e = prefix[tpos++]; if ((e >> 4) != khash(k)) leave(J_UNSUP, "replay diverged"); trace.push_back(e); return e & 15; }
static void ensure_model() {
    if (model_ok || replaying()) return;
    vector<z3::expr> es; std::set<int> s; for (auto& c : pc) { es.push_back(c.e); s.insert(c.vs.begin(), c.vs.end()); }
    std::optional<z3::model> m; R r = solve(es, &m, qtimeout);
    if (r == SAT) { merge_model(vals, *m, vector<int>(s.begin(), s.end())); model_ok = true; path_uncertain = false; }
    else if (r == UNSAT) leave(J_INFEAS);
    else path_uncertain = true;
}
static int canon(Poly& p) { mpq_class c = primitive(p); return c < 0 ? -1 : 1; }
static int flipm(int m) { return ((m & 1) << 2) | (m & 2) | ((m & 4) >> 2); }
static int static_signs(const Poly& p) { // p canonical: all even monomials with positive coefficients
    bool c0 = false;
    for (auto& t : p) { if (t.second < 0) return 7; if (t.first.empty()) c0 = true; for (auto x : t.first) if ((x & 1) && vars[x >> 8].kind != 1) return 7; }
    return c0 ? 4 : 6;
}
static void push_alt(int64_t d, bool has, const vector<Val>* nv) {
    Item it; it.pre = trace; it.pre.push_back(d); it.has_model = has; if (has) it.vals = *nv; work.push_back(std::move(it));
}
static bool decide(Poly p, int mask) {
    step();
    if (pconst(p)) { mpq_class c = cval(p); int s = c < 0 ? 1 : c == 0 ? 2 : 4; return (s & mask) != 0; }
    if (canon(p) < 0) mask = flipm(mask);
    string k = key(p); auto it = facts.find(k);
    int allowed = it != facts.end() ? it->second : static_signs(p);
    if ((allowed & ~mask) == 0) return true;
    if ((allowed & mask) == 0) return false;
    int64_t d;
    int in = allowed & mask, out = allowed & ~mask;
    if (replaying()) {
        d = nextent(k);
        bool r = d & 1; facts[k] = r ? in : out;
        if (d < 2) add_con(p, r ? in : out);
        return r;
    }
    ensure_model();
    int s = model_ok ? eval_sign(p) : 0;
    if (s && !(s & allowed)) { notes["witness outside facts"]++; s = 0; model_ok = false; ensure_model(); s = model_ok ? eval_sign(p) : 0; if (s && !(s & allowed)) s = 0; }
    auto ask = [&](int m, vector<Val>& nv) {
        vector<int> ov; auto es = slice(pvars(p), &ov); es.push_back(zmask(zpoly(p), m));
        std::optional<z3::model> md; R r = solve(es, &md, qtimeout);
        if (r == SAT) { nv = vals; merge_model(nv, *md, ov); }
        return r;
    };
    if (s) {
        bool r = (s & mask) != 0; vector<Val> nv; R q = ask(r ? out : in, nv);
        if (q == UNSAT) d = r ? 3 : 2;
        else { push_alt(ent(k, r ? 0 : 1), q == SAT, &nv); d = r ? 1 : 0; }
        facts[k] = r ? in : out; if (d < 2) add_con(p, r ? in : out);
        trace.push_back(ent(k, d)); return r;
    }
    vector<Val> n1, n0; R q1 = ask(in, n1), q0 = ask(out, n0);
    if (q1 == UNSAT && q0 == UNSAT) leave(J_INFEAS);
    bool r;
    if (q1 == UNSAT) { d = 2; r = false; } else if (q0 == UNSAT) { d = 3; r = true; }
    else { bool um = model_ok; if (q1 == SAT) { push_alt(ent(k, 0), q0 == SAT && um, &n0); d = 1; r = true; if (um) vals = n1; } else { push_alt(ent(k, 1), false, nullptr); d = 0; r = false; if (q0 == SAT && um) vals = n0; } if (!um || (r ? q1 : q0) != SAT) model_ok = false; }
    facts[k] = r ? in : out; if (d < 2) add_con(p, r ? in : out);
    trace.push_back(ent(k, d)); return r;
}
// sign of the denominator (its factors are known to be non zero)
static int den_sign(const Frac& f) { int s = 1; for (auto& x : f.den) if (x.second & 1) { if (!decide(facs[x.first], 4)) s = -s; } return s; }
static Frac fneg_(Frac f) { for (auto& t : f.num) t.second = -t.second; return f; }

// ------------------------------------------------------------------ fp mode
static z3::sort fs() { return Z->fpa_sort(11, 53); }
static z3::expr rne() { return z3::expr(*Z, Z3_mk_fpa_rne(*Z)); }
static z3::expr fcst(double d) { return z3::expr(*Z, Z3_mk_fpa_numeral_double(*Z, d, fs())); }
static z3::expr fe(double d) { if (boxed(d)) { if (boxid(d) >= fterms.size()) leave(J_UNSUP, "stale term"); return *fterms[boxid(d)]; } return fcst(d); }
static double fbox(const z3::expr& e) { fterms.push_back(e); return mkbox(fterms.size() - 1); }
static void ensure_fmodel() {
    if (fmodel || replaying()) return;
    vector<z3::expr> es; for (auto& c : pc) es.push_back(c.e);
    std::optional<z3::model> m; R r = solve(es, &m, qtimeout);
    if (r == SAT) fmodel = m; else if (r == UNSAT) leave(J_INFEAS); else path_uncertain = true;
}
static bool decide_e(z3::expr c) {
    step(); c = c.simplify();
    if (c.is_true()) return true; if (c.is_false()) return false;
    string k = std::to_string(c.id()); // pc keeps the expression alive
    auto it = facts.find(k); if (it != facts.end()) return it->second;
    auto note = [&](bool r) { facts[k] = r; pc.push_back({r ? c : !c, {}}); };
    static const string fk = "fp";
    if (replaying()) { int64_t d = nextent(fk); note(d & 1); return d & 1; }
    ensure_fmodel();
    vector<z3::expr> es; for (auto& x : pc) es.push_back(x.e);
    auto ask = [&](bool v, std::optional<z3::model>& m) { auto e2 = es; e2.push_back(v ? c : !c); return solve(e2, &m, qtimeout); };
    int64_t d; bool r;
    if (fmodel) {
        r = fmodel->eval(c, true).is_true(); std::optional<z3::model> m; R q = ask(!r, m);
        if (q == UNSAT) d = r ? 3 : 2; else { Item i; i.pre = trace; i.pre.push_back(ent(fk, r ? 0 : 1)); i.fm = m; i.has_model = q == SAT; work.push_back(i); d = r; }
    } else {
        std::optional<z3::model> m1, m0; R q1 = ask(true, m1), q0 = ask(false, m0);
        if (q1 == UNSAT && q0 == UNSAT) leave(J_INFEAS);
        if (q1 == UNSAT) { d = 2; r = false; if (q0 == SAT) fmodel = m0; } else if (q0 == UNSAT) { d = 3; r = true; if (q1 == SAT) fmodel = m1; }
        else { Item i; i.pre = trace; i.pre.push_back(ent(fk, 0)); i.fm = m0; i.has_model = q0 == SAT; work.push_back(i); d = 1; r = true; if (q1 == SAT) fmodel = m1; }
    }
    trace.push_back(ent(fk, d)); note(r); return r;
}
static z3::expr fpred(unsigned p, const z3::expr& a, const z3::expr& b) {
    auto E = [&](Z3_ast x) { return z3::expr(*Z, x); };
    z3::expr uno = E(Z3_mk_fpa_is_nan(*Z, a)) || E(Z3_mk_fpa_is_nan(*Z, b));
    z3::expr base = Z->bool_val(false);
    if (p & 1) base = base || E(Z3_mk_fpa_eq(*Z, a, b));
    if (p & 2) base = base || E(Z3_mk_fpa_gt(*Z, a, b));
    if (p & 4) base = base || E(Z3_mk_fpa_lt(*Z, a, b));
    if ((p & 7) == 3) base = E(Z3_mk_fpa_geq(*Z, a, b));
    if ((p & 7) == 5) base = E(Z3_mk_fpa_leq(*Z, a, b));
    if ((p & 7) == 6) base = !E(Z3_mk_fpa_eq(*Z, a, b)) && !uno;
    if ((p & 7) == 7) base = !uno;
    if (p & 8) base = base || uno;
    return base;
}

// ------------------------------------------------------------------ witnesses
static int new_var(int kind, const string& name) { vars.push_back({kind, name, {}}); int v = (int)vars.size() - 1; if ((int)vals.size() <= v) vals.resize(v + 1); return v; }
static string dstr(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }
static double approx(const z3::expr& e) {
    if (e.is_numeral()) return mpq_class(string(Z3_get_numeral_string(*Z, e))).get_d();
    try { z3::expr l(*Z, Z3_get_algebraic_number_lower(*Z, e, 30)); return mpq_class(string(Z3_get_numeral_string(*Z, l))).get_d(); } catch (z3::exception&) { return 0; }
}
// make a model with values a double can hold, if there is one
static bool nice_model(vector<z3::expr> es, std::optional<z3::model>& m, double budget) {
    if (g_mode == 1) return true;
    double t0 = now();
    vector<z3::expr> cur = es;
    for (auto& in : inputs) {
        if (now() - t0 > budget) break;
        z3::expr v = zvar(in.second); double a = approx(m->eval(v, true));
        if (!std::isfinite(a)) continue;
        for (double sc : {1.0, 4.0, 64.0, 4096.0, 1048576.0}) {
            double c = std::nearbyint(a * sc) / sc; if (std::fabs(c) > 1e15) break;
            auto e2 = cur; e2.push_back(v == zq(mpq_class(c)));
            std::optional<z3::model> m2; if (solve(e2, &m2, 1500) == SAT) { cur = e2; m = m2; break; }
        }
    }
    return true;
}
static string g_out; static string esc(const string& s);
static void note_ce(CE ce) { // also written at once: what was found counts even if a later query never returns
    if (!g_out.empty()) { std::ofstream f(g_out + ".ce", std::ios::app); f << "{\"label\":\"" << esc(ce.label) << "\",\"kind\":\"" << ce.kind << "\",\"in\":["; bool g = true; for (auto& x : ce.in) { if (!g) f << ","; g = false; f << "[\"" << esc(x.first) << "\",\"" << x.second << "\"]"; } f << "]}" << std::endl; }
    ces.push_back(std::move(ce));
}
static void record_ce(const string& label, const string& kind, std::optional<z3::model>& m) {
    CE ce; ce.label = label; ce.kind = kind; ce.tr = trace;
    for (auto& in : inputs) {
        double d = 0;
        if (g_mode == 0) d = approx(m->eval(zvar(in.second), true));
        else { z3::expr x = m->eval(fvars[in.second], true); z3::expr bv(*Z, Z3_mk_fpa_to_ieee_bv(*Z, x)); bv = m->eval(bv, true).simplify(); uint64_t u = 0; if (bv.is_numeral()) u = strtoull(Z3_get_numeral_string(*Z, bv), nullptr, 10); if (bv.get_sort().bv_size() == 32) { uint32_t w = (uint32_t)u; float f; memcpy(&f, &w, 4); d = f; } else d = dbl(u); }
        ce.in.push_back({in.first, dstr(d)});
    }
    for (auto& c : choices) ce.in.push_back({c.first, std::to_string(c.second)});
    note_ce(std::move(ce));
}
static vector<z3::expr> all_pc() { vector<z3::expr> es; for (auto& c : pc) es.push_back(c.e); return es; }
static void violation(const string& label, const string& kind, const vector<z3::expr>& extra, const vector<vector<z3::expr>>& margins) {
    int& n = ce_per_label[label]; if (n >= g_maxce) return; ++n;
    auto base = all_pc(); for (auto& e : extra) base.push_back(e);
    // prefer inputs of moderate size, with a clear margin
    vector<z3::expr> boxc; if (g_mode == 0) for (auto& in : inputs) { z3::expr v = zvar(in.second); boxc.push_back(v <= 64 && v >= -64); }
    int got = 0;
    for (auto& mg : margins) {
        auto es = base; es.insert(es.end(), mg.begin(), mg.end()); es.insert(es.end(), boxc.begin(), boxc.end());
        std::optional<z3::model> m; if (solve(es, &m, std::min(qtimeout, 5000u)) == SAT) { nice_model(es, m, 8); record_ce(label, kind, m); if (++got >= 2) return; }
    }
    if (g_mode == 1) { std::optional<z3::model> m; if (solve(base, &m, qtimeout) == SAT) record_ce(label, kind, m); return; }
    // real mode: inputs beyond 2^30 in magnitude are outside every bound (double overflow and the like)
    if (got) return;
    auto es = base; for (auto& in : inputs) { z3::expr v = zvar(in.second); es.push_back(v <= (1 << 30) && v >= -(1 << 30)); }
    std::optional<z3::model> m; R r = solve(es, &m, qtimeout);
    if (r == SAT) { nice_model(es, m, 8); record_ce(label, kind, m); }
    else if (r == UNSAT) notes["counterexample only beyond 2^30: " + label]++;
    else if (model_ok && extra.empty()) { CE ce; ce.label = label; ce.kind = kind; for (auto& in : inputs) { double d = 0; Val& v = vals[in.second]; if (v.kind == 1) d = v.q.get_d(); else if (v.kind == 2) d = approx(*v.alg); if (std::fabs(d) > 1 << 30) return; ce.in.push_back({in.first, dstr(d)}); } for (auto& c : choices) ce.in.push_back({c.first, std::to_string(c.second)}); note_ce(std::move(ce)); }
}
static const int RELMASK[6] = {1, 3, 2, 5, 6, 4};
static double csign(double a) { return a; }

// ------------------------------------------------------------------ exactness
// per term: value is an integer polynomial of integer inputs and |value| <= bound
// for integer inputs of absolute value <= GRID, hence exact in double arithmetic.
static const double GRID = 1024;
static double bound_of(const Frac& f) {
    if (!f.den.empty()) return INFINITY; double s = 0;
    for (auto& t : f.num) { if (t.second.get_den() != 1) return INFINITY; double c = std::fabs(t.second.get_d()); for (auto x : t.first) { if (vars[x >> 8].kind != 0) return INFINITY; for (int k = 0; k < int(x & 255); ++k) c *= GRID; } s += c; }
    return s;
}
static std::vector<char> exactbit; // per term
static bool is_exact(double d) { if (!boxed(d)) return std::isfinite(d) && d == std::nearbyint(d) && std::fabs(d) < 9e15; return boxid(d) < exactbit.size() && exactbit[boxid(d)]; }
static double boxx(Frac&& f, bool ex) { bool e = ex && bound_of(f) < 9007199254740992.0; double r = box(std::move(f)); if (boxed(r)) { exactbit.resize(terms.size(), 0); exactbit[boxid(r)] = e; } return r; }

// ------------------------------------------------------------------ operations
extern "C" {
double __sx_f2d(float f) { uint32_t u; memcpy(&u, &f, 4); if ((u >> 20) == 0x7FD) return mkbox(u & 0xFFFFF); return (double)f; }
float __sx_d2f(double d) {
    if (boxed(d)) {
        if (g_mode == 1) { z3::sort s32 = Z->fpa_sort(8, 24); z3::expr x(*Z, Z3_mk_fpa_to_fp_float(*Z, rne(), fe(d), s32)); d = fbox(z3::expr(*Z, Z3_mk_fpa_to_fp_float(*Z, rne(), x, fs()))); }
        if (boxid(d) > 0xFFFFF) leave(J_UNSUP, "too many float terms"); uint32_t u = (0x7FDu << 20) | (uint32_t)boxid(d); float f; memcpy(&f, &u, 4); return f; }
    return (float)d;
}
void __sx_concrete(double d) { if (boxed(d)) leave(J_UNSUP, "symbolic value reaches code outside the encoding"); }

static bool sgn_pos(double d) { return !std::signbit(d); }
static int sign_of(double d) { // 1 2 4 of a finite value (forks)
    if (!boxed(d)) return d < 0 ? 1 : d == 0 ? 2 : 4;
    Frac f = frac(d); int s = den_sign(f);
    if (decide(f.num, 2)) return 2; bool pos = decide(f.num, 4); if (s < 0) pos = !pos; return pos ? 4 : 1;
}
double __sx_bin(uint32_t op, double a, double b) {
    bool ba = boxed(a), bb = boxed(b);
    if (!ba && !bb) {
        double r;
        switch (op) { case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = a * b; break; case 3: r = a / b; break; default: r = std::fmod(a, b); return r; }
        if (g_mode == 1 || !std::isfinite(a) || !std::isfinite(b) || (op == 3 && b == 0)) return r;
        bool ex = false;
        if (std::isfinite(r)) {
            switch (op) {
            case 0: case 1: { double bb2 = op ? -b : b; double t = r - a; ex = ((a - (r - t)) + (bb2 - t)) == 0; break; }
            case 2: ex = r == 0 ? (a == 0 || b == 0) : (std::fabs(r) > 1e-280 && std::fma(a, b, -r) == 0); break;
            case 3: ex = r == 0 ? a == 0 : (std::fabs(r) > 1e-280 && std::fabs(a) > 1e-280 && std::fma(r, b, -a) == 0); break; }
        }
        if (ex) return r;
        mpq_class x = q_of(a), y = q_of(b), z; switch (op) { case 0: z = x + y; break; case 1: z = x - y; break; case 2: z = x * y; break; default: z = x / y; }
        Frac f; f.num = pc_(z); return box(std::move(f));
    }
    step();
    if (g_mode == 1) {
        z3::expr x = fe(a), y = fe(b), r = rne(); Z3_ast z;
        switch (op) { case 0: z = Z3_mk_fpa_add(*Z, r, x, y); break; case 1: z = Z3_mk_fpa_sub(*Z, r, x, y); break; case 2: z = Z3_mk_fpa_mul(*Z, r, x, y); break; case 3: z = Z3_mk_fpa_div(*Z, r, x, y); break; default: leave(J_UNSUP, "frem in fp mode"); }
        return fbox(z3::expr(*Z, z));
    }
    if (!ba && std::isnan(a)) return a; if (!bb && std::isnan(b)) return b;
    if ((!ba && std::isinf(a)) || (!bb && std::isinf(b))) { // one side infinite, the other a finite symbolic value
        double inf = ba ? b : a;
        switch (op) {
        case 0: return inf; case 1: return ba ? -inf : inf;
        case 2: { int s = sign_of(ba ? a : b); return s == 2 ? NAN : s == 4 ? inf : -inf; }
        case 3: if (ba) return 0.0; { int s = sign_of(b); return s == 1 ? -inf : inf; }
        default: return ba ? a : NAN; }
    }
    switch (op) {
    case 0: { if (!ba && a == 0) return b; if (!bb && b == 0) return a; bool e = is_exact(a) && is_exact(b); return boxx(fadd(frac(a), frac(b), 1), e); }
    case 1: { if (!bb && b == 0) return a; bool e = is_exact(a) && is_exact(b); return boxx(fadd(frac(a), frac(b), -1), e); }
    case 2: { if (!ba && a == 0) return 0.0; if (!bb && b == 0) return 0.0; if (!ba && a == 1) return b; if (!bb && b == 1) return a; bool e = is_exact(a) && is_exact(b); return boxx(fmul_(frac(a), frac(b)), e); }
    case 3: {
        if (!bb && b == 0) { int s = sign_of(a); if (s == 2) return NAN; return (s == 4) == sgn_pos(b) ? INFINITY : -INFINITY; }
        if (!bb && b == 1) return a;
        Frac x = frac(a), y = frac(b);
        if (bb && decide(y.num, 2)) { int s = ba ? sign_of(a) : (std::isnan(a) || a == 0) ? 2 : a < 0 ? 1 : 4; if (s == 2) return NAN; return s == 4 ? INFINITY : -INFINITY; }
        Frac r; r.num = x.num; for (auto& d : y.den) for (int k = 0; k < d.second; ++k) r.num = pmul(r.num, facs[d.first]);
        r.den = x.den;
        Poly dn = y.num;
        if (pconst(dn)) r.num = pscale(r.num, 1 / cval(dn));
        else {
            mpq_class c = primitive(dn); r.num = pscale(r.num, 1 / c);
            // take out single variables common to all monomials
            std::map<int,int> common; bool first = true;
            for (auto& t : dn) { std::map<int,int> m; for (auto z : t.first) m[z >> 8] = z & 255; if (first) { common = m; first = false; } else { for (auto it = common.begin(); it != common.end();) { auto f = m.find(it->first); if (f == m.end()) it = common.erase(it); else { it->second = std::min(it->second, f->second); ++it; } } } }
            vector<std::pair<int,int>> add;
            if (!common.empty()) {
                Poly q; for (auto& t : dn) { Mono m; for (auto z : t.first) { int v = z >> 8, e = z & 255; auto f = common.find(v); if (f != common.end()) e -= f->second; if (e) m.push_back((v << 8) | e); } q.emplace(m, t.second); }
                dn = q; for (auto& cm : common) add.push_back({fac_of(pvar(cm.first)), cm.second});
            }
            if (!pconst(dn)) { mpq_class c2 = primitive(dn); r.num = pscale(r.num, 1 / c2); add.push_back({fac_of(dn), 1}); }
            std::sort(add.begin(), add.end());
            r.den = mergeden(r.den, add);
        }
        cancel(r); return boxx(std::move(r), false); }
    default: { // fmod: a - b*trunc(a/b)
        extern double __sx_trunc(double); double q = __sx_trunc(__sx_bin(3, a, b)); return __sx_bin(1, a, __sx_bin(2, b, q)); }
    }
}
double __sx_neg(double a) { if (!boxed(a)) return -a; step(); if (g_mode == 1) return fbox(z3::expr(*Z, Z3_mk_fpa_neg(*Z, fe(a)))); bool e = is_exact(a); return boxx(fneg_(frac(a)), e); }
static int cmp3(double a, double b, int mask) { // a-b in mask
    ++n_cmp; if (is_exact(a) && is_exact(b)) ++n_cmp_exact;
    Frac d = fadd(frac(a), frac(b), -1); if (den_sign(d) < 0) mask = flipm(mask); return decide(d.num, mask);
}
uint32_t __sx_fcmp(uint32_t pred, double a, double b) {
    bool ba = boxed(a), bb = boxed(b);
    auto conc = [&](int s, bool uno) -> uint32_t { if (uno) return (pred & 8) != 0; return s == 0 ? (pred & 1) != 0 : s > 0 ? (pred & 2) != 0 : (pred & 4) != 0; };
    if (!ba && !bb) { bool uno = std::isnan(a) || std::isnan(b); return conc(a == b ? 0 : a > b ? 1 : -1, uno); }
    if (g_mode == 1) return decide_e(fpred(pred, fe(a), fe(b)));
    if ((!ba && std::isnan(a)) || (!bb && std::isnan(b))) return conc(0, true);
    if (!ba && std::isinf(a)) return conc(a > 0 ? 1 : -1, false);
    if (!bb && std::isinf(b)) return conc(b > 0 ? -1 : 1, false);
    int mask = ((pred & 1) ? 2 : 0) | ((pred & 2) ? 4 : 0) | ((pred & 4) ? 1 : 0);
    if (mask == 0) return 0; if (mask == 7) return 1;
    return cmp3(a, b, mask);
}
double __sx_fabs(double a) { if (!boxed(a)) return std::fabs(a); if (g_mode == 1) return fbox(z3::expr(*Z, Z3_mk_fpa_abs(*Z, fe(a)))); return cmp3(a, 0.0, 6) ? a : __sx_neg(a); }
uint32_t __sx_signbit(double a) { if (!boxed(a)) return std::signbit(a); if (g_mode == 1) return decide_e(z3::expr(*Z, Z3_mk_fpa_is_negative(*Z, fe(a)))); return cmp3(a, 0.0, 1); }
uint32_t __sx_fpclass(double a, uint32_t m) {
    if (!boxed(a)) {
        uint32_t c; if (std::isnan(a)) c = 3; else { bool n = std::signbit(a); switch (std::fpclassify(a)) { case FP_INFINITE: c = n ? 4 : 0x200; break; case FP_ZERO: c = n ? 0x20 : 0x40; break; case FP_SUBNORMAL: c = n ? 0x10 : 0x80; break; default: c = n ? 8 : 0x100; } } return (m & c) != 0; }
    if (g_mode == 1) {
        z3::expr x = fe(a), r = Z->bool_val(false), neg(*Z, Z3_mk_fpa_is_negative(*Z, x)); auto E = [&](Z3_ast z) { return z3::expr(*Z, z); };
        if (m & 3) r = r || E(Z3_mk_fpa_is_nan(*Z, x)); if (m & 4) r = r || (E(Z3_mk_fpa_is_infinite(*Z, x)) && neg); if (m & 8) r = r || (E(Z3_mk_fpa_is_normal(*Z, x)) && neg); if (m & 0x10) r = r || (E(Z3_mk_fpa_is_subnormal(*Z, x)) && neg); if (m & 0x20) r = r || (E(Z3_mk_fpa_is_zero(*Z, x)) && neg);
        if (m & 0x40) r = r || (E(Z3_mk_fpa_is_zero(*Z, x)) && !neg); if (m & 0x80) r = r || (E(Z3_mk_fpa_is_subnormal(*Z, x)) && !neg); if (m & 0x100) r = r || (E(Z3_mk_fpa_is_normal(*Z, x)) && !neg); if (m & 0x200) r = r || (E(Z3_mk_fpa_is_infinite(*Z, x)) && !neg);
        return decide_e(r);
    }
    int in = 0; if (m & (8 | 0x10)) in |= 1; if (m & (0x20 | 0x40)) in |= 2; if (m & (0x80 | 0x100)) in |= 4;
    if (in == 0) return 0; if (in == 7) return 1; return cmp3(a, 0.0, in);
}
double __sx_copysign(double a, double b) { if (!boxed(a) && !boxed(b)) return std::copysign(a, b); double m = __sx_fabs(a); return __sx_signbit(b) ? __sx_neg(m) : m; }
double __sx_fmin(double a, double b) { if (!boxed(a) && !boxed(b)) return std::fmin(a, b); return __sx_fcmp(4, b, a) ? b : a; }
double __sx_fmax(double a, double b) { if (!boxed(a) && !boxed(b)) return std::fmax(a, b); return __sx_fcmp(2, b, a) ? b : a; }
double __sx_fdim(double a, double b) { if (!boxed(a) && !boxed(b)) return std::fdim(a, b); return __sx_fcmp(2, a, b) ? __sx_bin(1, a, b) : 0.0; }

// the witness value of sqrt(rad)
static void sqrt_witness(int v) {
    if (vals[v].kind) return; // came with the work item
    if (!model_ok || replaying()) { model_ok = false; return; }
    bool ok; mpq_class q = evalq(vars[v].rad, ok);
    try {
        if (ok && q >= 0) {
            if (mpz_perfect_square_p(q.get_num_mpz_t()) && mpz_perfect_square_p(q.get_den_mpz_t())) { mpz_class n, d; mpz_sqrt(n.get_mpz_t(), q.get_num_mpz_t()); mpz_sqrt(d.get_mpz_t(), q.get_den_mpz_t()); vals[v].kind = 1; vals[v].q = mpq_class(n, d); return; }
            z3::expr r(*Z, Z3_algebraic_root(*Z, zq(q), 2)); vals[v].kind = 2; vals[v].alg = r; return;
        }
    } catch (z3::exception&) {}
    model_ok = false;
}
static double sqrt_poly(Poly p) { // p >= 0 known
    if (p.empty()) return 0.0;
    Poly prim = p; mpq_class c = primitive(prim); if (c < 0) { c = -c; for (auto& t : prim) t.second = -t.second; }
    // sqrt(n/d) = sqrt(n*d)/d
    mpz_class cd = c.get_den(), m = c.get_num() * c.get_den(); // c = m / cd^2
    mpz_class sq = 1, rest = m; { mpz_class r; mpz_sqrt(r.get_mpz_t(), m.get_mpz_t()); if (r * r == m) { sq = r; rest = 1; } else { for (unsigned long k : {2ul, 3ul, 5ul, 7ul}) while (rest % (k * k) == 0) { rest /= k * k; sq *= k; } } }
    Frac out; mpq_class scale(sq, cd); scale.canonicalize();
    // single monomial with even exponents: |monomial|
    if (prim.size() == 1 && rest == 1 && prim.begin()->second == 1) {
        bool even = true; Mono h; for (auto x : prim.begin()->first) { if (x & 1) even = false; else h.push_back((x & ~255u) | ((x & 255) / 2)); }
        if (even) { Poly hp; hp.emplace(h, mpq_class(1)); bool pos = decide(hp, 6); out.num = pscale(hp, pos ? scale : mpq_class(-scale)); return box(std::move(out)); }
    }
    Poly rad = pscale(prim, mpq_class(rest));
    string k = "sqrt:" + key(rad); auto it = facid.find(k); int v;
    if (it != facid.end()) v = it->second;
    else {
        v = new_var(1, "sqrt"); vars[v].rad = rad; facid[k] = v; sqrt_witness(v);
        Poly v2; v2.emplace(Mono{(uint32_t)(v << 8) | 2}, mpq_class(1));
        Poly def = padd(v2, rad, -1); vector<int> vs = pvars(def);
        pc.push_back({zvar(v) >= 0, vs}); pc.push_back({zpoly(def) == 0, vs});
        Poly pv = pvar(v); auto f = facts.find(key(rad)); Poly rp = prim; canon(rp); auto f2 = facts.find(key(rp));
        if ((f2 != facts.end() && !(f2->second & 2)) || (static_signs(rp) == 4)) facts[key(pv)] = 4; else facts[key(pv)] = 6; (void)f;
    }
    out.num = pscale(pvar(v), scale); return box(std::move(out));
}
double __sx_sqrt(double a) {
    if (!boxed(a)) {
        double r = std::sqrt(a); if (g_mode == 1 || !(a > 0) || std::isinf(a) || std::fma(r, r, -a) == 0) return r;
        return sqrt_poly(pc_(q_of(a)));
    }
    step();
    if (g_mode == 1) return fbox(z3::expr(*Z, Z3_mk_fpa_sqrt(*Z, rne(), fe(a))));
    if (__sx_fcmp(4, a, 0.0)) return NAN;
    Frac f = frac(a);
    if (f.den.empty()) return sqrt_poly(f.num);
    // sqrt(N/D) with D = prod f^e: even powers come out, odd ones move to the numerator
    int s = den_sign(f); Poly n = f.num; Frac d; d.num = pc_(1);
    for (auto& x : f.den) { int e = x.second; if (e & 1) n = pmul(n, facs[x.first]); int h = (e + 1) / 2; Poly ff = facs[x.first]; if (h & 1) { if (!decide(ff, 4)) ff = pscale(ff, -1); } for (int k = 0; k < h; ++k) d.num = pmul(d.num, ff); }
    if (s < 0) n = pscale(n, -1);
    double num = sqrt_poly(n); Frac dd = d; double den = box(std::move(dd));
    return __sx_bin(3, num, den);
}
// integer part, by forking over the feasible values
static mpz_class floor_q(const mpq_class& q) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
static double witness_value(double a) {
    Frac f = frac(a); bool ok1, ok2 = true; mpq_class n = evalq(f.num, ok1), d = 1; for (auto& x : f.den) { bool o; mpq_class q = evalq(facs[x.first], o); ok2 = ok2 && o; for (int k = 0; k < x.second; ++k) d *= q; }
    if (ok1 && ok2 && d != 0) return floor_q(n / d).get_d();
    auto av = [&](const Poly& p) { double r = 0; for (auto& t : p) { double c = t.second.get_d(); for (auto x : t.first) { Val& v = vals[x >> 8]; double w = v.kind == 1 ? v.q.get_d() : v.kind == 2 ? approx(*v.alg) : 0; for (int k = 0; k < int(x & 255); ++k) c *= w; } r += c; } return r; };
    double r = av(f.num); for (auto& x : f.den) { double q = av(facs[x.first]); for (int k = 0; k < x.second; ++k) r /= q; } return std::floor(r);
}
double __sx_floor(double a) {
    if (!boxed(a)) return std::floor(a);
    if (g_mode == 1) return fbox(z3::expr(*Z, Z3_mk_fpa_round_to_integral(*Z, z3::expr(*Z, Z3_mk_fpa_rtn(*Z)), fe(a))));
    step();
    Frac f0 = frac(a); if (pconst(f0.num) && f0.den.empty()) return floor_q(cval(f0.num)).get_d();
    double bad = 0, hint = 0; bool have = false; // an irrational witness may be approximated past the border
    for (int n = 0; n < 200; ++n) {
        double k;
        if (replaying()) k = (double)(prefix[tpos++] >> 4);
        else { ensure_model(); if (!model_ok) leave(J_INCONC, "no witness for an integer part"); k = witness_value(a); if (have && k == bad) k = hint; }
        trace.push_back((int64_t)k * 16 + 9); have = true; bad = k;
        if (!cmp3(a, k, 6)) { hint = k - 1; continue; } if (!cmp3(a, k + 1, 1)) { hint = k + 1; continue; } return k;
    }
    leave(J_INCONC, "too many integer parts");
}
double __sx_ceil(double a) { if (!boxed(a)) return std::ceil(a); if (g_mode == 1) return fbox(z3::expr(*Z, Z3_mk_fpa_round_to_integral(*Z, z3::expr(*Z, Z3_mk_fpa_rtp(*Z)), fe(a)))); return __sx_neg(__sx_floor(__sx_neg(a))); }
double __sx_trunc(double a) { if (!boxed(a)) return std::trunc(a); if (g_mode == 1) return fbox(z3::expr(*Z, Z3_mk_fpa_round_to_integral(*Z, z3::expr(*Z, Z3_mk_fpa_rtz(*Z)), fe(a)))); return cmp3(a, 0.0, 6) ? __sx_floor(a) : __sx_ceil(a); }
double __sx_round(double a) { if (!boxed(a)) return std::round(a); if (g_mode == 1) return fbox(z3::expr(*Z, Z3_mk_fpa_round_to_integral(*Z, z3::expr(*Z, Z3_mk_fpa_rna(*Z)), fe(a)))); return cmp3(a, 0.0, 6) ? __sx_floor(__sx_bin(0, a, 0.5)) : __sx_ceil(__sx_bin(1, a, 0.5)); }
double __sx_rint(double a) { if (!boxed(a)) return std::rint(a); if (g_mode == 1) return fbox(z3::expr(*Z, Z3_mk_fpa_round_to_integral(*Z, rne(), fe(a)))); leave(J_UNSUP, "rint"); }
int64_t __sx_ftoi(double a, uint32_t w, uint32_t sg) {
    (void)w;
    if (!boxed(a)) return sg ? (int64_t)a : (a >= 9.2e18 ? (int64_t)(uint64_t)a : (int64_t)a);
    if (g_mode == 1) leave(J_UNSUP, "fptosi in fp mode");
    double t = __sx_trunc(a); if (boxed(t)) leave(J_UNSUP, "fptosi"); return (int64_t)t;
}
// trigonometry: an angle is represented by a pair (c, s) with c*c + s*s = 1
static std::map<string,std::pair<double,double>> trig; // key of the angle term -> (cos, sin)
static const double PI = 3.14159265358979323846;
static double mkvar(int kind, const char* name) { int v = new_var(kind, name); if (!vals[v].kind) model_ok = false; Frac f; f.num = pvar(v); return box(std::move(f)); }
static string tkey(const Frac& f) { string k = key(f.num); for (auto& d : f.den) k += "|" + std::to_string(d.first) + "^" + std::to_string(d.second); return k; }
static std::pair<double,double> cs_of(double a) {
    Frac f = frac(a); string k = tkey(f); auto it = trig.find(k); if (it != trig.end()) return it->second;
    { auto jt = trig.find(tkey(fneg_(f))); if (jt != trig.end()) return {jt->second.first, __sx_neg(jt->second.second)}; }
    // sum of registered angles: a = b + rest, used for linear combinations with integer coefficients
    if (f.den.empty() && f.num.size() > 1) {
        auto t0 = f.num.begin(); Frac x, y; x.num.emplace(t0->first, t0->second); y.num = f.num; y.num.erase(t0->first);
        auto p = cs_of(box(std::move(x))), q = cs_of(box(std::move(y)));
        double c = __sx_bin(1, __sx_bin(2, p.first, q.first), __sx_bin(2, p.second, q.second)), s = __sx_bin(0, __sx_bin(2, p.second, q.first), __sx_bin(2, p.first, q.second));
        return trig[k] = {c, s};
    }
    double c = mkvar(2, "cos"), s = mkvar(2, "sin"); Frac fc = frac(c), fs2 = frac(s); Poly d = padd(padd(pmul(fc.num, fc.num), pmul(fs2.num, fs2.num), 1), pc_(1), -1);
    pc.push_back({zpoly(d) == 0, pvars(d)}); return trig[k] = {c, s};
}
double __sx_cos(double a) { if (!boxed(a)) return std::cos(a); if (g_mode == 1) leave(J_UNSUP, "cos"); return cs_of(a).first; }
double __sx_sin(double a) { if (!boxed(a)) return std::sin(a); if (g_mode == 1) leave(J_UNSUP, "sin"); return cs_of(a).second; }
double __sx_tan(double a) { if (!boxed(a)) return std::tan(a); if (g_mode == 1) leave(J_UNSUP, "tan"); auto p = cs_of(a); return __sx_bin(3, p.second, p.first); }
static void add_rel(double a, int mask, double b) { Frac d = fadd(frac(a), frac(b), -1); if (den_sign(d) < 0) mask = flipm(mask); if (pconst(d.num)) return; add_con(d.num, mask); }
static double mkangle(double c, double s, const char* name) {
    double th = mkvar(2, name); trig[tkey(frac(th))] = {c, s}; return th;
}
double __sx_atan2(double y, double x) {
    if (!boxed(x) && !boxed(y)) return std::atan2(y, x); if (g_mode == 1) leave(J_UNSUP, "atan2");
    int sy = sign_of(y), sx_ = sign_of(x);
    if (sy == 2) return sx_ == 1 ? PI : 0.0; if (sx_ == 2) return sy == 4 ? PI / 2 : -PI / 2;
    Frac q = fmul_(frac(y), frac(y)); string k = "atan2:" + tkey(frac(y)) + "/" + tkey(frac(x)); (void)q;
    static std::map<string,double>* memo = nullptr; (void)memo;
    auto it = trig.find(k); if (it != trig.end()) return it->second.first;
    double r = __sx_sqrt(__sx_bin(0, __sx_bin(2, x, x), __sx_bin(2, y, y)));
    double th = mkangle(__sx_bin(3, x, r), __sx_bin(3, y, r), "atan2");
    if (sy == 4) { add_rel(th, 4, sx_ == 4 ? 0.0 : PI / 2); add_rel(th, 1, sx_ == 4 ? PI / 2 : PI); }
    else { add_rel(th, 1, sx_ == 4 ? 0.0 : -PI / 2); add_rel(th, 4, sx_ == 4 ? -PI / 2 : -PI); }
    model_ok = false; trig[k] = {th, 0}; return th;
}
double __sx_atan(double a) { if (!boxed(a)) return std::atan(a); return __sx_atan2(a, 1.0); }
double __sx_acos(double a) {
    if (!boxed(a)) return std::acos(a); if (g_mode == 1) leave(J_UNSUP, "acos");
    if (__sx_fcmp(2, a, 1.0) || __sx_fcmp(4, a, -1.0)) return NAN;
    string k = "acos:" + tkey(frac(a)); auto it = trig.find(k); if (it != trig.end()) return it->second.first;
    double th = mkangle(a, __sx_sqrt(__sx_bin(1, 1.0, __sx_bin(2, a, a))), "acos"); add_rel(th, 6, 0.0); add_rel(th, 3, PI); model_ok = false; trig[k] = {th, 0}; return th;
}
double __sx_asin(double a) {
    if (!boxed(a)) return std::asin(a); if (g_mode == 1) leave(J_UNSUP, "asin");
    if (__sx_fcmp(2, a, 1.0) || __sx_fcmp(4, a, -1.0)) return NAN;
    string k = "asin:" + tkey(frac(a)); auto it = trig.find(k); if (it != trig.end()) return it->second.first;
    double th = mkangle(__sx_sqrt(__sx_bin(1, 1.0, __sx_bin(2, a, a))), a, "asin"); add_rel(th, 6, -PI / 2); add_rel(th, 3, PI / 2); model_ok = false; trig[k] = {th, 0}; return th;
}
double __sx_hypot(double a, double b) { if (!boxed(a) && !boxed(b) && g_mode == 1) return std::hypot(a, b); return __sx_sqrt(__sx_bin(0, __sx_bin(2, a, a), __sx_bin(2, b, b))); }
// a function known only as a function: equal arguments, equal values
static double opaque(const string& k, const char* name) { auto it = trig.find(k); if (it != trig.end()) return it->second.first; double r = mkvar(2, name); model_ok = false; trig[k] = {r, 0}; return r; }
double __sx_pow(double a, double b) {
    if (!boxed(a) && !boxed(b) && (g_mode == 1)) return std::pow(a, b);
    if (!boxed(b)) { if (b == 0.5) return __sx_sqrt(a); if (b == std::nearbyint(b) && std::fabs(b) <= 16) { double r = 1; for (int k = 0; k < (int)std::fabs(b); ++k) r = __sx_bin(2, r, a); return b < 0 ? __sx_bin(3, 1.0, r) : r; } }
    if (!boxed(a) && !boxed(b)) return std::pow(a, b);
    if (g_mode == 1) leave(J_UNSUP, "pow");
    if (!cmp3(a, 0.0, 4)) leave(J_UNSUP, "pow of a number that is not positive");
    double r = opaque("pow:" + tkey(frac(a)) + "," + tkey(frac(b)), "pow"); add_rel(r, 4, 0.0); return r;
}
double __sx_exp(double a) { if (!boxed(a)) return std::exp(a); if (g_mode == 1) leave(J_UNSUP, "exp"); double r = opaque("exp:" + tkey(frac(a)), "exp"); add_rel(r, 4, 0.0); return r; }
double __sx_log(double a) { if (!boxed(a)) return std::log(a); if (g_mode == 1 || !cmp3(a, 0.0, 4)) leave(J_UNSUP, "log"); return opaque("log:" + tkey(frac(a)), "log"); }
double __sx_log10(double a) { if (!boxed(a)) return std::log10(a); if (g_mode == 1 || !cmp3(a, 0.0, 4)) leave(J_UNSUP, "log10"); return opaque("log10:" + tkey(frac(a)), "log10"); }
#define UNS1(n) double __sx_##n(double a) { if (!boxed(a)) return std::n(a); leave(J_UNSUP, #n); }
UNS1(log2) UNS1(exp2) UNS1(cbrt) UNS1(sinh) UNS1(cosh) UNS1(tanh) UNS1(expm1) UNS1(log1p) UNS1(nearbyint)
double __sx_fmod(double a, double b) { return __sx_bin(4, a, b); }
double __sx_remainder(double a, double b) { if (!boxed(a) && !boxed(b)) return std::remainder(a, b); leave(J_UNSUP, "remainder"); }

// ------------------------------------------------------------------ harness interface
static unsigned g_seed = 1;
// restricted rounds: a second look at what the solver could not settle, on subspaces where some inputs are fixed to small numbers
static int g_round = 0, g_nin = 2;
static unsigned hash3(unsigned a, unsigned b, unsigned c) { unsigned h = a * 2654435761u ^ (b + 1) * 2246822519u ^ (c + 1) * 3266489917u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; return h; }
static double fresh_real(const char* n0);
double sx_real(const char* n0) { return sx_real_rng(n0, -1e9, 1e9); }
double sx_real_rng(const char* n0, double lo, double hi) {
    if (boxed(lo)) lo = -1e9; if (boxed(hi)) hi = 1e9;
    if (g_round && g_mode == 0) {
        unsigned i = inputs.size();
        if ((int)i != g_round % std::max(1, g_nin) && hash3(g_round, i, 7) % 8 < 3u + g_round % 5) {
            static const double C[] = {0, 1, 3, 4, -1, -3, -4, 2, 0.5, 6, 8, -2, 5, 12, 0.25, 1.5};
            vector<double> ok; for (double c : C) if (c >= lo && c <= hi) ok.push_back(c);
            unsigned h = hash3(g_round, i, 11); double c = !ok.empty() ? ok[h % ok.size()] : lo + (hi - lo) * ((h % 4) / 4.0);
            string n = uniq(n0); int v = new_var(0, n); inputs.push_back({n, v}); vals[v].kind = 1; vals[v].q = q_of(c);
            Poly d = padd(pvar(v), pc_(q_of(c)), -1); pc.push_back({zpoly(d) == 0, pvars(d)}); return c;
        }
    }
    return fresh_real(n0);
}
static double fresh_real(const char* n0) {
    string n = uniq(n0);
    if (g_mode == 1) { fvars.push_back(Z->constant(n.c_str(), fs())); inputs.push_back({n, (int)fvars.size() - 1}); return fbox(fvars.back()); }
    int v = new_var(0, n); inputs.push_back({n, v});
    if (!vals[v].kind) { vals[v].kind = 1; unsigned h = g_seed * 2654435761u + v * 40503u; vals[v].q = mpq_class((long)((h >> 8) % 17) - 8 + 0); }
    Frac f; f.num = pvar(v); terms.push_back(std::move(f)); exactbit.resize(terms.size(), 0); exactbit[terms.size() - 1] = 1; return mkbox(terms.size() - 1);
}
float sx_float(const char* n0) {
    if (g_mode == 0) return __sx_d2f(sx_real(n0));
    string n = uniq(n0); fvars.push_back(Z->constant(n.c_str(), Z->fpa_sort(8, 24))); inputs.push_back({n, (int)fvars.size() - 1});
    double d = fbox(z3::expr(*Z, Z3_mk_fpa_to_fp_float(*Z, rne(), fvars.back(), fs()))); uint32_t u = (0x7FDu << 20) | (uint32_t)boxid(d); float f; memcpy(&f, &u, 4); return f;
}
int64_t sx_choose(const char* n, int64_t lo, int64_t hi) {
    int64_t v;
    if (replaying()) v = prefix[tpos++] >> 4;
    else { v = lo; for (int64_t k = hi; k > lo; --k) { Item it; it.pre = trace; it.pre.push_back(k * 16 + 8); it.vals = vals; it.has_model = model_ok; it.fm = fmodel; if (g_mode == 1) it.has_model = fmodel.has_value(); work.push_back(std::move(it)); } }
    trace.push_back(v * 16 + 8); choices.push_back({uniq(n), v}); return v;
}
void sx_assume_rel(double a, int r, double b) {
    bool ba = boxed(a), bb = boxed(b);
    static const unsigned PRED[6] = {4, 5, 1, 14, 3, 2};
    if (!ba && !bb) { bool ok = r == 0 ? a < b : r == 1 ? a <= b : r == 2 ? a == b : r == 3 ? a != b : r == 4 ? a >= b : a > b; if (!ok) leave(J_ASSUME); return; }
    if (g_mode == 1) { z3::expr c = fpred(PRED[r], fe(a), fe(b)).simplify(); if (c.is_true()) return; if (c.is_false()) leave(J_ASSUME); pc.push_back({c, {}}); facts[std::to_string(c.id())] = 1; if (fmodel && !fmodel->eval(c, true).is_true()) fmodel.reset(); if (!fmodel && !replaying()) ensure_fmodel(); return; }
    if (!ba && !std::isfinite(a)) { if (!__sx_fcmp(PRED[r] & 7, a, b)) leave(J_ASSUME); return; }
    if (!bb && !std::isfinite(b)) { if (!__sx_fcmp(PRED[r] & 7, a, b)) leave(J_ASSUME); return; }
    int mask = RELMASK[r]; Frac d = fadd(frac(a), frac(b), -1); if (den_sign(d) < 0) mask = flipm(mask);
    Poly p = d.num; if (pconst(p)) { mpq_class c = cval(p); int s = c < 0 ? 1 : c == 0 ? 2 : 4; if (!(s & mask)) leave(J_ASSUME); return; }
    if (canon(p) < 0) mask = flipm(mask); string k = key(p); auto it = facts.find(k); int al = it != facts.end() ? it->second : static_signs(p);
    if ((al & ~mask) == 0) return; if (!(al & mask)) leave(J_ASSUME);
    facts[k] = al & mask; add_con(p, al & mask);
    if (model_ok) { int s = eval_sign(p); if (!s || !(s & mask)) model_ok = false; }
}
void sx_assume_bool(int c) { if (!c) leave(J_ASSUME); }
static void replay_guard() {}
void sx_assert_bool(int c, const char* l) {
    AStat& s = asserts[l]; ++s.reached; if (vlog.size() < 200) vlog.push_back({l, (double)!!c, 1});
    if (c) { ++s.discharged; ++s.trivial; return; }
    if (g_mode == 0) ensure_model(); else ensure_fmodel();
    vector<vector<z3::expr>> mg; if (g_mode == 0) { // stay away from the borders of the branch conditions if possible
        vector<z3::expr> far; for (auto& x : pcp) { if (x.second == 4 || x.second == 1) { z3::expr e = zpoly(x.first); far.push_back(x.second == 4 ? e >= zq(mpq_class("1/64")) : e <= zq(mpq_class("-1/64"))); } } mg.push_back(far); mg.push_back({}); }
    std::optional<z3::model> m;
    bool feasible = g_mode == 0 ? model_ok : fmodel.has_value();
    if (!feasible) { ++s.unknown; return; }
    ++s.sat; violation(l, "assert", {}, mg);
    leave(J_DONE);
}
void sx_assert_rel(double a, int r, double b, const char* l, double) {
    AStat& s = asserts[l]; ++s.reached; if (vlog.size() < 200) vlog.push_back({l, a, b});
    bool ba = boxed(a), bb = boxed(b);
    if (!ba && !bb) {
        bool ok = r == 0 ? a < b : r == 1 ? a <= b : r == 2 ? a == b : r == 3 ? a != b : r == 4 ? a >= b : a > b;
        if (ok) { ++s.discharged; ++s.trivial; return; }
        --s.reached; vlog.pop_back(); sx_assert_bool(0, l); return;
    }
    if (g_mode == 1) {
        static const unsigned PRED[6] = {4, 5, 1, 14, 3, 2};
        if (replaying()) { --s.reached; return; }
        z3::expr c = fpred(PRED[r], fe(a), fe(b)); auto es = all_pc(); es.push_back(!c); std::optional<z3::model> m; R q = solve(es, &m, qtimeout * 3);
        if (q == UNSAT) { ++s.discharged; return; } if (q == UNK) { ++s.unknown; return; }
        ++s.sat; violation(l, "assert", {!c}, {}); return;
    }
    if ((!ba && !std::isfinite(a)) || (!bb && !std::isfinite(b))) { static const unsigned PRED[6] = {4, 5, 1, 14, 3, 2}; bool ok = __sx_fcmp(PRED[r], a, b); if (ok) { ++s.discharged; ++s.trivial; return; } --s.reached; vlog.pop_back(); sx_assert_bool(0, l); return; }
    Frac d = fadd(frac(a), frac(b), -1); int mask = RELMASK[r]; if (den_sign(d) < 0) mask = flipm(mask);
    Poly p = d.num;
    if (pconst(p)) { mpq_class c = cval(p); int sg = c < 0 ? 1 : c == 0 ? 2 : 4; if (sg & mask) { ++s.discharged; ++s.trivial; return; } --s.reached; vlog.pop_back(); sx_assert_bool(0, l); return; }
    int m0 = mask; Poly pcn = p; if (canon(pcn) < 0) mask = flipm(mask); string k = key(pcn); auto it = facts.find(k); int al = it != facts.end() ? it->second : static_signs(pcn);
    if ((al & ~mask) == 0) { ++s.discharged; return; }
    if (replaying()) { // decided by the run that created this prefix
        --s.reached; int64_t o = nextent(k);
        if (o == 4) facts[k] = al & mask; else if (o == 6) { facts[k] = al & mask; add_con(pcn, al & mask); }
        return; }
    int bad = al & ~mask;
    ensure_model();
    vector<int> ov; auto es = slice(pvars(pcn), &ov); es.push_back(zmask(zpoly(pcn), bad));
    std::optional<z3::model> m; R q = solve(es, &m, qtimeout * 3);
    if (q == UNSAT) { ++s.discharged; facts[k] = al & mask; trace.push_back(ent(k, 4)); return; }
    if (q == UNK) { ++s.unknown; trace.push_back(ent(k, 5)); return; }
    ++s.sat;
    // margins on the difference a-b itself
    z3::expr diff = zpoly(p); z3::expr den = Z->real_val(1); for (auto& x : d.den) for (int j = 0; j < x.second; ++j) den = den * zpoly(facs[x.first]);
    (void)m0; vector<vector<z3::expr>> mg;
    for (const char* mm : {"1", "1/16", "1/4096"}) { z3::expr e = zq(mpq_class(mm)); z3::expr ad = z3::ite(den < 0, -den, den); mg.push_back({diff >= e * ad || diff <= -(e * ad)}); }
    violation(l, "assert", {zmask(zpoly(pcn), bad)}, mg);
    // continue where the assertion holds, if it can
    trace.push_back(ent(k, 6)); facts[k] = al & mask; add_con(pcn, al & mask); model_ok = false; ensure_model();
}
void sx_assert_same(double a, double b, const char* l) {
    if (g_mode == 0) { sx_assert_rel(a, 2, b, l, 0); return; }
    AStat& s = asserts[l]; ++s.reached;
    if (replaying()) { --s.reached; return; }
    z3::expr c = fe(a) == fe(b); auto es = all_pc(); es.push_back(!c); std::optional<z3::model> m; R q = solve(es, &m, qtimeout * 3);
    if (q == UNSAT) { ++s.discharged; return; } if (q == UNK) { ++s.unknown; return; } ++s.sat; violation(l, "assert", {!c}, {});
}
void sx_cover(const char* l) { covers[l]++; }
void sx_assume_finite(double a) {
    if (!boxed(a)) { if (!std::isfinite(a)) leave(J_ASSUME); return; }
    if (g_mode == 0) return;
    z3::expr x = fe(a); z3::expr c = (!z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, x)) && !z3::expr(*Z, Z3_mk_fpa_is_infinite(*Z, x))).simplify();
    if (c.is_true()) return; if (c.is_false()) leave(J_ASSUME); pc.push_back({c, {}}); if (fmodel && !fmodel->eval(c, true).is_true()) fmodel.reset(); ensure_fmodel();
}
int sx_is_symbolic_run() { return 1; }
int sx_is_fp_mode() { return g_mode; }
} // extern C

// ------------------------------------------------------------------ driver
namespace { struct H { string name; void (*fn)(); int mode; string bounds; }; vector<H>& hs() { static vector<H> v; return v; } }
extern "C" void sx_register(const char* n, void (*f)(), int mode, const char* b) { hs().push_back({n, f, mode, b}); }
static void on_sig(int s) { if (now() > 0) { g_why = "signal " + std::to_string(s); sigset_t m; sigemptyset(&m); sigaddset(&m, s); sigprocmask(SIG_UNBLOCK, &m, nullptr); siglongjmp(jb, J_CRASH); } }
static string esc(const string& s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static string pstr(const Poly& p) { std::ostringstream o; bool f = true; int n = 0; for (auto& t : p) { if (++n > 8) { o << " + ..."; break; } if (!f) o << " + "; f = false; o << t.second.get_str(); for (auto x : t.first) { o << "*" << vars[x >> 8].name; if ((x & 255) > 1) o << "^" << (x & 255); } } return o.str(); }

// approximate value of p under the witness
static double approx_eval(const Poly& p) { bool ok; mpq_class q = evalq(p, ok); if (ok) return q.get_d(); double r = 0; for (auto& t : p) { double c = t.second.get_d(); for (auto x : t.first) { Val& v = vals[x >> 8]; if (!v.kind) return NAN; double w = v.kind == 1 ? v.q.get_d() : approx(*v.alg); for (int k = 0; k < int(x & 255); ++k) c *= w; } r += c; } return r; }

int main(int argc, char** argv) {
    string run, out, fin; double budget = 1e9; long maxpaths = 1e9; int max_rounds = 0; double t_round = 0; int nin_max = 2;
    for (int i = 1; i < argc; ++i) { string a = argv[i];
        if (a == "--list") { for (auto& h : hs()) printf("%s\t%d\t%s\n", h.name.c_str(), h.mode, h.bounds.c_str()); return 0; }
        auto nx = [&] { return string(argv[++i]); };
        if (a == "--run") run = nx(); else if (a == "--out") out = nx(); else if (a == "--time") budget = atof(nx().c_str()); else if (a == "--qt") qtimeout = atoi(nx().c_str()); else if (a == "--frontier") fin = nx(); else if (a == "--paths") maxpaths = atol(nx().c_str()); else if (a == "--steps") max_steps = atol(nx().c_str()); else if (a == "--seed") g_seed = atoi(nx().c_str()); else if (a == "--maxce") g_maxce = atoi(nx().c_str()); else if (a == "--rounds") max_rounds = atoi(nx().c_str()); }
    H* h = nullptr; for (auto& x : hs()) if (x.name == run) h = &x; if (!h) { fprintf(stderr, "no harness %s\n", run.c_str()); return 2; }
    g_mode = h->mode; z3::context zc; Z = &zc;
    double t0 = now(); t_end = t0 + budget + 30;
    if (fin.empty()) { Item it; it.has_model = true; work.push_back(it); }
    else { std::ifstream f(fin); string line; while (std::getline(f, line)) { std::istringstream is(line); Item it; int64_t v; while (is >> v) it.pre.push_back(v); work.push_back(it); } }
    { stack_t ss; ss.ss_sp = malloc(1 << 20); ss.ss_size = 1 << 20; ss.ss_flags = 0; sigaltstack(&ss, nullptr); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGTRAP}) sigaction(s, &sa, nullptr); }
    g_out = out;
    std::thread([&zc, t0, budget] { for (;;) { std::this_thread::sleep_for(std::chrono::milliseconds(300)); double q = g_qlimit, t = now(); if ((q > 0 && t > q) || t > t0 + budget + 15) Z3_interrupt(zc); } }).detach();
    volatile bool stop = false; int n_stall = 0;
    // the path does not get anywhere (or reads what differs from run to run): hand its inputs over, the native run tells whether the code really crashes or hangs
    auto stall = [&] { if (g_mode != 0 || ++n_stall > 2) return; if (sigsetjmp(jb, 1) == 0) { ensure_model(); if (model_ok) violation("returns", "stall", {}, {{}}); } };
    if (max_rounds) work.clear();
    while ((!work.empty() || g_round < max_rounds) && !stop) {
        if (now() - t0 > budget || n_paths >= maxpaths) break;
        if (max_rounds) {
            if (!work.empty() && now() - t_round > budget / 8) work.clear();
            if (work.empty()) { if (g_round >= max_rounds || ces.size() >= 6) break; ++g_round; g_nin = nin_max; t_round = now(); Item it; it.has_model = true; work.push_back(it); }
        }
        Item it = std::move(work.back()); work.pop_back();
        terms.clear(); fterms.clear(); exactbit.clear(); vars.clear(); facs.clear(); facid.clear(); facts.clear(); pc.clear(); pcp.clear(); trace.clear(); tpos = 0; choices.clear(); inputs.clear(); uses.clear(); fvars.clear(); trig.clear(); vlog.clear(); steps = 0; path_uncertain = false;
        vals = it.vals; model_ok = it.has_model || it.pre.empty(); fmodel = it.fm; prefix = it.pre;
        ++n_paths; const double t_path = now(); (void)t_path;
        int code = sigsetjmp(jb, 1);
        if (code == 0) {
            try { h->fn(); code = J_DONE; }
            catch (z3::exception& e) { g_why = string("z3 exception ") + e.msg(); code = J_UNSUP; }
            catch (std::exception& e) { g_why = string("exception ") + e.what(); code = J_CRASH; }
            catch (...) { g_why = "exception"; code = J_CRASH; }
        }
        if (max_rounds && (int)inputs.size() > nin_max) nin_max = inputs.size();
        switch (code) {
        case J_DONE: ++n_done; n_dec += trace.size() - std::min(prefix.size(), trace.size()); break;
        case J_ASSUME: ++n_assume; break;
        case J_INFEAS: ++n_infeas; break;
        case J_UNSUP: ++n_unsup; notes["unsupported: " + g_why]++; if (g_why == "replay diverged") stall(); break;
        case J_INCONC: ++n_inconc; notes["inconclusive: " + g_why]++; break;
        case J_TIME: ++n_timecut; work.push_back(it); stop = true; if (!n_done && now() - t_path > 3) stall(); break;
        case J_STEPS: case J_CRASH: {
            string lab = code == J_CRASH ? "no-crash" : "terminates"; AStat& s = asserts[lab]; ++s.reached; int c2 = sigsetjmp(jb, 1);
            if (c2 == 0) { if (g_mode == 0) ensure_model(); else ensure_fmodel(); bool ok = g_mode == 0 ? model_ok : fmodel.has_value(); if (ok) { ++s.sat; notes[lab + ": " + g_why]++; violation(lab, lab == "no-crash" ? "crash" : "hang", {}, {{}}); } else ++s.unknown; }
            break; }
        }
        if (code == J_DONE && g_mode == 0 && model_ok && !replaying() && (int)witnesses.size() < g_maxwit && (n_done < 3 || n_done % 7 == 0)) {
            bool ok = true; std::ostringstream w; w.precision(17); w << "{\"in\":["; bool f1 = true;
            for (auto& in : inputs) { Val& v = vals[in.second]; double d; if (v.kind != 1 || !exact_double(v.q, d)) { ok = false; break; } if (!f1) w << ","; f1 = false; w << "[\"" << esc(in.first) << "\",\"" << dstr(d) << "\"]"; }
            for (auto& c : choices) { if (!f1) w << ","; f1 = false; w << "[\"" << esc(c.first) << "\",\"" << c.second << "\"]"; }
            w << "],\"log\":["; f1 = true;
            auto evd = [&](double d, string& o) { if (!boxed(d)) { o = dstr(d); return true; } Frac f = frac(d); double n = approx_eval(f.num); for (auto& x : f.den) { double q = approx_eval(facs[x.first]); for (int k = 0; k < x.second; ++k) n /= q; } if (!std::isfinite(n)) return false; o = dstr(n); return true; };
            if (ok) for (auto& x : vlog) { string p, q; if (!evd(x.a, p) || !evd(x.b, q)) { ok = false; break; } if (!f1) w << ","; f1 = false; w << "[\"" << esc(x.label) << "\",\"" << p << "\",\"" << q << "\"]"; }
            w << "]}"; if (ok) witnesses.push_back(w.str());
        }
        if (code == J_DONE && samples.size() < 3) {
            std::ostringstream o; o << "path " << n_paths << ": " << trace.size() << " branch decisions; witness";
            for (auto& in : inputs) { if (g_mode == 0) { Val& v = vals[in.second]; o << " " << in.first << "=" << (v.kind == 1 ? v.q.get_str() : v.kind == 2 ? "alg(" + std::to_string(approx(*v.alg)) + ")" : "?"); } }
            for (auto& c : choices) o << " " << c.first << "=" << c.second;
            o << "; conditions:"; int n = 0; for (auto& x : pcp) { if (++n > 4) { o << " ..."; break; } static const char* S[] = {"", "<0", "=0", "<=0", ">0", "!=0", ">=0", ""}; o << " [" << pstr(x.first) << " " << S[x.second] << "]"; }
            samples.push_back(o.str());
        }
        if (code == J_DONE && path_uncertain) notes["path feasibility unknown"]++;
    }
    std::ostringstream o; o.precision(6);
    o << "{\"harness\":\"" << run << "\",\"bounds\":\"" << esc(h->bounds) << "\",\"mode\":\"" << (g_mode ? "fp" : "real") << "\",\"paths\":" << n_paths << ",\"completed\":" << n_done << ",\"assume_cut\":" << n_assume << ",\"infeasible\":" << n_infeas << ",\"unsupported\":" << n_unsup << ",\"inconclusive\":" << n_inconc + n_timecut
      << ",\"queries\":{\"sat\":" << n_sat << ",\"unsat\":" << n_unsat << ",\"unknown\":" << n_unk << "},\"solver_s\":" << t_solver << ",\"slowest_s\":" << t_slow << ",\"wall_s\":" << now() - t0 << ",\"rounds\":" << g_round << ",\"decisions\":" << n_dec << ",\"cmp\":" << n_cmp << ",\"cmp_exact\":" << n_cmp_exact;
    o << ",\"asserts\":{"; bool f = true; for (auto& a : asserts) { if (!f) o << ","; f = false; o << "\"" << esc(a.first) << "\":{\"reached\":" << a.second.reached << ",\"discharged\":" << a.second.discharged << ",\"by_solver\":" << a.second.discharged - a.second.trivial << ",\"sat\":" << a.second.sat << ",\"unknown\":" << a.second.unknown << "}"; }
    o << "},\"covers\":{"; f = true; for (auto& c : covers) { if (!f) o << ","; f = false; o << "\"" << esc(c.first) << "\":" << c.second; }
    o << "},\"notes\":{"; f = true; for (auto& c : notes) { if (!f) o << ","; f = false; o << "\"" << esc(c.first) << "\":" << c.second; }
    o << "},\"ces\":["; f = true; for (auto& c : ces) { if (!f) o << ","; f = false; o << "{\"label\":\"" << esc(c.label) << "\",\"kind\":\"" << c.kind << "\",\"in\":["; bool g = true; for (auto& x : c.in) { if (!g) o << ","; g = false; o << "[\"" << esc(x.first) << "\",\"" << x.second << "\"]"; } o << "]}"; }
    o << "],\"witnesses\":["; f = true; for (auto& s : witnesses) { if (!f) o << ","; f = false; o << s; }
    o << "],\"samples\":["; f = true; for (auto& s : samples) { if (!f) o << ","; f = false; o << "\"" << esc(s) << "\""; }
    o << "],\"frontier\":["; f = true; for (auto& w : work) { if (!f) o << ","; f = false; o << "["; bool g = true; for (auto v : w.pre) { if (!g) o << ","; g = false; o << v; } o << "]"; }
    o << "]}";
    if (out.empty()) printf("%s\n", o.str().c_str()); else { std::ofstream fo(out); fo << o.str() << "\n"; }
    fflush(stdout); _exit(0);
}
