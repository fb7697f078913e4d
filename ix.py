#!/opt/veriftools/pyvenv/bin/python3
"""ix.py PROP [--tier quick|thorough] [--only PREFIX] [--budget S]

Checks integer code. Every harness (harness/*.cpp written against engine/ix.h) is compiled with clang to LLVM IR from the current tree (signed overflow,
division by zero, oversized shifts and float-to-integer overflow trap); this program executes that IR symbolically: integers are mathematical
integers with the wrap-around of their width made explicit, doubles are exact reals, each branch is decided by Z3, and each check is a query for arguments
that break it. Counterexamples are replayed against a native build. Called by run.py for properties whose entry says "engine": "ix"."""
import sys, os, re, json, time, subprocess, tempfile, shutil, threading
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
import z3
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('SX_REPO', '/repo')
FLAGS = ['-std=c++14', '-w', '-DBOOST_RESULT_OF_USE_TR1_WITH_DECLTYPE_FALLBACK', '-DBOOST_CHRONO_HEADER_ONLY', '-DBOOST_PARAMETER_MAX_ARITY=20', '-I' + HERE + '/engine', '-I' + HERE + '/harness', '-I' + REPO]
SAN = '-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift-exponent,float-cast-overflow,return,unreachable'

class Unsup(Exception): pass
class Done(Exception): pass

# ------------------------------------------------------------------ IR
TY = r'(?:i\d+|double|float|ptr|void|\{[^}]*\}|\[\d+ x [^\]]+\]|%[\w.":]+)'
def parse(path):
    funcs, consts, cur, blk = {}, {}, None, None
    pend = ''
    for line in open(path, errors='replace'):
        line = line.rstrip('\n')
        if pend: # a switch spans lines
            pend += ' ' + line.strip()
            if line.strip() == ']': blk.append(pend); pend = ''
            continue
        m = re.match(r'@([\w.$"]+) = .*constant \[\d+ x i8\] c"(.*)"', line)
        if m: consts[m.group(1)] = re.sub(r'\\([0-9A-F]{2})', lambda x: chr(int(x.group(1), 16)), m.group(2)).rstrip('\0'); continue
        if line.startswith('define '):
            m = re.match(r'define .*?(' + TY + r') @("[^"]+"|[\w.$]+)\((.*?)\)[^()]*(?:\([^()]*\))?[^()]*\{', line)
            if not m: cur = None; continue
            args = []
            for a in split(m.group(3)):
                p = a.split(); args.append((p[0], p[-1]))
            cur = dict(name=m.group(2).strip('"'), args=args, blocks={}, ret=m.group(1)); funcs[cur['name']] = cur; blk = None; nargs = len(args); first = True; continue
        if line == '}': cur = None; continue
        if cur is None: continue
        m = re.match(r'([\w.$-]+):', line)
        if m: blk = cur['blocks'].setdefault(m.group(1), []); cur.setdefault('entry', m.group(1)); continue
        s = line.strip()
        if not s or s.startswith(';'): continue
        if blk is None: # unnamed entry block
            n = str(sum(1 for a in cur['args'] if re.match(r'%\d+$', a[1]))); blk = cur['blocks'].setdefault(n, []); cur['entry'] = n
        if s.startswith('switch') and not s.endswith(']'): pend = s; continue
        s = re.sub(r', !\w+(\.\w+)* !?\d+', '', re.sub(r', ![\w.]+ ![\w.]+', '', s)); s = re.sub(r' #\d+$', '', s)
        blk.append(s)
    return funcs, consts
def split(s): # at commas outside brackets
    r, d, c = [], 0, ''
    for ch in s:
        if ch in '([{<': d += 1
        if ch in ')]}>': d -= 1
        if ch == ',' and d == 0: r.append(c.strip()); c = ''
        else: c += ch
    if c.strip(): r.append(c.strip())
    return r

# ------------------------------------------------------------------ values: python int / z3 Int in the signed range; i1: bool / z3 Bool; double: Fraction / z3 Real
def isz(x): return isinstance(x, z3.ExprRef)
def width(t): return int(t[1:])
RNG, SHL, KEEP = {}, {}, [] # ranges of integer terms
def rng(v):
    if isinstance(v, int): return (v, v)
    k = v.get_id()
    if k in RNG: return RNG[k]
    d = v.decl().kind(); c = v.children(); r = (None, None)
    if d == z3.Z3_OP_ANUM: r = (v.as_long(),) * 2
    elif d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        rs = [rng(x) for x in c]
        if all(x[0] is not None for x in rs):
            if d == z3.Z3_OP_ADD: r = (sum(x[0] for x in rs), sum(x[1] for x in rs))
            elif d == z3.Z3_OP_SUB: r = (rs[0][0] - sum(x[1] for x in rs[1:]), rs[0][1] - sum(x[0] for x in rs[1:]))
            elif d == z3.Z3_OP_UMINUS: r = (-rs[0][1], -rs[0][0])
            else:
                r = rs[0]
                for x in rs[1:]: p = [a * b for a in r for b in x]; r = (min(p), max(p))
                if len(c) == 2 and c[0].eq(c[1]): r = (max(r[0], 0), r[1])
    elif d == z3.Z3_OP_ITE:
        a, b = rng(c[1]), rng(c[2])
        if a[0] is not None and b[0] is not None: r = (min(a[0], b[0]), max(a[1], b[1]))
    elif d == z3.Z3_OP_IDIV and z3.is_int_value(c[1]) and c[1].as_long() > 0:
        a = rng(c[0])
        if a[0] is not None: r = (a[0] // c[1].as_long(), a[1] // c[1].as_long())
    elif d == z3.Z3_OP_MOD and z3.is_int_value(c[1]) and c[1].as_long() > 0: r = (0, c[1].as_long() - 1)
    setr(v, *r); return r
def setr(v, lo, hi): RNG[v.get_id()] = (lo, hi); KEEP.append(v); return v
def wrap(v, n):
    if isinstance(v, int): v &= (1 << n) - 1; return v - (1 << n) if v >> (n - 1) else v
    h, m = 1 << (n - 1), 1 << n; lo, hi = rng(v)
    if lo is not None and lo >= -h and hi < h: return v
    if lo is not None and lo >= -3 * h and hi < 3 * h: return setr(z3.If(v >= h, v - m, z3.If(v < -h, v + m, v)), -h, h - 1)
    return setr(z3.If(z3.And(v >= -h, v < h), v, (v + h) % m - h), -h, h - 1)
def uns(v, n):
    if isinstance(v, int): return v & ((1 << n) - 1)
    lo, hi = rng(v)
    return v if lo is not None and lo >= 0 else setr(z3.If(v < 0, v + (1 << n), v), 0, (1 << n) - 1)
class Q: # a double that is an integer term over a whole number
    def __init__(self, n, d=1): self.n, self.d = n, d
    def __str__(self): return '%s/%s' % (self.n, self.d)
def toq(x): return Q(x.numerator, x.denominator) if isinstance(x, Fraction) else x
def isq(x): return isinstance(x, (Q, Fraction))
def norm(x): return Fraction(x.n, x.d) if isinstance(x, Q) and isinstance(x.n, int) else x
def toint(b): return (1 if b else 0) if isinstance(b, bool) else z3.If(b, 1, 0)
def B(c): return c if isz(c) else z3.BoolVal(bool(c))
def Not(c): return z3.Not(c) if isz(c) else not c
def And(a, b):
    if isinstance(a, bool): return b if a else False
    if isinstance(b, bool): return a if b else False
    return z3.And(a, b)
def Or(a, b): return Not(And(Not(a), Not(b)))
def Ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and a.sort() == z3.BoolSort()): return Or(And(c, a), And(Not(c), b))
    if isq(a) and isq(b): a, b = toq(a), toq(b); return Q(z3.If(c, a.n * b.d, b.n * a.d), a.d * b.d) if a.d != b.d else Q(z3.If(c, a.n, b.n), a.d)
    if isq(a) or isq(b): a, b = real(a), real(b)
    return z3.If(c, a, b)
def real(x): return z3.RealVal(str(x)) if isinstance(x, Fraction) else z3.ToReal(x.n) / x.d if isinstance(x, Q) else x
def neg(x): return Q(-x.n, x.d) if isinstance(x, Q) else -x
def isneg(x): return x.n < 0 if isinstance(x, Q) else x < 0
def floorq(x): # of Q
    return Q(x.n if x.d == 1 else x.n / x.d)
def mulz(a, b, d=0): # products distribute over conditionals, so that equal products are equal terms
    if d < 4 and isz(a) and isz(b):
        for x, y in ((a, b), (b, a)):
            if z3.is_app_of(x, z3.Z3_OP_ITE): return z3.If(x.arg(0), mulz(x.arg(1), y, d + 1), mulz(x.arg(2), y, d + 1))
            if z3.is_app_of(x, z3.Z3_OP_UMINUS): return -mulz(x.arg(0), y, d)
            if z3.is_int_value(x): return x.as_long() * y
            if z3.is_app_of(x, z3.Z3_OP_SUB) and x.num_args() == 2 and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() == 0: return -mulz(x.arg(1), y, d)
    return a * b
def divtrunc(a, b):
    if isinstance(a, int) and isinstance(b, int): q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
    return None

class Exec:
    def __init__(self, mod, name, qt, budget, pins=None):
        self.funcs, self.consts = mod; self.f = self.funcs[name]; self.qt = qt; self.t_end = time.time() + budget; self.pins = pins or {}
        self.st = dict(paths=0, completed=0, infeasible=0, assume_cut=0, unsupported=0, q_sat=0, q_unsat=0, q_unknown=0, solver_s=0.0, slowest_s=0.0, decisions=0, open=0)
        self.asserts = {}; self.ces = []; self.notes = {}; self.samples = []; self.wit = []; self.seen = set(); self.aux = []
    def solve(self, cons, model=False): # several configurations in turn, with growing time
        t0 = time.time(); r = z3.unknown; lem = getattr(self, 'lem', [])
        for part, lemmas, old, seed in [(0.05, 0, 0, 0), (0.05, 0, 1, 0)] + ([(0.1, 1, 0, 0)] if lem else []) + [(0.1, 0, 0, 7), (0.25, 0, 1, 3), (0.45, 1 if lem else 0, 0, 1)]:
            s = z3.Solver(); s.set('timeout', max(300, int(self.qt * part))); s.set('random_seed', seed)
            if old: s.set('smt.arith.solver', 2)
            for c in cons + (lem if lemmas else []): s.add(c)
            r = s.check()
            if r != z3.unknown: break
        dt = time.time() - t0; self.st['solver_s'] += dt; self.st['slowest_s'] = max(self.st['slowest_s'], dt)
        k = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'; self.st['q_' + k] += 1
        return (k, s.model() if k == 'sat' else None) if model else k
    # path conditions: self.pc; forks re-execute with a prefix of decisions
    def run(self):
        work = [[]]
        while work:
            if time.time() > self.t_end: self.st['open'] = len(work); break
            self.prefix = work.pop(); self.trace = []; self.work = work; self.pc = []; self.lem = []; self.may = None; self.steps = 0; self.mem = {}; self.fresh = 0; self.st['paths'] += 1
            RNG.clear(); SHL.clear(); args = []
            self.inputs = []
            for i, (t, n) in enumerate(self.f['args']):
                if t == 'i1': v = z3.Bool('a%d' % i); self.inputs.append((v, 1))
                else:
                    v = z3.Int('a%d' % i); w = width(t); h = 1 << (w - 1); self.pc += [v >= -h, v < h]; setr(v, -h, h - 1); self.inputs.append((v, w))
                    if i in self.pins: self.pc.append(v == self.pins[i])
                args.append(v)
            try:
                self.call(self.f, args, 0)
                if self.may is not None: self.check(Not(self.may), 'no-throw')
                self.st['completed'] += 1
                if len(self.wit) < 4:
                    k, m = self.solve(self.pc, True)
                    if m: self.wit.append(self.values(m))
                if len(self.samples) < 2: self.samples.append('path %d: %d decisions; conditions %s' % (self.st['paths'], len(self.trace), '; '.join(str(c).replace('\n', ' ')[:120] for c in self.pc[2 * len(args):][:3])))
            except Done as d: self.st[str(d)] += 1
            except Unsup as u: self.st['unsupported'] += 1; self.notes['unsupported: ' + str(u)[:100]] = self.notes.get('unsupported: ' + str(u)[:100], 0) + 1
            except z3.Z3Exception as e: self.st['unsupported'] += 1; self.notes['z3: ' + str(e)[:80]] = 1
        return self
    def decide(self, options): # options: list of conditions; returns the index taken on this path
        if any(c is True for c in options): return [i for i, c in enumerate(options) if c is True][0]
        live = [i for i, c in enumerate(options) if c is not False]
        if len(live) == 1: return live[0]
        d = len(self.trace)
        if d < len(self.prefix): k = self.prefix[d]
        else:
            ok = [i for i in live if self.solve(self.pc + [B(options[i])]) != 'unsat']
            if not ok: raise Done('infeasible')
            for i in ok[1:]: self.work.append(self.trace + [i])
            k = ok[0]; self.st['decisions'] += 1
        self.trace.append(k); self.pc.append(B(options[k])); return k
    def stat(self, l): return self.asserts.setdefault(l, dict(reached=0, discharged=0, by_solver=0, sat=0, unknown=0))
    def check(self, c, label):
        a = self.stat(label)
        a['reached'] += 1
        if c is True: a['discharged'] += 1; return
        if c is False and self.solve(self.pc) == 'unsat': a['discharged'] += 1; a['by_solver'] += 1; raise Done('infeasible')
        key = (tuple(self.trace), label, a['reached'] if not self.prefix else len(self.pc))
        k, m = self.solve(self.pc + [B(Not(c))], True)
        if k == 'unsat': a['discharged'] += 1; a['by_solver'] += 1
        elif k == 'unknown': a['unknown'] += 1
        else:
            a['sat'] += 1
            if sum(1 for x in self.ces if x['label'] == label) < 4: self.ces.append(dict(label=label, args=self.values(m)))
        if c is False: raise Done('completed')
        self.pc.append(B(c))
    def values(self, m):
        r = []
        for v, w in self.inputs:
            x = m.eval(v, model_completion=True); r.append(int(z3.is_true(x)) if w == 1 else x.as_long())
        return r
    # ---- functions
    def call(self, f, args, depth):
        if depth > 40: raise Unsup('depth')
        env = {n: v for (t, n), v in zip(f['args'], args)}; b = f['entry']; prev = None
        while True:
            ins = f['blocks'][b]; i = 0; phis = {}
            while i < len(ins):
                m = re.match(r'(%[\w.]+) = phi (?:\w+ )*?(' + TY + r') (.*)', ins[i])
                if not m: break
                for v, p in re.findall(r'\[ ([^,]+), %([\w.$-]+) \]', m.group(3)):
                    if p == prev: phis[m.group(1)] = self.val(m.group(2), v, env)
                i += 1
            env.update(phis); nxt = None
            for s in ins[i:]:
                self.steps += 1
                if self.steps > 20000: raise Unsup('steps')
                if time.time() > self.t_end: raise Unsup('time')
                r = self.ins(s, env, depth)
                if r is None: continue
                if r[0] == 'ret': return r[1]
                nxt = r[1]; break
            if nxt is None: raise Unsup('fell off ' + b)
            prev, b = b, nxt
    def val(self, t, s, env):
        s = s.strip()
        s = re.sub(r'^(?:noundef|nonnull|zeroext|signext|nocapture|immarg|align \d+|dereferenceable\(\d+\)) ', '', s)
        if s.startswith('%'):
            if s not in env: raise Unsup('value ' + s)
            return env[s]
        if s in ('true', 'false'): return s == 'true'
        if s in ('undef', 'poison', 'zeroinitializer'): return False if t == 'i1' else Fraction(0) if t in ('double', 'float') else 0
        if t in ('double', 'float'):
            if s.startswith('0x'):
                import struct
                x = struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
            else: x = float(s)
            if x != x or x in (float('inf'), float('-inf')): raise Unsup('constant ' + s)
            return Fraction(x)
        if t == 'ptr': return ('g', s)
        if re.match(r'-?\d+$', s): return wrap(int(s), width(t))
        raise Unsup('constant ' + t + ' ' + s[:40])
    def quot(self, a, b): # truncated quotient and remainder of integers, b not zero
        q = divtrunc(a, b)
        if q is not None: return q, a - q * b
        key = (str(a), str(b))
        if key in self.mem: return self.mem[key]
        self.fresh += 1; q = z3.Int('q%d' % self.fresh); r = z3.Int('r%d' % self.fresh); self.pc += [a == q * b + r]
        la, ha = rng(a); lb, hb = rng(b)
        if la is not None: m = max(abs(la), abs(ha)); setr(q, -m, m); setr(r, -m if la < 0 else 0, m if ha > 0 else 0)
        else: setr(q, None, None); setr(r, None, None)
        if isz(b):
            for k2, x2 in self.mem.items():
                if isinstance(k2, tuple) and len(k2) == 2 and k2[1] == str(b): d = q - x2[0]; self.lem += [z3.Or(d == 0, z3.And(d > 0, z3.If(b > 0, d * b >= b, d * b <= b)), z3.And(d < 0, z3.If(b > 0, d * b <= -b, d * b >= -b)))]
        if isinstance(b, int): self.pc += [r > -abs(b), r < abs(b)]
        else: self.pc += [z3.If(b > 0, z3.And(r < b, r > -b), z3.And(r < -b, r > b))]
        self.pc += [z3.Or(r == 0, (r > 0) == B(a > 0))] if isz(a) else [r >= 0 if a >= 0 else r <= 0]
        self.mem[key] = (q, r); return q, r
    def arith(self, op, t, a, b):
        if t in ('double', 'float'):
            if op == 'fdiv':
                if isinstance(b, Fraction):
                    if b == 0: raise Unsup('fdiv by zero')
                    if isinstance(a, Q): a, b = a.n * b.denominator, a.d * b.numerator; return Q(a, b) if b > 0 else Q(-a, -b)
                    return a / b if isinstance(a, Fraction) else a / real(b)
                b = real(b)
                if self.decide([b != 0, b == 0]): raise Unsup('fdiv by zero')
                return real(a) / b
            if isq(a) and isq(b) and not (isinstance(a, Fraction) and isinstance(b, Fraction)):
                a, b = toq(a), toq(b)
                if op == 'fmul': n, d = a.n * b.n, a.d * b.d
                else: g = lambda x, y: x + y if op == 'fadd' else x - y; n, d = (g(a.n, b.n), a.d) if a.d == b.d else (g(a.n * b.d, b.n * a.d), a.d * b.d)
                if op not in ('fadd', 'fsub', 'fmul'): raise Unsup(op)
                return norm(Q(n, d))
            f = {'fadd': lambda x, y: x + y, 'fsub': lambda x, y: x - y, 'fmul': lambda x, y: x * y}.get(op)
            if not f: raise Unsup(op)
            if isinstance(a, Fraction) and isinstance(b, Fraction): return f(a, b)
            return f(real(a), real(b))
        n = width(t)
        if n == 1:
            if op == 'xor': return Or(And(a, Not(b)), And(Not(a), b))
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            raise Unsup(op + ' i1')
        if op == 'add': return wrap(a + b, n)
        if op == 'sub': return wrap(a - b, n)
        if op == 'mul':
            r = self.wrapq(mulz(a, b), n)
            if isz(r) and isinstance(b, int) and b > 0: SHL[r.get_id()] = (a, b); KEEP.append(r)
            return r
        if op in ('sdiv', 'srem'): q, r = self.quot(a, b); return wrap(q, n) if op == 'sdiv' else r
        if op in ('udiv', 'urem'): q, r = self.quot(uns(a, n), uns(b, n)); return wrap(q if op == 'udiv' else r, n)
        if op in ('shl', 'ashr', 'lshr') and not isinstance(b, int): # fork over the amounts
            k = self.decide([b == i for i in range(n)]); b = k
        if op == 'shl':
            r = wrap(a * (1 << b), n)
            if isz(r): SHL[r.get_id()] = (a, 1 << b); KEEP.append(r)
            return r
        if op == 'ashr' and isz(a) and a.get_id() in SHL and SHL[a.get_id()][1] % (1 << b) == 0: x, c = SHL[a.get_id()]; return self.wrapq(x * (c >> b), n - b)
        if op == 'ashr': return a >> b if isinstance(a, int) else (a / (1 << b) if b else a)
        if op == 'lshr': u = uns(a, n); return wrap(u >> b if isinstance(u, int) else (u / (1 << b) if b else u), n)
        if isinstance(a, int) and isinstance(b, int): return wrap({'and': a & b, 'or': a | b, 'xor': a ^ b}[op], n)
        if isinstance(a, int): a, b = b, a
        if op == 'xor' and b == -1: return -a - 1
        if op == 'and' and isinstance(b, int):
            if b == 0: return 0
            if b > 0 and (b & (b + 1)) == 0: return a % (b + 1)
            if b < 0 and ((-b) & (-b - 1)) == 0: return a - a % (-b)
            if b == -(1 << (n - 1)): return z3.If(a < 0, b, 0)
            if b > 0 and (b & (b - 1)) == 0: return (a % (2 * b)) - (a % b)
        if op == 'or' and isinstance(b, int):
            if b == -(1 << (n - 1)): return z3.If(a < 0, a, a + b)
            if b > 0 and (b & (b + 1)) == 0: return a - a % (b + 1) + b
        if op == 'or' and b == 0: return a
        if op in ('and', 'or', 'xor'): # through bits
            x, y = z3.Int2BV(a, n), z3.Int2BV(b if isz(b) else z3.IntVal(b), n); return z3.BV2Int({'and': x & y, 'or': x | y, 'xor': x ^ y}[op], True)
        raise Unsup(op)
    def narrow(self, x): # the range the assumptions leave an input
        lo, hi = rng(x)
        for sign in (1, -1):
            o = z3.Optimize(); o.set('timeout', 400)
            for c in self.pc: o.add(c)
            h = o.minimize(x) if sign > 0 else o.maximize(x)
            if o.check() == z3.sat:
                v = (h.lower() if sign > 0 else h.upper())
                if z3.is_int_value(v):
                    v = v.as_long(); s = z3.Solver(); s.set('timeout', 400) # confirmed by the plain solver
                    for c in self.pc: s.add(c)
                    s.add(x < v if sign > 0 else x > v)
                    if s.check() == z3.unsat:
                        if sign > 0: lo = max(lo, v)
                        else: hi = min(hi, v)
        setr(x, lo, hi)
    def wrapq(self, v, n): # wrap, after asking whether the path's conditions keep the value within the width
        if isinstance(v, int): return wrap(v, n)
        h = 1 << (n - 1); lo, hi = rng(v)
        if lo is not None and lo >= -h and hi < h: return v
        s = z3.Solver(); s.set('timeout', 500)
        for c in self.pc: s.add(c)
        s.add(z3.Or(v < -h, v >= h))
        return v if s.check() == z3.unsat else wrap(v, n)
    def icmp(self, p, t, a, b):
        if t == 'i1':
            if p in ('eq', 'ne'): x = Or(And(a, b), And(Not(a), Not(b))); return x if p == 'eq' else Not(x)
            a, b = toint(a), toint(b); p = 'u' + p[1:]
        elif t == 'ptr':
            if p in ('eq', 'ne'): return (a == b) == (p == 'eq')
            raise Unsup('icmp ptr')
        elif p[0] == 'u': a, b = uns(a, width(t)), uns(b, width(t))
        k = p[-2:]
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[k]()
    def ins(self, s, env, depth):
        m = re.match(r'(%[\w.]+) = (.*)', s); dst = None
        if m: dst, s = m.group(1), m.group(2)
        op = s.split()[0]
        if op in ('tail', 'musttail', 'notail'): s = s.split(None, 1)[1]; op = 'call'
        if op == 'ret':
            m = re.match(r'ret (' + TY + r') ?(.*)', s)
            return ('ret', None if m.group(1) == 'void' else self.val(m.group(1), m.group(2), env))
        if op == 'br':
            m = re.match(r'br label %([\w.$-]+)', s)
            if m: return ('br', m.group(1))
            m = re.match(r'br i1 ([^,]+), label %([\w.$-]+), label %([\w.$-]+)', s); c = self.val('i1', m.group(1), env)
            if isz(c): c = z3.simplify(c); c = True if z3.is_true(c) else False if z3.is_false(c) else c
            return ('br', m.group(2 + self.decide([c, Not(c)])))
        if op == 'switch':
            m = re.match(r'switch (i\d+) ([^,]+), label %([\w.$-]+) \[(.*)\]', s); t = m.group(1); v = self.val(t, m.group(2), env); cs = re.findall(r'i\d+ (-?\w+), label %([\w.$-]+)', m.group(4))
            vs = [self.val(t, c, env) for c, _ in cs]; conds = [self.icmp('eq', t, v, x) for x in vs]; rest = True
            for c in conds: rest = And(rest, Not(c))
            k = self.decide([z3.simplify(c) if isz(c) else c for c in conds + [rest]])
            return ('br', cs[k][1] if k < len(cs) else m.group(3))
        if op == 'unreachable': raise Done('completed')
        if op == 'call' or op == 'invoke':
            m = re.match(r'(?:call|invoke) (?:\w+ |range\([^)]*\) )*?(?:noundef |zeroext |signext |nonnull |noalias |align \d+ |dereferenceable\(\d+\) |range\([^)]*\) |nofpclass\([^)]*\) |fastcc )*(' + TY + r')(?: \([^)]*\))? @("[^"]+"|[\w.$]+)\((.*)\)', s)
            if not m: raise Unsup(s[:80])
            name = m.group(2).strip('"'); args = []
            for a in split(m.group(3)):
                mm = re.match(r'(' + TY + r') (?:(?:noundef|nonnull|zeroext|signext|nocapture|immarg|writeonly|readonly|align \d+|dereferenceable\(\d+\)|noalias) )*(.*)', a)
                if not mm: raise Unsup('argument ' + a[:60])
                args.append((mm.group(1), mm.group(2)))
            r = self.callee(name, m.group(1), args, env, depth)
            if dst: env[dst] = r
            if op == 'invoke':
                mm = re.search(r'to label %([\w.$-]+)', s); return ('br', mm.group(1))
            return None
        if op in ('store',): 
            if not self.store(s, env): raise Unsup('store')
            return None
        r = self.value(op, s, env)
        env[dst] = r
        return None
    def store(self, s, env):
        m = re.match(r'store (' + TY + r') ([^,]+), ptr ([^,]+)', s)
        if not m: return False
        p = self.val('ptr', m.group(3), env)
        if not isinstance(p, tuple) or p[0] != 'a': return False
        self.mem[('m', p[1], p[2])] = (m.group(1), self.val(m.group(1), m.group(2), env)); return True
    def value(self, op, s, env):
        if op == 'alloca': self.fresh += 1; return ('a', self.fresh, 0)
        if op == 'load':
            m = re.match(r'load (' + TY + r'), ptr ([^,]+)', s); p = self.val('ptr', m.group(2), env)
            x = self.mem.get(('m',) + p[1:]) if isinstance(p, tuple) and p[0] == 'a' else None
            if x is None or x[0] != m.group(1): raise Unsup('load')
            return x[1]
        if op == 'getelementptr':
            m = re.match(r'getelementptr (?:inbounds )?i8, ptr ([^,]+), i\d+ (\d+)', s)
            if not m: raise Unsup('gep')
            p = self.val('ptr', m.group(1), env)
            if p[0] != 'a': raise Unsup('gep')
            return ('a', p[1], p[2] + int(m.group(2)))
        if op == 'select':
            m = re.match(r'select (?:[a-z]+ )*?i1 ([^,]+), (' + TY + r') ([^,]+), (' + TY + r') (.*)', s)
            return Ite(self.val('i1', m.group(1), env), self.val(m.group(2), m.group(3), env), self.val(m.group(4), m.group(5), env))
        if op in ('icmp', 'fcmp'):
            m = re.match(r'[if]cmp (?:(?:fast|nnan|ninf|samesign) )*(\w+) (' + TY + r') ([^,]+), (.*)', s); a = self.val(m.group(2), m.group(3), env); b = self.val(m.group(2), m.group(4), env)
            if op == 'icmp': return self.icmp(m.group(1), m.group(2), a, b)
            p = m.group(1)
            if p in ('ord', 'uno'): return p == 'ord'
            if isq(a) and isq(b): a, b = toq(a), toq(b); a, b = (a.n, b.n) if a.d == b.d else (a.n * b.d, b.n * a.d)
            else: a, b = real(a), real(b)
            return self.icmp('s' + p[1:] if p[1:] in ('lt', 'le', 'gt', 'ge') else p[1:], 'i64', a, b)
        if op == 'freeze': m = re.match(r'freeze (' + TY + r') (.*)', s); return self.val(m.group(1), m.group(2), env)
        if op == 'extractvalue': m = re.match(r'extractvalue \{[^}]*\} ([^,]+), (\d+)', s); return self.val('agg', m.group(1), env)[int(m.group(2))]
        if op == 'fneg': m = re.match(r'fneg (?:[a-z]+ )*?(' + TY + r') (.*)', s); return neg(self.val(m.group(1), m.group(2), env))
        if op in ('trunc', 'sext', 'zext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            m = re.match(r'\w+ (?:(?:nuw|nsw|nneg) )*(' + TY + r') (.*) to (' + TY + r')', s); f, t = m.group(1), m.group(3); v = self.val(f, m.group(2), env)
            if op == 'trunc':
                if t == 'i1': return (v % 2 == 1) if isz(v) else bool(v & 1)
                return self.wrapq(v, width(t))
            if op == 'sext': return (-toint(v) if not isinstance(v, bool) else -int(v)) if f == 'i1' else v
            if op == 'zext': return toint(v) if f == 'i1' else uns(v, width(f))
            if op in ('sitofp', 'uitofp'):
                if f == 'i1': v = toint(v)
                elif op == 'uitofp': v = uns(v, width(f))
                return Fraction(v) if isinstance(v, int) else Q(v)
            if op in ('fptosi', 'fptoui'): # toward zero
                if isinstance(v, Fraction): q = abs(v.numerator) // v.denominator; return wrap(q if v >= 0 else -q, width(t))
                return wrap(v.n if v.d == 1 else z3.If(v.n >= 0, v.n / v.d, -(-v.n / v.d)), width(t)) if isinstance(v, Q) else wrap(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)), width(t))
            if op == 'fpext': return v
            raise Unsup(op)
        m = re.match(r'(\w+) (?:(?:nuw|nsw|exact|fast|disjoint|nnan|ninf|nsz|reassoc|contract|arcp|afn) )*(' + TY + r') ([^,]+), (.*)', s)
        if not m: raise Unsup(s[:80])
        return self.arith(m.group(1), m.group(2), self.val(m.group(2), m.group(3), env), self.val(m.group(2), m.group(4), env))
    def callee(self, name, rt, args, env, depth):
        v = lambda i: self.val(args[i][0], args[i][1], env)
        if name == 'ix_assume':
            c = v(0); c = z3.simplify(c) if isz(c) else c
            if c is False or (isz(c) and z3.is_false(c)): raise Done('assume_cut')
            if isz(c):
                self.pc.append(c)
                if len(self.trace) >= len(self.prefix) and self.solve(self.pc) == 'unsat': raise Done('assume_cut')
                for x, w in self.inputs:
                    if w > 1: self.narrow(x)
            return None
        if name == 'ix_check':
            m = re.search(r'@([\w.$]+)', args[1][1]); c = v(0)
            if isz(c): c = z3.simplify(c); c = True if z3.is_true(c) else False if z3.is_false(c) else c
            self.check(c, self.consts.get(m.group(1), '?')); return None
        if name == 'ix_may_throw': self.may = v(0); return None
        if name == 'ix_throw':
            self.check(self.may if self.may is not None else False, 'throws'); raise Done('completed')
        if name.startswith('llvm.ubsantrap') or name == 'llvm.trap': self.check(False, 'undefined-behaviour'); raise Done('completed')
        if name.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.dbg', 'llvm.experimental.noalias')): return None
        m = re.match(r'llvm\.(\w+)\.with\.overflow\.i(\d+)', name)
        if m:
            n = int(m.group(2)); a, b = v(0), v(1)
            if m.group(1)[0] == 'u': a, b = uns(a, n), uns(b, n); lo, hi = 0, 1 << n
            else: lo, hi = -(1 << (n - 1)), 1 << (n - 1)
            r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b}[m.group(1)[1:]]()
            o = (r < lo or r >= hi) if isinstance(r, int) else z3.Or(r < lo, r >= hi)
            return (wrap(r, n), o)
        m = re.match(r'llvm\.(smax|smin|umax|umin)\.i(\d+)', name)
        if m:
            n = int(m.group(2)); a, b = v(0), v(1); x, y = (uns(a, n), uns(b, n)) if m.group(1)[0] == 'u' else (a, b)
            return Ite(x > y if 'max' in m.group(1) else x < y, a, b)
        m = re.match(r'llvm\.abs\.i(\d+)', name)
        if m: a = v(0); return wrap(Ite(a < 0, -a, a), int(m.group(1)))
        if name in ('llvm.fabs.f64', 'fabs'): a = v(0); return Ite(isneg(a), neg(a), a)
        if name in ('llvm.floor.f64', 'floor'): a = v(0); return Fraction(a.numerator // a.denominator) if isinstance(a, Fraction) else floorq(a) if isinstance(a, Q) else z3.ToReal(z3.ToInt(a))
        if name in ('llvm.ceil.f64', 'ceil'): a = v(0); return Fraction(-((-a.numerator) // a.denominator)) if isinstance(a, Fraction) else neg(floorq(neg(a))) if isinstance(a, Q) else -z3.ToReal(z3.ToInt(-a))
        if name in ('llvm.trunc.f64', 'trunc'): a = v(0); return Fraction(divtrunc(a.numerator, a.denominator)) if isinstance(a, Fraction) else Ite(isneg(a), neg(floorq(neg(a))), floorq(a)) if isinstance(a, Q) else z3.If(a >= 0, z3.ToReal(z3.ToInt(a)), -z3.ToReal(z3.ToInt(-a)))
        if name == 'llvm.copysign.f64' or name == 'copysign': a, b = v(0), v(1); mag = Ite(isneg(a), neg(a), a); return Ite(isneg(b), neg(mag), mag)
        if name.startswith('llvm.fmuladd'): return self.arith('fadd', 'double', self.arith('fmul', 'double', v(0), v(1)), v(2))
        if name in self.funcs: return self.call(self.funcs[name], [self.val(t, a, env) for t, a in args], depth + 1)
        raise Unsup('call ' + name[:60])

def main():
    a = sys.argv[1:]; prop = a[0]; tier = 'quick'; only = None; budget = None; i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 1
        elif a[i] == '--only': only = a[i + 1]; i += 1
        elif a[i] == '--budget': budget = float(a[i + 1]); i += 1
        i += 1
    thorough = tier == 'thorough'; t0 = time.time()
    cfg = json.load(open(HERE + '/props.json')).get(prop, {}) if os.path.exists(HERE + '/props.json') else {}
    files = [f for f in cfg.get('files', []) if f] or [f for f in os.environ.get('IX_FILES', '').split()]
    known = [json.loads(l) for l in open(HERE + '/KNOWN_FINDINGS.jsonl') if l.strip()] if os.path.exists(HERE + '/KNOWN_FINDINGS.jsonl') else []
    known = [k for k in known if k.get('property') == prop and k.get('status') == 'known']
    work = tempfile.mkdtemp(prefix='ix-%s-' % prop)
    try: return go(prop, tier, thorough, files, known, work, only, budget or (300 if thorough else 60), t0, cfg)
    finally: shutil.rmtree(work, ignore_errors=True)

def one(job): # one harness, in a process of its own
    ll, name, qt, budget = job
    mod = parse(ll); e = Exec(mod, 'ixh_' + name, qt, budget).run(); rounds = 0
    if e.st['q_unknown'] or e.st['unsupported'] or e.st['open'] or any(x['unknown'] for x in e.asserts.values()):
        if not e.ces: # restricted rounds: some arguments fixed, so that products become linear
            end = time.time() + budget / 3; n = len(e.f['args']); V = [1, 2, 3, 7, -1, -2, -3, 100, -100, 50, 150, 0, 256, 12345, -12345, 65536, 99, 101]
            for k in range(2000):
                if time.time() > end or e.ces: break
                pins = {j: V[(k * 7 + j * 5 + k // 18) % len(V)] for j in range(n) if j != k % n and e.f['args'][j][0] != 'i1'}
                if not pins: break
                x = Exec(mod, 'ixh_' + name, 1500, min(5, budget), pins).run(); rounds += 1; e.ces += x.ces
    lib = sorted(f for f in mod[0] if not f.startswith('ixh_'))
    return dict(name=name, st=e.st, asserts=e.asserts, ces=e.ces, notes=e.notes, samples=e.samples, wit=e.wit, rounds=rounds, instructions=sum(len(b) for b in mod[0]['ixh_' + name]['blocks'].values()))

def go(prop, tier, thorough, files, known, work, only, budget, t0, cfg):
    mods = {}; nat = {}; names = []; funcs = set()
    for f in files:
        b = work + '/' + f.replace('/', '_'); src = HERE + '/harness/' + f
        c = [['clang++', '-O2', '-fno-exceptions', '-fno-jump-tables', '-mllvm', '-inline-threshold=20000', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-S', '-emit-llvm', SAN, '-fsanitize-trap=all'] + FLAGS + [src, '-o', b + '.ll'],
             ['clang++', '-O1', '-DIX_NATIVE', '-fno-exceptions', '-ffp-contract=off', SAN, '-fsanitize-trap=all'] + FLAGS + [src, HERE + '/engine/ixnative.cpp', '-o', b + '.nat'],
             ['clang++', '-O0', '-g1', '-fno-exceptions', '-S', '-emit-llvm'] + FLAGS + [src, '-o', b + '.names.ll']]
        ps = [subprocess.Popen(x, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for x in c]; bad = False
        for p in ps:
            o, _ = p.communicate()
            if p.returncode: print('harness does not compile against this tree:', '\n'.join(l for l in o.splitlines() if 'error' in l)[:1500]); bad = True
        if bad: return 2
        for l in subprocess.run(['c++filt'], stdin=open(b + '.names.ll'), stdout=subprocess.PIPE, text=True, errors='replace').stdout.splitlines():
            if l.startswith('define') and 'geometrix::' in l:
                m = re.search(r'@"?(?:[^"(]* )?(geometrix::[^"]*?)\(', l)
                if m: funcs.add(m.group(1)[:110])
        for l in subprocess.run([b + '.nat', '--list'], stdout=subprocess.PIPE, text=True).stdout.splitlines():
            n, k, bo = l.split('\t')
            if (n.startswith('T_') and not thorough) or (only and not n.startswith(only)): continue
            names.append((n, b + '.ll', bo)); nat[n] = b + '.nat'
    t_build = time.time() - t0
    import multiprocessing as mp
    pool = mp.Pool(min(8, max(1, len(names)))); jobs = [(ll, n, 60000 if thorough else 15000, budget) for n, ll, bo in names]
    res = {}; confirmed = []; unconf = []; hit = {}; wok = wbad = 0
    its = [(j, pool.apply_async(one, (j,))) for j in jobs]; end = time.time() + budget * 2.5
    pend = list(its)
    while pend:
        for x in list(pend):
            j, r = x
            if r.ready():
                pend.remove(x)
                try: d = r.get()
                except Exception as ex: d = dict(name=j[1], st=dict(paths=0, completed=0, infeasible=0, assume_cut=0, unsupported=1, q_sat=0, q_unsat=0, q_unknown=0, solver_s=0, slowest_s=0, decisions=0, open=0), asserts={}, ces=[], notes={'error ' + str(ex)[:80]: 1}, samples=[], wit=[], rounds=0, instructions=0)
                res[j[1]] = d
                for w in d['wit']: # the native build agrees that the path passes
                    try: rc = subprocess.run([nat[d['name']], d['name']] + [str(x) for x in w], stdout=subprocess.DEVNULL, timeout=20).returncode
                    except subprocess.TimeoutExpired: rc = 6
                    wok += rc == 0; wbad += rc != 0
                for ce in d['ces']:
                    try: p = subprocess.run([nat[d['name']], d['name']] + [str(x) for x in ce['args']], stdout=subprocess.PIPE, text=True, timeout=20); rc, out = p.returncode, p.stdout
                    except subprocess.TimeoutExpired: rc, out = 6, 'timeout'
                    ok = rc == 1 or rc < 0 or rc == 6
                    rec = dict(harness=d['name'], label=ce['label'], inputs=ce['args'], rc=rc, out=out[-800:])
                    if not ok: unconf.append(rec); continue
                    k = [x for x in known if x['harness'] == d['name'] and x['label'] == ce['label']]
                    if k: hit[(d['name'], ce['label'])] = k[0]; continue
                    if not any(c['harness'] == d['name'] and c['label'] == ce['label'] for c in confirmed): confirmed.append(rec)
        if confirmed or time.time() > end: break
        time.sleep(0.05)
    pool.terminate()
    tot = lambda k: sum(r['st'][k] for r in res.values())
    A = lambda k: sum(x[k] for r in res.values() for x in r['asserts'].values())
    bounds = {n: bo for n, ll, bo in names}
    full = [n for n in bounds if n in res and not res[n]['st']['unsupported'] and not res[n]['st']['q_unknown'] and not res[n]['st']['open'] and not any(x['unknown'] for x in res[n]['asserts'].values())]
    vac = [n for n in bounds if n in res and not any(x['reached'] for x in res[n]['asserts'].values())]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=dict(states=tot('paths'), transitions=tot('decisions') + tot('paths'), traces_validated_against_impl=wok + len(confirmed), native_witness_mismatches=wbad, samples=[n + ' ' + s for n, r in res.items() for s in r['samples'][:1]][:12] or ['none'],
                            assertions_discharged=A('discharged'), assertions_discharged_by_solver=A('by_solver'), assertions_unknown=A('unknown'), queries=dict(sat=tot('q_sat'), unsat=tot('q_unsat'), unknown=tot('q_unknown')),
                            solver_s=round(tot('solver_s'), 2), slowest_query_s=max([r['st']['slowest_s'] for r in res.values()] or [0]), harnesses=len(bounds), harnesses_exhausted_within_bounds=len(full),
                            harnesses_not_exhausted=sorted(set(bounds) - set(full)), vacuous_harnesses=vac, counterexamples_not_reproduced_natively=len(unconf), restricted_rounds=sum(r['rounds'] for r in res.values()),
                            library_functions_encoded=len(funcs), library_function_names=sorted(funcs)[:150], harness_detail={n: dict(bounds=bounds[n], **{k: r[k] for k in ('st', 'asserts', 'notes', 'instructions')}) for n, r in res.items()}, build_s=round(t_build, 1),
                            explanation='The LLVM IR of each harness with the library code inlined into it is executed symbolically over mathematical integers (wrap-around explicit, doubles as exact reals); each path stands for every argument that satisfies its condition.'),
              assumptions=['doubles are exact reals; arithmetic that traps (signed overflow, division by zero, oversized shift) counts as a violation'] + cfg.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(confirmed))
    os.makedirs(HERE + '/evidence', exist_ok=True); json.dump(ev, open(HERE + '/evidence/%s.json' % prop, 'w'), indent=1)
    for n in bounds:
        r = res.get(n)
        if not r: print('%-34s not finished' % n); continue
        print('%-34s int  paths=%d done=%d open=%d unsup=%d q=%d/%d/%d solver=%.1fs discharged=%d unknown=%d%s' % (n, r['st']['paths'], r['st']['completed'], r['st']['open'], r['st']['unsupported'], r['st']['q_sat'], r['st']['q_unsat'], r['st']['q_unknown'], r['st']['solver_s'], sum(x['discharged'] for x in r['asserts'].values()), sum(x['unknown'] for x in r['asserts'].values()), '' if n in full else '  [not exhausted]'))
        if r['notes']: print('      notes', r['notes'])
    for u in unconf[:8]: print('not reproduced natively: %s %s rc=%d %s' % (u['harness'], u['label'], u['rc'], u['inputs']))
    for k, x in hit.items(): print('KNOWN-FINDING: property=%s %s' % (prop, x['what']))
    for x in vac: print('warning: harness %s reached no check' % x)
    print('wall %.1fs build %.1fs' % (time.time() - t0, t_build))
    if confirmed:
        rd = HERE + '/replay'; os.makedirs(rd, exist_ok=True)
        for n, c in enumerate(confirmed):
            p = '%s/%s-%s-%d.txt' % (rd, prop, c['harness'], n)
            open(p, 'w').write('# property %s harness %s check %s\n# replay: build the harness with -DIX_NATIVE and engine/ixnative.cpp (ix.py does) and run: <harness>.nat %s %s\n# native output (exit %d):\n%s' % (prop, c['harness'], c['label'], c['harness'], ' '.join(map(str, c['inputs'])), c['rc'], ''.join('# ' + l + '\n' for l in c['out'].splitlines())))
            print('violated: %s %s %s' % (c['harness'], c['label'], c['inputs'])); print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    return 0

if __name__ == '__main__':
    r = main(); sys.stdout.flush(); sys.exit(r)
