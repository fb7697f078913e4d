#!/usr/bin/env python3
"""Decides one property:  run.py <ID> [--tier quick|thorough] [--only HARNESS] [--keep]

The harness files of the property (props.json) are compiled against the headers in
/repo (SX_REPO) twice: with the symbolic pass (engine/sxpass.cpp, engine/sxrt.cpp) and
natively.  Every harness is explored symbolically; a counterexample is replayed on the
native build and only reported when it reproduces."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
LLVM = '/usr/lib/llvm-18/bin/llvm-config'
NCPU = min(8, os.cpu_count() or 8)
INC = ['-I' + REPO, '-I' + HERE + '/engine', '-I' + HERE + '/harness', '-std=c++14', '-w', '-ftemplate-depth=1024',
       '-DBOOST_RESULT_OF_USE_TR1_WITH_DECLTYPE_FALLBACK', '-DBOOST_CHRONO_HEADER_ONLY', '-DBOOST_PARAMETER_MAX_ARITY=20']

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def engine():
    """builds pass, runtime and native runtime when the sources changed; returns their folder"""
    h = hashlib.sha256()
    for f in ('sxpass.cpp', 'sxrt.cpp', 'sxnative.cpp', 'sx.h'):
        h.update(open(os.path.join(HERE, 'engine', f), 'rb').read())
    d = os.path.join(HERE, 'build', 'engine-' + h.hexdigest()[:16])
    if os.path.exists(d + '/ok'): return d
    t = d + '.%d' % os.getpid(); os.makedirs(t, exist_ok=True)
    e = HERE + '/engine/'
    cxxflags = sh([LLVM, '--cxxflags']).stdout.split()
    jobs = [['clang++', '-O1', '-fPIC', '-shared'] + cxxflags + ['-fno-rtti', e + 'sxpass.cpp', '-o', t + '/sxpass.so'],
            ['g++', '-O2', '-w', '-std=c++17', '-I' + Z3 + '/include', '-c', e + 'sxrt.cpp', '-o', t + '/sxrt.o'],
            ['g++', '-O1', '-w', '-std=c++14', '-c', e + 'sxnative.cpp', '-o', t + '/sxnative.o']]
    ps = [subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for j in jobs]
    for p in ps:
        o, _ = p.communicate()
        if p.returncode: print(o[-4000:]); sys.exit('engine build failed')
    open(t + '/ok', 'w').close()
    try: os.rename(t, d)
    except OSError: shutil.rmtree(t, ignore_errors=True)
    return d

class Task:
    def __init__(self, exe, name, frontier=None, gen=0): self.exe, self.name, self.frontier, self.gen = exe, name, frontier, gen

def main():
    args = sys.argv[1:]
    if args and args[0] == '--setup': engine(); return 0
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick'); only = None; keep = False; budget = None
    i = 1
    while i < len(args):
        if args[i] == '--tier': tier = args[i + 1]; i += 1
        elif args[i] == '--only': only = args[i + 1]; i += 1
        elif args[i] == '--budget': budget = float(args[i + 1]); i += 1
        elif args[i] == '--keep': keep = True
        i += 1
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = json.load(open(HERE + '/props.json'))[prop]
    known = [json.loads(l) for l in open(HERE + '/KNOWN_FINDINGS.jsonl') if l.strip()] if os.path.exists(HERE + '/KNOWN_FINDINGS.jsonl') else []
    known = [k for k in known if k.get('property') == prop and k.get('status') == 'known']
    if cfg.get('engine') == 'ix': # integer code: ix.py
        sys.stdout.flush(); os.execv('/opt/veriftools/pyvenv/bin/python3', ['/opt/veriftools/pyvenv/bin/python3', HERE + '/ix.py', prop, '--tier', tier] + (['--only', only] if only else []) + (['--budget', str(budget)] if budget else []))
    t0 = time.time()
    wall = budget or (cfg.get('thorough_s', 600) if tier == 'thorough' else cfg.get('quick_s', 90))
    eng = engine()
    work = tempfile.mkdtemp(prefix='sx-%s-' % prop)
    try: return explore(prop, tier, seed, cfg, known, t0, wall, eng, work, only)
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)

def explore(prop, tier, seed, cfg, known, t0, wall, eng, work, only):
    thorough = tier == 'thorough'
    files = cfg['files']
    defs = ['-DSX_THOROUGH=1'] if thorough else []
    # ---- compile
    procs = []
    for f in files:
        src = HERE + '/harness/' + f; b = work + '/' + f.replace('/', '_')
        env = dict(os.environ, SX_FUNCS=b + '.funcs', SX_STATS=b + '.stats')
        c1 = 'clang++ -O1 -fno-vectorize -fno-slp-vectorize -ffp-contract=off -fpass-plugin=%s/sxpass.so %s -c %s -o %s.o && g++ %s.o %s/sxrt.o -o %s.sym -L%s/lib -lz3 -Wl,-rpath,%s/lib -lgmpxx -lgmp' % (eng, ' '.join(INC + defs), src, b, b, eng, b, Z3, Z3)
        c2 = 'g++ -O1 -ffp-contract=off -DSX_NATIVE %s %s %s/sxnative.o -o %s.nat' % (' '.join(INC + defs), src, eng, b)
        procs.append((f, b, 'sym', subprocess.Popen(c1, shell=True, env=env, stdout=open(b + '.symlog', 'w'), stderr=subprocess.STDOUT)))
        procs.append((f, b, 'nat', subprocess.Popen(c2, shell=True, stdout=open(b + '.natlog', 'w'), stderr=subprocess.STDOUT)))
    built = []; failed = []; unsup_notes = []
    for f, b, k, p in procs:
        p.wait()
        log = open(b + '.' + k + 'log').read()
        if p.returncode:
            failed.append(f + ' (' + k + '): ' + '\n'.join(l for l in log.splitlines() if 'error' in l)[:1500])
        if k == 'sym': unsup_notes += sorted(set(l.strip()[:160] for l in log.splitlines() if 'sxpass: unsupported' in l))[:5]
    for f in files:
        b = work + '/' + f.replace('/', '_')
        if os.path.exists(b + '.sym') and os.path.exists(b + '.nat'): built.append((f, b))
    if failed:
        print('harness does not compile against this tree:'); print('\n'.join(failed))
        if not built: return 2
    t_build = time.time() - t0
    funcs = set(); rewritten = 0
    for f, b in built:
        try: funcs |= set(l.strip() for l in open(b + '.funcs')); rewritten += int(open(b + '.stats').read() or 0)
        except OSError: pass
    # ---- explore
    stats = {}; lock = threading.Condition(); queue = []; running = [0]; done_ces = {}; confirmed = []; unconfirmed = []; known_hit = {}
    for f, b in built:
        for l in sh([b + '.sym', '--list']).stdout.splitlines():
            name, mode, bounds = l.split('\t')
            if name.startswith('T_') and not thorough: continue
            if only and not name.startswith(only): continue
            stats[name] = dict(file=f, exe=b, mode='fp' if mode == '1' else 'real', bounds=bounds, paths=0, completed=0, assume_cut=0, infeasible=0, unsupported=0, inconclusive=0,
                               decisions=0, q_sat=0, q_unsat=0, q_unknown=0, solver_s=0.0, slowest_s=0.0, cmp=0, cmp_exact=0, asserts={}, covers={}, notes={}, samples=[], witnesses=[], frontier_left=0, killed=0)
            queue.append(Task(b, name))
    order = {n: i for i, n in enumerate(stats)}
    deadline = time.time() + max(20, wall - t_build)
    slice0 = 6.0 if not thorough else 20.0
    stop = [False]; cnt = [0]

    def replay(task_exe, name, ce_in, path):
        with open(path, 'w') as o:
            for k, v in ce_in: o.write('%s %s\n' % (k, v))
        try: r = sh([task_exe + '.nat', name, path], timeout=40)
        except subprocess.TimeoutExpired: return 6, 'timeout'
        return (3 if r.returncode in (-11, -6, -8, -4, -7, -5) else r.returncode), r.stdout # a signal that ends it (stack overflow) is a crash

    def handle_ces(task, res):
        for ce in res['ces']:
            key = (task.name, ce['label'])
            with lock:
                if key in done_ces and (done_ces[key] >= 12 or any((c['harness'], c['label']) == key for c in confirmed) or key in known_hit): continue
                done_ces[key] = done_ces.get(key, 0) + 1
                cnt[0] += 1; n = cnt[0]
            p = '%s/ce%d.txt' % (work, n)
            rc, out = replay(task.exe, task.name, ce['in'], p)
            ok = False
            if ce['kind'] == 'assert': ok = rc == 1 and ('REPLAY-VIOLATED label=%s' % ce['label']) in out
            elif ce['kind'] == 'crash': ok = rc == 3
            else: ok = rc in (3, 6)
            if ce['kind'] == 'stall':
                ok = rc == 6 or (rc == 3 and ('signal=11' in out or 'signal=7' in out))
                if not ok: continue
            if not ok and rc in (3, 6): ok = True; ce['label'] += '/crash'
            rec = dict(harness=task.name, label=ce['label'], inputs=ce['in'], rc=rc, out=out[-1500:])
            with lock:
                if not ok: unconfirmed.append(rec); continue
                k = [x for x in known if x['harness'] == task.name and x['label'] == ce['label']]
                if k: known_hit[key] = k[0]; continue
                confirmed.append(rec)
                if not os.environ.get('SX_ALL'): stop[0] = True

    def runlim(cmd, limit): # ends with the command, at the limit, or soon after a confirmed violation
        p = subprocess.Popen(['bash', '-c', 'ulimit -v 6000000; exec "$@"', 'x'] + cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL); end = time.time() + limit; grace = None
        while True:
            try: p.wait(timeout=0.05 if grace is None and time.time() < end - limit + 0.5 else 0.3); return
            except subprocess.TimeoutExpired: pass
            if stop[0] and grace is None: grace = time.time() + 3
            if time.time() > end or (grace and time.time() > grace): p.kill(); p.wait(); return

    def partial(out): # counterexamples found before a process was stopped
        try: return dict(ces=[json.loads(l) for l in open(out + '.ce')])
        except (OSError, ValueError): return dict(ces=[])

    def worker():
        while True:
            with lock:
                while not queue and running[0] > 0 and not stop[0]: lock.wait(0.5)
                if stop[0] or not queue or time.time() > deadline: lock.notify_all(); return
                queue.sort(key=lambda t: (t.gen, order[t.name]))
                t = queue.pop(0); running[0] += 1; cnt[0] += 1; n = cnt[0]
            out = '%s/r%d.json' % (work, n); res = None
            left = deadline - time.time()
            sl = max(2.0, min(slice0 * (1 + t.gen * 0.5), left))
            cmd = [t.exe + '.sym', '--run', t.name, '--out', out, '--time', str(sl), '--qt', str(20000 if thorough else 8000), '--seed', str(seed)]
            if t.frontier is not None:
                fp = '%s/f%d.txt' % (work, n)
                with open(fp, 'w') as o:
                    for pre in t.frontier: o.write(' '.join(map(str, pre)) + '\n')
                cmd += ['--frontier', fp]
            kill_at = min(sl + (75 if thorough else 40), max(left, 5) + (60 if thorough else 15))
            runlim(cmd, kill_at)
            try: res = json.load(open(out))
            except (OSError, ValueError): res = None
            handle_ces(t, res or partial(out))
            with lock:
                s = stats[t.name]; running[0] -= 1
                if not res:
                    s['killed'] += 1; s['inconclusive'] += 1
                else:
                    for k in ('paths', 'completed', 'assume_cut', 'infeasible', 'unsupported', 'inconclusive', 'decisions', 'solver_s', 'cmp', 'cmp_exact'): s[k] += res[k]
                    for k in ('sat', 'unsat', 'unknown'): s['q_' + k] += res['queries'][k]
                    s['slowest_s'] = max(s['slowest_s'], res['slowest_s'])
                    for a, v in res['asserts'].items():
                        d = s['asserts'].setdefault(a, {})
                        for k, x in v.items(): d[k] = d.get(k, 0) + x
                    for k in ('covers', 'notes'):
                        for a, v in res[k].items(): s[k][a] = s[k].get(a, 0) + v
                    if len(s['samples']) < 2: s['samples'] += res['samples'][:2]
                    if len(s['witnesses']) < 6: s['witnesses'] += res['witnesses']
                    fr = res['frontier']
                    if fr:
                        s['frontier_left'] = 1
                        # shallow prefixes hold the bigger subtrees: deal them out
                        k = max(1, min(len(fr), NCPU if t.gen < 3 else 3))
                        for j in range(k): queue.append(Task(t.exe, t.name, fr[j::k], t.gen + 1))
                lock.notify_all()
    ths = [threading.Thread(target=worker) for _ in range(NCPU)]
    for t in ths: t.start()
    for t in ths: t.join()
    left = {}
    # ---- restricted rounds: what the solver left open is looked at again on subspaces in which some inputs are fixed to small numbers
    for t in queue: left[t.name] = left.get(t.name, 0) + 1
    unsettled = [n for n, s in stats.items() if s['mode'] == 'real' and (n in left or s['killed'] or s['inconclusive'] or s['unsupported'] or s['q_unknown'] or any(a.get('unknown') for a in s['asserts'].values()))]
    restricted = dict(harnesses=len(unsettled), rounds=0, paths=0, discharged=0, solver_s=0.0)
    if unsettled and not confirmed:
        rq = list(unsettled); rdeadline = time.time() + (150 if thorough else 24)
        rslice = max(2.5, min(10.0, 24.0 * NCPU / len(rq))) if not thorough else max(10.0, min(60.0, 150.0 * NCPU / len(rq)))
        def rworker():
            while True:
                with lock:
                    if not rq or stop[0] or time.time() > rdeadline: return
                    n = rq.pop(0); cnt[0] += 1; out = '%s/q%d.json' % (work, cnt[0])
                s = stats[n]; cmd = [s['exe'] + '.sym', '--run', n, '--out', out, '--time', str(rslice), '--qt', '700', '--seed', str(seed), '--rounds', '4000']
                runlim(cmd, rslice + 20)
                try: res = json.load(open(out))
                except (OSError, ValueError): handle_ces(Task(s['exe'], n), partial(out)); continue
                handle_ces(Task(s['exe'], n), res)
                with lock:
                    restricted['rounds'] += res['rounds']; restricted['paths'] += res['completed']; restricted['solver_s'] = round(restricted['solver_s'] + res['solver_s'], 1)
                    restricted['discharged'] += sum(a['discharged'] for a in res['asserts'].values())
        ths = [threading.Thread(target=rworker) for _ in range(NCPU)]
        for t in ths: t.start()
        for t in ths: t.join()
    left = {}
    for t in queue: left[t.name] = left.get(t.name, 0) + (len(t.frontier) if t.frontier else 1)
    # ---- validation of the encoding: run witnesses of symbolic paths natively and compare
    validated = 0; diverged = 0; mism = []
    if not confirmed:
        for name, s in stats.items():
            for w in s['witnesses'][:6]:
                with open(work + '/w.txt', 'w') as o:
                    for k, v in w['in']: o.write('%s %s\n' % (k, v))
                try: r = subprocess.run([s['exe'] + '.nat', name, work + '/w.txt'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=40, env=dict(os.environ, SX_LOG='1'))
                except subprocess.TimeoutExpired: continue
                logs = [l.rsplit(' ', 2) for l in r.stdout.splitlines() if l.startswith('LOG ')]
                same = r.returncode == 0 and len(logs) >= len(w['log'])
                if same:
                    for (lab, a, b), lg in zip(w['log'], logs):
                        if lg[0] != 'LOG ' + lab: same = False; break
                        for x, y in ((a, lg[1]), (b, lg[2])):
                            x = float.fromhex(x); y = float.fromhex(y)
                            if not (x == y or abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y)) or (x != x and y != y)): same = False
                if same: validated += 1
                else: diverged += 1; mism.append(dict(harness=name, rc=r.returncode, inputs=w['in'], native=r.stdout[-300:]))
    # ---- report
    tot = lambda k: sum(s[k] for s in stats.values())
    disch = sum(a.get('discharged', 0) for s in stats.values() for a in s['asserts'].values())
    bysolver = sum(a.get('by_solver', 0) for s in stats.values() for a in s['asserts'].values())
    unk = sum(a.get('unknown', 0) for s in stats.values() for a in s['asserts'].values())
    complete = [n for n, s in stats.items() if n not in left and not s['killed'] and not s['inconclusive'] and not s['unsupported'] and not s['q_unknown'] and not any(a.get('unknown') for a in s['asserts'].values())]
    vac = [n for n, s in stats.items() if not s['completed'] or not any(a.get('reached', 0) for a in s['asserts'].values())]
    fnames = sorted(set(f.split('(')[0][:110] for f in funcs))
    sam = []
    for n, s in stats.items():
        for x in s['samples'][:1]: sam.append(n + ' ' + x)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=tot('paths'), transitions=tot('decisions'), traces_validated_against_impl=validated, samples=sam[:12] or ['none'],
                            assertions_discharged=disch, assertions_discharged_by_solver=bysolver, assertions_unknown=unk,
                            queries=dict(sat=tot('q_sat'), unsat=tot('q_unsat'), unknown=tot('q_unknown')), solver_s=round(tot('solver_s'), 2), restricted_rounds_on_unsettled_harnesses=restricted,
                            slowest_query_s=max([s['slowest_s'] for s in stats.values()] or [0]),
                            harnesses=len(stats), harnesses_exhausted_within_bounds=len(complete), harnesses_not_exhausted=sorted(set(stats) - set(complete)), vacuous_harnesses=vac,
                            witness_paths_where_native_rounding_diverges=diverged, divergent_samples=mism[:3],
                            counterexamples_not_reproduced_natively=len(unconfirmed),
                            comparisons=tot('cmp'), comparisons_exact_in_double_for_integer_inputs_up_to_1024=tot('cmp_exact'),
                            instructions_rewritten=rewritten, library_functions_encoded=len(funcs), library_function_names=fnames[:150],
                            harness_detail={n: {k: v for k, v in s.items() if k not in ('samples', 'witnesses', 'exe', 'frontier_left')} | {'open_prefixes': left.get(n, 0)} for n, s in stats.items()},
                            build_s=round(t_build, 1), compile_failures=failed, pass_notes=unsup_notes,
                            unreproduced=[{k: u[k] for k in ('harness', 'label', 'inputs', 'rc')} for u in unconfirmed[:5]],
                            explanation='Paths of the compiled harness (real library code, LLVM IR) executed symbolically; states = paths, transitions = branch decisions settled by the solver or by facts; each path stands for every input that satisfies its condition.'),
              assumptions=['real-mode harnesses decide the property over exact real arithmetic within the stated bounds; rounding and inputs beyond 2^30 in magnitude are outside them', 'fp-mode harnesses are bit-precise IEEE-754 binary64/binary32, round to nearest even'] + cfg.get('assumptions', []),
              wall_s=round(time.time() - t0, 1), violations=len(confirmed))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(HERE + '/evidence/%s.json' % prop, 'w'), indent=1)
    for n, s in stats.items():
        a = s['asserts']; d = sum(x.get('discharged', 0) for x in a.values()); u = sum(x.get('unknown', 0) for x in a.values())
        print('%-34s %s paths=%d done=%d open=%d unsup=%d inc=%d q=%d/%d/%d solver=%.1fs discharged=%d unknown=%d%s' % (n, s['mode'], s['paths'], s['completed'], left.get(n, 0), s['unsupported'], s['inconclusive'] , s['q_sat'], s['q_unsat'], s['q_unknown'], s['solver_s'], d, u, '' if n in complete else '  [not exhausted]'))
        if s['notes']: print('      notes', dict(list(s['notes'].items())[:6]))
    for u in unconfirmed[:8]: print('not reproduced natively: %s %s rc=%d %s %s' % (u['harness'], u['label'], u['rc'], u['inputs'], u['out'].splitlines()[-1:] ))
    print('%d witness paths agree with the native build, %d diverge' % (validated, diverged))
    for m in mism[:3]: print('   diverges:', m['harness'], m['rc'], m['inputs'], m['native'].splitlines()[-2:])
    for k, v in known_hit.items(): print('KNOWN-FINDING: property=%s %s' % (prop, v['what']))
    for v in vac: print('warning: harness %s reached no assertion' % v)
    if unsettled: print('restricted rounds on unsettled harnesses:', restricted)
    print('wall %.1fs build %.1fs' % (time.time() - t0, t_build))
    if confirmed:
        rd = HERE + '/replay'; os.makedirs(rd, exist_ok=True)
        for n, c in enumerate(confirmed):
            p = '%s/%s-%s-%d.txt' % (rd, prop, c['harness'], n)
            with open(p, 'w') as o:
                o.write('# property %s harness %s (%s) assertion %s\n# replay: build the harness natively (run.py does) and run: <harness>.nat %s <this file without comments>\n' % (prop, c['harness'], stats[c['harness']]['file'], c['label'], c['harness']))
                for k, v in c['inputs']: o.write('%s %s\n' % (k, v))
                o.write('# native output:\n' + ''.join('# ' + l + '\n' for l in c['out'].splitlines()))
            print('violated: %s %s %s' % (c['harness'], c['label'], c['inputs']))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    return 0

if __name__ == '__main__':
    r = main(); sys.stdout.flush(); sys.exit(r)
