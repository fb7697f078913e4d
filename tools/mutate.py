#!/usr/bin/env python3
"""mutate.py PROP [N] [seed]: plants N single-token changes in the files of a property, each in a private copy of the headers, and runs its check.
Result lines in /tmp/mut/PROP.txt: caught / survived / unreached (object code unchanged) / nocompile."""
import sys, os, re, json, random, subprocess, shutil, hashlib, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop = sys.argv[1]; N = int(sys.argv[2]) if len(sys.argv) > 2 else 40; seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
W = int(os.environ.get('MUT_W', '3'))
P = json.load(open(V + '/props.json'))[prop]
meta = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = [x for x in meta if x['id'] == prop][0]
files = os.environ.get('MUT_FILES', '').split() or m['anchors']['files']
rnd = random.Random(seed)
OPS = [(r' < (?![\w:]+>)', ' <= '), (r' > (?=[\w(\-])', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
  (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \* ', ' + '), (r'get<0>', 'get<1>'), (r'get<1>', 'get<0>'), (r'less_than\(', 'less_than_or_equal('), (r'less_than_or_equal\(', 'less_than('),
  (r'greater_than\(', 'greater_than_or_equal('), (r'greater_than_or_equal\(', 'greater_than('), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\(std::min\)', '(std::max)'), (r'\(std::max\)', '(std::min)'),
  (r'get_start\(', 'get_end('), (r'get_end\(', 'get_start('), (r'zero<', 'one<'), (r'\+ ?1\b', '+ 0'), (r'- ?1\b', '- 0'), (r'= 0;', '= 1;'), (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r'!(?=[a-z(])', ''),
  (r'\+\+', '--'), (r'\.begin\(\)', '.end()'), (r'oriented_right', 'oriented_left'), (r'oriented_left', 'oriented_right'), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'return -', 'return '), (r'\bi\b', 'j'), (r'\bj\b', 'i'), (r'\bu\b', 'v'), (r'\bv\b', 'u'), (r'\ba\b','b'),(r'\bb\b','a'), (r'break;', ';'), (r'continue;', ';')]
STMT = re.compile(r'^\s*(?!return|using|typedef|const|auto|BOOST|GEOMETRIX|static|template|else|case|default|break|continue|throw|struct|class|namespace|public|private|if|for|while|\{|\})[\w\[\]\.\->\*\(\)<>:, ]+(=|\+=|-=|\*=|\().*;\s*$')
muts = []
for f in files:
    p = '/repo/' + f
    if not os.path.isfile(p): continue
    lines = open(p, 'rb').read().decode('latin1').split('\n'); blk = False; hdr = False
    for i, l in enumerate(lines):
        s = l.strip()
        if blk:
            if '*/' in s: blk = False
            continue
        if s.startswith('/*'):
            blk = '*/' not in s; continue
        if not s or s[0] == '#' or s.startswith('//') or re.match(r'(using|typedef|template|static_assert|BOOST_|GEOMETRIX_|namespace|struct|class|static const bool|public|private|friend|inline|explicit)', s): continue
        if re.match(r'[,:]\s*\w*', s) and ';' not in s and '=' not in s and '(' not in s: continue
        code = l.split('//')[0]
        for k, (o, n) in enumerate(OPS):
            for mm in re.finditer(o, code):
                if n == '': 
                    pass
                t = code[:mm.start()] + n + code[mm.end():]
                muts.append((f, i, l, t))
        if STMT.match(code.rstrip('\r')) and code.count('(') == code.count(')') and 'delete' not in s and not s.startswith('typename'): muts.append((f, i, l, re.match(r'\s*', code).group(0) + ';'))
rnd.shuffle(muts)
# spread over files and lines
seen = {}; order = []
for x in muts: seen[(x[0], x[1])] = seen.get((x[0], x[1]), 0) + 1; order.append((seen[(x[0], x[1])], x))
order.sort(key=lambda z: z[0]); muts = [x for _, x in order]
os.makedirs('/tmp/mut', exist_ok=True)
out = open('/tmp/mut/%s.txt' % prop, 'a'); lock = threading.Lock(); cnt = {'caught': 0, 'survived': 0, 'unreached': 0, 'nocompile': 0, 'broken': 0}
INC = ['-I' + V + '/engine', '-I' + V + '/harness', '-std=c++14', '-w', '-ftemplate-depth=1024', '-DBOOST_RESULT_OF_USE_TR1_WITH_DECLTYPE_FALLBACK', '-DBOOST_CHRONO_HEADER_ONLY', '-DBOOST_PARAMETER_MAX_ARITY=20', '-DSX_NATIVE', '-DIX_NATIVE']
def obj(repo, tag):
    h = []
    for hf in P['files']:
        o = repo + '/%s.s' % tag
        r = subprocess.run(['g++', '-O1', '-S', '-I' + repo] + INC + [V + '/harness/' + hf, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode: return None
        h.append(hashlib.sha1(open(o, 'rb').read()).hexdigest())
    return h
def work(w):
    repo = '/tmp/mut/%s-%d' % (prop, w); shutil.rmtree(repo, ignore_errors=True); os.makedirs(repo); subprocess.run(['cp', '-a', '/repo/geometrix', repo + '/geometrix'])
    for x in ('engine', 'harness', 'run.py', 'ix.py', 'props.json', 'KNOWN_FINDINGS.jsonl'): subprocess.run(['cp', '-a', V + '/' + x, repo + '/' + x])
    os.symlink(V + '/build', repo + '/build')
    base = obj(repo, 'base')
    while True:
        with lock:
            if not muts or cnt['caught'] + cnt['survived'] + cnt['broken'] >= N: break
            f, i, l, t = muts.pop(0)
        p = repo + '/' + f; src = open(p, 'rb').read(); ls = src.decode('latin1').split('\n')
        ls[i] = t + ('\r' if l.endswith('\r') and not t.endswith('\r') else ''); open(p, 'wb').write('\n'.join(ls).encode('latin1'))
        b = obj(repo, 'm')
        if b is None: res = 'nocompile'
        elif b == base: res = 'unreached'
        else:
            try: r = subprocess.run([sys.executable, repo + '/run.py', prop, '--tier', 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=dict(os.environ, SX_REPO=repo), timeout=400); res = {0: 'survived', 1: 'caught'}.get(r.returncode, 'broken')
            except subprocess.TimeoutExpired: res = 'broken'
        open(p, 'wb').write(src)
        with lock:
            cnt[res] += 1; out.write('%s\t%s:%d\t%s\t=>\t%s\n' % (res, f, i + 1, l.strip(), t.strip())); out.flush()
    shutil.rmtree(repo, ignore_errors=True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(W)]
for t in ts: t.start()
for t in ts: t.join()
print(prop, cnt)
