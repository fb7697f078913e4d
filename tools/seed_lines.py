#!/usr/bin/env python3
"""Lists planted bugs whose removed lines are not lines of the original repository (first commit of /repo)."""
import subprocess, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], stdout=subprocess.PIPE).stdout.split()[0].decode()
for p in sorted(glob.glob(V + '/seeded/*/patch.diff')):
    t = open(p, 'rb').read(); f = re.search(rb'^\+\+\+ b/(.*?)\r?$', t, re.M).group(1).decode()
    old = set(x.strip() for x in subprocess.run(['git', '-C', '/repo', 'show', base + ':' + f], stdout=subprocess.PIPE).stdout.splitlines())
    gone = [l[1:].strip() for l in t.splitlines() if l.startswith(b'-') and not l.startswith(b'---')]
    n = sum(l in old for l in gone if l); m = len([l for l in gone if l])
    if m == 0 or n < m: print(os.path.basename(os.path.dirname(p)), f, '%d of %d changed lines are original' % (n, m))
