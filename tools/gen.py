#!/usr/bin/env python3
"""Writes properties.jsonl, props.json and MANIFEST.json from tools/props_meta.py (run after editing it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_meta import PROPS, NOTES, SEEDS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pl, cfg, checks, na = [], {}, [], []
for p in PROPS:
    m = [{"name": n, "where": w} for n, w in p["mech"]]
    assert len(p["title"]) <= 80, p["id"]
    pl.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
               "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": m}})
    if p.get("na"): na.append({"property": p["id"], "reason": p["na"]}); continue
    cfg[p["id"]] = {"files": p["harness"], "quick_s": p.get("quick_s", 75), "thorough_s": p.get("thorough_s", 600), "assumptions": p.get("assume", []), **({"engine": p["engine"]} if p.get("engine") else {})}
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                   "technique": "symbolic execution of the clang LLVM IR of the library code over Z3 integers (ix.py): every path condition, trap and assertion is decided by the solver over all arguments within the stated bounds; counterexamples are replayed on a native build" if p.get("engine") == "ix" else "symbolic execution of the compiled library code (LLVM IR pass + Z3): every path condition and assertion is decided by the solver over all inputs within the stated bounds; counterexamples are replayed on a native build",
                   "level": "model_checking", "level_note": p["note"]})
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in pl))
json.dump(cfg, open(V + '/props.json', 'w'), indent=1)
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na, "notes": NOTES}, open(V + '/MANIFEST.json', 'w'), indent=1)

def bounds(f):
    import re
    t = open(V + '/harness/' + f).read(); r = re.findall(r'SX_(REAL|FP|INT|MIXED)\((\w+), "([^"]*)"', t) + [('integers', n, b) for n, b in re.findall(r'^IX\((\w+), "([^"]*)"', t, re.M)]
    return ['  * `%s` (%s): %s' % (n, k.lower(), b) for k, n, b in r]
seeds = []
for d in sorted(os.listdir(V + '/seeded')):
    m = V + '/seeded/' + d + '/meta.json'
    if os.path.exists(m):
        j = json.load(open(m)); seeds.append('| %s | %s | %s | %s |' % (d, j['property'], j['what_it_breaks'], SEEDS.get(d, 'caught')))
out = open(V + '/tools/design_head.md').read().replace('SEEDTABLE', '\n| bug | property | what it breaks | outcome |\n|---|---|---|---|\n' + '\n'.join(seeds))
for p in PROPS:
    out += '\n### %s %s\n%s\n\nOver: %s. Why tests cannot: %s\n' % (p['id'], p['title'], p['statement'], p['quant'], p['why'])
    if p.get('na'): out += '\nNot applicable: %s\n' % p['na']; continue
    if p.get('design'): out += '\n' + p['design'] + '\n'
    out += '\nHarnesses (oracle: the assertions, written in plain scalars; quick budget %d s):\n' % p.get('quick_s', 75) + '\n'.join(sum((bounds(f) for f in p['harness']), [])) + '\n'
out += '\n## Findings\n'
for l in open(V + '/KNOWN_FINDINGS.jsonl'):
    if l.strip(): j = json.loads(l); out += '* %s %s/%s: %s\n' % (j['status'], j['harness'], j['label'], j['what'])
open(V + '/DESIGN.md', 'w').write(out)
print(len(checks), 'checks', len(na), 'not applicable')
