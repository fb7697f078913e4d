#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines seeds as calls seed(id, prop, file, [(old,new)...], includes, body, needs, breaks).
Writes seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json}; the demo's main body returns 0 when the behaviour is right."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = "-std=c++14 -w -DBOOST_RESULT_OF_USE_TR1_WITH_DECLTYPE_FALLBACK -DBOOST_CHRONO_HEADER_ONLY -DBOOST_PARAMETER_MAX_ARITY=20"
PRE = """#include <queue>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algebra/cross_product.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/tensor/vector.hpp>
"""
MID = """#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <vector>
using namespace geometrix;
typedef point<double, 2> P2; typedef point<double, 3> P3; typedef vector<double, 2> V2; typedef vector<double, 3> V3; typedef segment<P2> S2; typedef polygon<P2> PG; typedef polyline<P2> PL; typedef absolute_tolerance_comparison_policy<double> Tol;
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { std::printf("wrong: %s\\n", #c); ++bad; } } while (0)
static bool near_(double a, double b) { return std::fabs(a - b) < 1e-6; }
"""
def seed(id, prop, file, pairs, includes, body, needs, breaks, libs="", pre=PRE):
    d = V + '/seeded/' + id; os.makedirs(d, exist_ok=True)
    p = '/repo/' + file; src = open(p, 'rb').read(); crlf = b'\r\n' in src; new = src
    for o, n in pairs:
        o = o.encode(); n = n.encode()
        if crlf: o = o.replace(b'\n', b'\r\n'); n = n.replace(b'\n', b'\r\n')
        assert new.count(o) == 1, (id, o, new.count(o)); new = new.replace(o, n)
    t = '/tmp/seedrun/mk'; os.makedirs(t + '/a/' + os.path.dirname(file), exist_ok=True); os.makedirs(t + '/b/' + os.path.dirname(file), exist_ok=True)
    open(t + '/a/' + file, 'wb').write(src); open(t + '/b/' + file, 'wb').write(new)
    diff = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a/' + file, 'b/' + file], cwd=t, stdout=subprocess.PIPE).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.cpp', 'w').write(pre + ''.join('#include <geometrix/%s>\n' % i for i in includes) + MID + body + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo: exit 0 when the behaviour is right\nhere=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d) || exit 2\ntrap \'find "$t" -delete\' EXIT\ng++ -I. %s "$here/demo.cpp" -o "$t/demo" %s || exit 2\ntimeout 60 "$t/demo"\n' % (FLAGS, libs))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    r = subprocess.run(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff']); print(id, 'ok' if r.returncode == 0 else 'PATCH BAD')
exec(open(sys.argv[1]).read())
