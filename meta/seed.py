#!/usr/bin/env python3
"""confirms planted changes in scratch copies of /repo and keeps them as seeded/<id>/.  usage: seed.py SPEC.py [id...]
SPEC.py calls bug(id, property, [(file, old, new)...], demo source, needs=, breaks=)."""
import os, sys, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); B = []
def bug(id, prop, edits, demo, needs, breaks): B.append((id, prop, edits, demo, needs, breaks))
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -w -O1 -I "$R/include" "$D/demo.cpp" -o "$T/demo" -lpthread || exit 3
cd "$T" && timeout 100 ./demo
'''
PRE = '''#include "ceras.hpp"
#include <cstdio>
#include <cmath>
#include <sstream>
using namespace ceras;
static int bad = 0;
static void near(double a, double b, char const *w) { if (!(std::fabs(a - b) <= 1e-3 * (1 + std::fabs(b)))) { ++bad; if (bad < 10) std::printf("FAIL %s: %g, expected %g\\n", w, a, b); } }
template <typename T> tensor<T> mk(std::vector<unsigned long> const &s, double seed = 1) { tensor<T> t{s}; for (unsigned long i = 0; i < t.size(); ++i) t.data()[i] = T(std::sin(seed * (i + 1) * 1.7) * 2); return t; }
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def one(b):
    id, prop, edits, demo, needs, breaks = b
    rc = '/tmp/w/rc_' + id; shutil.rmtree(rc, ignore_errors=True); sh(f'cp -a /repo {rc}')
    d = f'{V}/seeded/{id}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/demo.cpp', 'w').write(PRE + demo); open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    base = sh(f'{d}/demo.sh', cwd='/repo')
    if base.returncode: return id, 'demo fails on the unchanged tree: ' + base.stdout.decode(errors='replace')[-600:]
    for f, o, n in edits:
        s = open(f'{rc}/include/{f}').read()
        if s.count(o) != 1: return id, f'edit matches {s.count(o)} times in {f}'
        open(f'{rc}/include/{f}', 'w').write(s.replace(o, n))
    pat = sh(f'{d}/demo.sh', cwd=rc)
    if pat.returncode in (0, 3): return id, f'demo with the patch: {pat.returncode} ' + pat.stdout.decode(errors='replace')[-600:]
    p = sh('git diff -- include', cwd=rc).stdout; open(d + '/patch.diff', 'wb').write(p)
    r = sh('unshare -m bash -c "mount --bind %s /repo && bash /opt/vp/build.sh && bash /opt/vp/test.sh /repo/_build/t.json"' % rc)
    try: t = set(json.load(open(rc + '/_build/t.json'))['passed'])
    except Exception as e: return id, 'build/test: ' + r.stdout.decode(errors='replace')[-400:]
    bl = json.load(open('/opt/vp/BASELINE.json')); st = bl['stable'] if 'stable' in bl else bl['passed']
    miss = [x for x in st if x not in t]
    blame = [l for f, o, n in edits for l in sh(f'git diff -U0 -- include/{f}', cwd=rc).stdout.decode().splitlines() if l.startswith('@@')]
    bad = []
    for f in {e[0] for e in edits}:
        for h in [l for l in sh(f'git diff -U0 -- include/{f}', cwd=rc).stdout.decode().splitlines() if l.startswith('@@')]:
            a = h.split()[1][1:].split(','); n0 = int(a[0]); c = int(a[1]) if len(a) > 1 else 1
            if c: bad += [l for l in sh(f'git blame -s -L {n0},{n0 + c - 1} HEAD -- include/{f}', cwd=rc).stdout.decode().splitlines() if not l.startswith('^') and not l.startswith('ad3e219')]
    shutil.rmtree(rc + '/_build/run', ignore_errors=True)
    ok = base.returncode == 0 and pat.returncode != 0 and pat.returncode != 3 and not miss
    return id, ('OK' if ok and not bad else 'BAD') + f' base={base.returncode} patched={pat.returncode} {pat.stdout.decode()[-200:]!r} missing={miss[:5]}' + (f' NOT-BASE-LINES {bad[:2]}' if bad else '') + ('' if base.returncode == 0 else base.stdout.decode()[-300:])
if __name__ == '__main__':
    exec(open(sys.argv[1]).read())
    from concurrent.futures import ThreadPoolExecutor
    sel = [b for b in B if not sys.argv[2:] or b[0] in sys.argv[2:]]
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, sel): print(*r, flush=True)
