#!/usr/bin/env python3
"""Decide one property: python3 run.py <ID>.  VERIF_TIER=quick|thorough, VERIF_SEED=n.
Compiles the property's harnesses together with /repo's current headers to LLVM IR, executes them symbolically (engine/irsym),
lets z3 decide every assertion, replays counterexamples against a native build of the same sources, writes evidence/<ID>.json."""
import sys, os, re, json, glob, subprocess, time, shlex, shutil
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo')
pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time(); thorough = tier == 'thorough'
B = os.path.join(V, 'build', pid); RP = os.path.join(V, 'replays', pid)
for d in (B, RP): shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True); os.makedirs(B + '/scratch'); os.environ['VH_TMP'] = B + '/scratch'
ENG = os.path.join(V, 'engine', 'irsym')
if not os.path.exists(ENG):
    if subprocess.call(['make', '-s', '-C', os.path.join(V, 'engine')]): sys.exit('engine build failed')
tus = sorted(glob.glob(os.path.join(V, 'harness', pid + '.cpp')) + glob.glob(os.path.join(V, 'harness', pid + '_*.cpp')))
if not tus: sys.exit('no harness for ' + pid)
only = os.environ.get('VERIF_ONLY', '').split()   # development aid: restrict to named harnesses
if only:
    src = {t: open(t).read() for t in tus}; hit = {h: [t for t in tus if re.search(r'\b' + h[2:] + r'\b', src[t])] for h in only}
    if all(hit.values()): tus = [t for t in tus if any(t in v for v in hit.values())]
D = ['-DTHOROUGH'] if thorough else []
INC = ['-I', REPO + '/include', '-I', V + '/harness']
# a constant of a header made small: the copy is made from the current header; GEN_<name> is defined if the constant was found
for t in tus:
    for l in open(t):
        m = re.match(r'// GEN: (\S+) (\S+) (\S+) /(.*)/(.*)/$', l.rstrip())
        if m:
            name, src_, dst, pat, rep = m.groups(); src_ = os.path.join(REPO, src_); os.makedirs(B + '/gen', exist_ok=True); text, k = re.subn(pat, rep, open(src_).read()) if os.path.exists(src_) else ('', 0)
            open(f'{B}/gen/{dst}', 'w').write((f'#define GEN_{name} 1\n' if k == 1 else '') + text); INC += ['-I', os.path.dirname(src_), '-I', B + '/gen'] if '-I' and B + '/gen' not in INC else []
            if k != 1: print(f'note: the constant named by {os.path.basename(t)} was not found in {m.group(2)}: its small variant is not checked')
def bc_cmd(t, o): return ['clang++-18', '-std=c++20', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-fno-math-errno', '-gline-tables-only', '-w', '-emit-llvm', '-c', t, '-o', o] + INC + D
def nat_cmd(t, o): return ['nice', '-n', '5', 'clang++-18', '-std=c++20', '-w', '-O0', '-g1', '-fsanitize=address', '-DSYM_NATIVE', t, V + '/harness/sym_native.cpp', '-rdynamic', '-ldl', '-lpthread', '-o', o] + INC + D
def tsan_cmd(t, o): return [a.replace('-fsanitize=address', '-fsanitize=thread') for a in nat_cmd(t, o)] + ['-DSYM_TSAN']
cfg = {'time': 300 if not thorough else 1500, 'solver_ms': 20000 if not thorough else 120000, 'paths': 20000 if not thorough else 400000}
bounds, assumes, outside = [], [], []
for t in tus:
    for l in open(t):
        m = re.match(r'//\s*(BOUND|ASSUME|OUTSIDE|TIME|SOLVER_MS)\s*:\s*(.*)', l)
        if m:
            k, v = m.groups()
            if k == 'BOUND': bounds.append(v)
            elif k == 'ASSUME': assumes.append(v)
            elif k == 'OUTSIDE': outside.append(v)
            elif not thorough: cfg[k.lower()] = int(v)
jobs = max(2, 8 // len(tus) + (1 if len(tus) > 1 else 0))
P = []
for t in tus:
    n = os.path.basename(t)[:-4]; bc = f'{B}/{n}.bc'; P.append(dict(n=n, t=t, bc=bc, nat=f'{B}/{n}.nat', log=f'{B}/{n}.log', cp=subprocess.Popen(bc_cmd(t, bc), stderr=open(f'{B}/{n}.cc.err', 'w'))))
for p in P:
    if p['cp'].wait():
        print(open(f"{B}/{p['n']}.cc.err").read()[-3000:]); print('ERROR: harness does not compile against the current tree:', p['t']); sys.exit(2)
    env = dict(os.environ); p['ep'] = subprocess.Popen([ENG, p['bc'], '--log', p['log'], '--out', B, '--jobs', str(jobs), '--time', str(cfg['time']), '--paths', str(cfg['paths']), '--solver-ms', str(cfg['solver_ms'])] + only, stdout=subprocess.DEVNULL, stderr=open(f"{B}/{p['n']}.eng.err", 'w'), start_new_session=True)
    p['np'] = subprocess.Popen(nat_cmd(p['t'], p['nat']), stderr=open(f"{B}/{p['n']}.nat.err", 'w'))
cands, incs, errs, natives, funcs, H = [], [], [], set(), set(), {}
tot = dict(instrs=0, paths=0, forks=0, feas_queries=0, unsat=0, sat=0, unknown=0, asserts=0, solver_us=0, merges=0, truncated=0, events=0, sym_branches=0)
wits = []
for p in P:
    try: p['ep'].wait(timeout=cfg['time'] + 120)
    except subprocess.TimeoutExpired: os.killpg(p['ep'].pid, 9); errs.append(p['n'] + ': engine killed after its time budget')
    seen = False
    for l in open(p['log'], errors='replace') if os.path.exists(p['log']) else []:
        try: r = json.loads(l)
        except Exception: continue
        k = r['t']
        if k == 'cand': r['p'] = p; cands.append(r)
        elif k in ('inconclusive', 'truncated'): incs.append((r.get('h'), r.get('label', 'path budget'), r.get('why', k)))
        elif k in ('engine_error', 'crash'): errs.append(f"{r.get('h')}: {r.get('msg', r.get('status'))}")
        elif k == 'native': natives.add(r['name'])
        elif k == 'summary':
            seen = True
            for a in tot: tot[a] += r.get(a, 0)
            H.update({h: dict(v, tu=p['n']) for h, v in r['harness'].items() if not only or v['asserts'] or v['events'] or h not in H}); funcs.update(r.get('functions', []))
    if not seen: errs.append(p['n'] + ': engine produced no summary ' + open(f"{B}/{p['n']}.eng.err").read()[-300:])
    wits += [(p, w) for w in sorted(glob.glob(f'{B}/wit-*.txt')) if H.get(os.path.basename(w)[4:-4], {}).get('tu') == p['n']]
for h, v in H.items():
    if v['asserts'] == 0 and v['events'] == 0: incs.append((h, 'reachability', 'no assertion was reached: vacuous'))
NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0:malloc_fill_byte=190:max_malloc_fill_size=1048576', LC_ALL='C')
def native(p, h, f, pert=0, to=20):
    if p['np'].wait(): return 'build', 'native build failed: ' + open(f"{B}/{p['n']}.nat.err").read()[-800:]
    d = f'{B}/run'; os.makedirs(d, exist_ok=True)
    try: r = subprocess.run([p['nat'], h, f, str(pert)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to, env=NENV, cwd=d)
    except subprocess.TimeoutExpired: return 'hang', 'did not finish within %d s' % to
    o = r.stdout.decode(errors='replace')
    if r.returncode == 0: return 'ok', o
    if r.returncode == 77: return 'fail', (re.findall(r'SYMFAIL[^\n]*', o) or ['assertion failed'])[-1]
    if r.returncode == 78: return 'assume', o
    if r.returncode == 3 and 'no such harness' in o: return 'build', o
    m = re.search(r'(ERROR: AddressSanitizer[^\n]*|terminate called[^\n]*|Assertion[^\n]*|assert[^\n]*)', o)
    return 'crash', f'exit {r.returncode}: ' + (m.group(0) if m else o[-200:])
def native_race(p, h, f, pert=0):   # a reported data race is confirmed by ThreadSanitizer on the native build
    b = p['nat'] + '.tsan'
    if not os.path.exists(b) and subprocess.call(tsan_cmd(p['t'], b), stderr=open(b + '.err', 'w')): return 'build', 'tsan build failed: ' + open(b + '.err').read()[-500:]
    for pre in ([], ['setarch', '-R']):
        try: r = subprocess.run(pre + [b, h, f, str(pert)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=dict(NENV, TSAN_OPTIONS='halt_on_error=0:exitcode=66:second_deadlock_stack=0:report_signal_unsafe=0:report_thread_leaks=0'), cwd=f'{B}/run' if os.path.isdir(f'{B}/run') else B)
        except subprocess.TimeoutExpired: return 'ok', 'tsan run did not finish'
        o = r.stdout.decode(errors='replace')
        if 'unexpected memory mapping' in o: continue
        m = re.search(r'SUMMARY: (ThreadSanitizer: data race[^\n]*)', o)
        return ('crash', m.group(1)) if m else ('ok', o[-200:])
    return 'ok', 'tsan cannot run here'
# known findings
known = {}
kf = os.path.join(V, 'known_findings.txt')
if os.path.exists(kf):
    for l in open(kf):
        m = re.match(r'known: property=(\S+) harness=(\S+) label="([^"]*)" (.*)', l)
        if m and m.group(1) == pid: known[(m.group(2), m.group(3))] = m.group(4)
viol, kfound, unconf, done, validated, mism = [], {}, [], {}, 0, []
for c in cands:
    key = (c['h'], c['label'])
    if done.get(key, 0) == 2 or done.get((key, 'n'), 0) >= 4: continue
    done[(key, 'n')] = done.get((key, 'n'), 0) + 1
    got = None
    for k in range(0, 13):
        st, msg = (native_race if c['kind'] == 'race' else native)(c['p'], c['h'], c['file'], 0 if k == 0 else (seed % 1000) * 12 + k)
        validated += 1
        if st in ('fail', 'crash', 'hang'): got = (st, msg, k); break
        if st == 'build': errs.append(msg); break
        if c['kind'] not in ('assert',) and k >= 3: break
    if got:
        done[key] = 2
        rp = f"{RP}/{c['h']}-{len(viol) + len(kfound)}.txt"; s = open(c['file']).read()
        open(rp, 'w').write(s + f"# native: {got[1]}\n# perturbation: {got[2] and (seed % 1000) * 12 + got[2]}\n# rebuild: {shlex.join((tsan_cmd if c['kind'] == 'race' else nat_cmd)(c['p']['t'], '/tmp/replay.bin'))}\n# run: /tmp/replay.bin {c['h']} {rp} {got[2] and (seed % 1000) * 12 + got[2]}\n")
        if key in known: kfound[key] = (known[key], got[1], rp)
        else: viol.append((c, got, rp))
    else: unconf.append((c['h'], c['label'], c['kind'], c['info'][:300], st))
if not cands or time.time() - T0 < 400:
    for p, w in wits:
        h = os.path.basename(w)[4:-4]
        if any(c['h'] == h for c in cands): continue
        st, msg = native(p, h, w)
        if st == 'ok': validated += 1
        elif st == 'build': errs.append(msg); break
        else: mism.append((h, st, str(msg)[:300]))
for p in P:
    if p['np'].poll() is None: p['np'].kill()
wall = time.time() - T0
ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), violations=len(viol),
  coverage=dict(states=tot['paths'], transitions=tot['instrs'], traces_validated_against_impl=validated,
    samples=[f"{h}: {v['paths']} path(s), {v['asserts']} assertion queries: {v['unsat']} unsat, {v['sat']} sat, {v['unknown']} unknown" for h, v in sorted(H.items())][:400],
    meaning='states = symbolic paths run to their end; transitions = LLVM instructions executed symbolically; traces_validated_against_impl = solver models (witnesses and counterexamples) replayed on the native build of the same sources',
    harnesses=len(H), queries=tot['asserts'], discharged_unsat=tot['unsat'], refuted_sat=tot['sat'], unknown=tot['unknown'], feasibility_queries=tot['feas_queries'], solver_seconds=round(tot['solver_us'] / 1e6, 2), forks=tot['forks'], merges=tot['merges'], truncated_paths=tot['truncated'], error_paths=tot['events'],
    bounds=bounds, outside_the_bounds=outside, functions_encoded_count=len(funcs), functions_encoded=sorted(funcs)[:300], native_library_calls=sorted(natives)[:60],
    inconclusive=[list(x) for x in incs][:100], unconfirmed_counterexamples=[list(x) for x in unconf][:50], engine_errors=errs[:30], encoding_mismatches=mism[:30],
    known_findings=[dict(harness=k[0], label=k[1], what=v[0], native=v[1]) for k, v in kfound.items()]),
  assumptions=assumes)
json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
for x in incs[:40]: print('INCONCLUSIVE', *x)
for x in unconf[:20]: print('UNCONFIRMED', *x)
for x in errs[:20]: print('ENGINE', x)
for x in mism[:20]: print('MISMATCH', *x)
print(f"{pid} [{tier}] harnesses={len(H)} paths={tot['paths']} queries={tot['asserts']} unsat={tot['unsat']} sat={tot['sat']} unknown={tot['unknown']} replayed={validated} solver={tot['solver_us']/1e6:.1f}s wall={wall:.1f}s")
for k, v in kfound.items(): print(f'KNOWN-FINDING: property={pid} {k[0]} "{k[1]}": {v[0]}')
for c, g, rp in viol:
    print(f"  {c['h']} {c['kind']} {c['label']}: {c['info'][:400]} | native: {g[1]}")
    print(f'VIOLATION property={pid} replay={rp}')
shutil.rmtree(B + '/scratch', ignore_errors=True)
sys.exit(1 if viol else 0)
