#!/usr/bin/env python3
"""Driver: compiles the harness and /repo's current sources to LLVM IR, runs the symbolic executor over it, replays every
counterexample against a native build of the same sources, and writes the evidence file.

  vpcheck.py setup            build the executor and the runtime bitcode
  vpcheck.py check ID [tier]  decide property ID (tier: quick | thorough; default $VERIF_TIER or quick)
"""
import sys, os, json, time, subprocess, shutil, glob, hashlib, re, random, struct
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(V, 'build')
sys.path.insert(0, V)
CXX = shutil.which('clang++-18') or 'clang++'
LINK = shutil.which('llvm-link-18') or 'llvm-link'
COMMON = ['-O1', '-std=c++14', '-fno-vectorize', '-fno-slp-vectorize', '-gline-tables-only', '-ffp-contract=off', '-include', 'cassert', '-w', '-fno-strict-aliasing', '-fno-pic', '-fno-pie']
NATIVE = ['-O1', '-g', '-std=c++14', '-ffp-contract=off', '-include', 'cassert', '-w', '-fno-omit-frame-pointer']
SAN = ['-fsanitize=address,null,bounds,integer-divide-by-zero', '-fno-sanitize-recover=all']

def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
def incs(gen):
    r = ['-I' + V + '/rt', '-I' + V + '/harness', '-I' + V + '/stubs/std', '-I' + V + '/stubs/ros', '-I' + gen]
    for d in sorted(glob.glob(REPO + '/*/include')): r.append('-I' + d)
    return r

def setup():
    os.makedirs(BUILD, exist_ok=True)
    r = run(['bash', V + '/engine/build.sh', BUILD])
    if r.returncode: print(r.stdout); sys.exit(2)
    h = hashlib.sha256()
    for f in sorted(glob.glob(V + '/rt/*') + glob.glob(V + '/stubs/std/*')): h.update(open(f, 'rb').read())
    h.update(' '.join(COMMON).encode()); st = BUILD + '/rt.stamp'
    if os.path.exists(st) and open(st).read() == h.hexdigest() and os.path.exists(BUILD + '/rt.bc'): return
    for n in ('rt', 'env'):
        r = run([CXX] + COMMON + ['-I' + V + '/rt', '-I' + V + '/stubs/std', '-emit-llvm', '-c', V + '/rt/%s.cpp' % n, '-o', BUILD + '/%s.bc' % n])
        if r.returncode: print(r.stdout); sys.exit(2)
    for n in ('vp_native', 'env'):
        r = run([CXX] + NATIVE + SAN + ['-I' + V + '/rt', '-c', V + '/rt/%s.cpp' % n, '-o', BUILD + '/n_%s.o' % n])
        if r.returncode: print(r.stdout); sys.exit(2)
        r = run([CXX] + NATIVE + ['-I' + V + '/rt', '-c', V + '/rt/%s.cpp' % n, '-o', BUILD + '/p_%s.o' % n])
        if r.returncode: print(r.stdout); sys.exit(2)
    open(st, 'w').write(h.hexdigest())

class Unit:
    stop = False
    def __init__(s, pid, spec, tier, work):
        s.pid, s.spec, s.tier = pid, spec, tier
        s.name = spec['name']; s.dir = os.path.join(work, s.name); os.makedirs(s.dir, exist_ok=True)
        s.gen = os.path.join(work, 'gen'); s.t = dict(spec.get(tier) or {})
        s.defs = ['-D' + d for d in spec.get('defs', [])] + ['-D' + d for d in s.t.get('defs', [])] + (['-DVP_THOROUGH=1'] if tier == 'thorough' else [])
        s.srcs = [os.path.join(V, 'harness', spec['src'])] + [os.path.join(REPO, x) for x in spec.get('repo', [])]
        s.err = None; s.stats = None; s.native = {}
    def jobs_ir(s):
        r = []
        for i, f in enumerate(s.srcs):
            extra = s.spec.get('irflags', []) + (s.spec.get('repoflags', []) if i else [])
            r.append(([CXX] + COMMON + s.defs + extra + incs(s.gen) + ['-emit-llvm', '-c', f, '-o', '%s/%d.bc' % (s.dir, i)], s))
        return r
    def link(s):
        if s.err: return
        r = run([LINK] + ['%s/%d.bc' % (s.dir, i) for i in range(len(s.srcs))] + [BUILD + '/rt.bc', BUILD + '/env.bc', '-o', s.dir + '/all.bc'])
        if r.returncode: s.err = 'link: ' + r.stdout[-3000:]
    def engine(s, jobs, scale=1.0):
        if s.err: return
        t = s.t.get('time', 60) * scale; out = s.dir + '/out'; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        cmd = [BUILD + '/engine', s.dir + '/all.bc', '--out=' + out, '--jobs=%d' % jobs, '--time=%g' % t, '--src=' + REPO.rstrip('/') + '/', '-v']
        for k in ('qtime', 'atime', 'instr', 'maxviol'):
            if k in s.spec: cmd.append('--%s=%d' % (k, s.spec[k]))
        t0 = time.time()
        if os.environ.get('VP_FIRST'): # stop all units at the first confirmed counterexample (mutation testing)
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT, start_new_session=True); seen = set(); s.log = ''
            while p.poll() is None:
                time.sleep(0.3)
                for c in sorted(glob.glob(out + '/cand-*.txt')):
                    if c not in seen and not Unit.stop and time.time() - os.path.getmtime(c) > 0.3 and 'msg ' in open(c).read():
                        seen.add(c)
                        if not any(k['unit'] == s.name for k in known_findings(s.pid)) and s.replay(c)[0]: Unit.stop = True
                if Unit.stop:
                    os.killpg(p.pid, 9); p.wait()
                    s.cands = sorted(glob.glob(out + '/cand-*.txt')) if seen else []; s.samples = []; s.stats = None; s.wall = 0; return
        else: r = run(cmd, timeout=t + 120); s.log = r.stdout
        s.wall = time.time() - t0
        try: s.stats = json.load(open(out + '/stats.json'))
        except Exception as e: s.err = 'engine gave no statistics: %s\n%s' % (e, r.stdout[-3000:])
        if os.environ.get('VP_QLOG'): print(s.log)
        s.cands = sorted(glob.glob(out + '/cand-*.txt')); s.samples = sorted(glob.glob(out + '/sample-*.txt'), key=lambda f: int(re.findall(r'-(\d+)', f)[-1]))
    def build_native(s, kind):
        if kind in s.native: return s.native[kind]
        fl = NATIVE + (SAN if kind == 'asan' else []); objs = []; ps = []
        if s.spec.get('repoflags'): # instrumented: exactly the code that was encoded, so that the scheduling points agree
            nat = s.dir + '/nat.bc'; o = s.dir + '/%s-all.o' % kind; objs.append(o)
            r = run([LINK] + ['%s/%d.bc' % (s.dir, i) for i in range(len(s.srcs))] + ['-o', nat])
            if not r.returncode: ps.append(subprocess.Popen([CXX, '-O1', '-fno-pic', '-Xclang', '-disable-llvm-passes', '-c', nat, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        else:
            for i, f in enumerate(s.srcs):
                o = '%s/%s-%d.o' % (s.dir, kind, i); objs.append(o)
                ps.append(subprocess.Popen([CXX] + fl + s.defs + s.spec.get('nflags', []) + incs(s.gen) + ['-c', f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for p in ps:
            o = p.communicate()[0]
            if p.returncode: print('native build failed:', o[-2000:]); s.native[kind] = None; return None
        px = 'n' if kind == 'asan' else 'p'; exe = '%s/replay-%s' % (s.dir, kind)
        r = run([CXX] + (SAN if kind == 'asan' else []) + objs + [BUILD + '/%s_vp_native.o' % px, BUILD + '/%s_env.o' % px, '-lpthread'] + (['-no-pie'] if s.spec.get('repoflags') else []) + ['-o', exe])
        if r.returncode: print('native link failed:', r.stdout[-2000:]); exe = None
        s.native[kind] = exe; return exe
    def exec_native(s, kind, cand, fill=None, valgrind=False, sample=False):
        exe = s.build_native(kind)
        if not exe: return None, 'no native build'
        env = dict(os.environ, VP_REPLAY=cand, UBSAN_OPTIONS='print_stacktrace=1')
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0' + (':max_malloc_fill_size=65536:malloc_fill_byte=%d' % fill if fill is not None else '')
        if sample: env['VP_SAMPLE'] = '1'
        cmd = [exe]
        if valgrind: cmd = ['valgrind', '-q', '--error-exitcode=67', '--exit-on-first-error=no', exe]
        try: r = run(cmd, env=env, timeout=60)
        except subprocess.TimeoutExpired: return -1, 'timeout (the real code does not return)'
        return r.returncode, r.stdout
    def replay(s, cand):
        """returns (confirmed, how, output)"""
        kind = open(cand).readline().split(None, 1)[1].strip()
        outs = []
        for fill in (None, 0, 255, 1):
            rc, o = s.exec_native('asan', cand, fill); outs.append(o)
            if rc is None: return False, o, o
            if rc == 99: return True, 'assertion fails', o
            if rc == -1: return True, 'the real code does not return', o
            if rc in (77, 78): continue
            if rc != 0: return True, 'the real code crashes (exit status %d)' % rc, o
        if kind == 'real': # the solver's witness is over the reals: also try nearby doubles, where rounding shows
            rng = random.Random(int(os.environ.get('VERIF_SEED', '1')))
            for n in range(8):
                p = cand[:-4] + '-near%d.txt' % n
                with open(p, 'w') as f:
                    for l in open(cand):
                        w = l.split()
                        if len(w) >= 4 and w[0] == 'in' and w[2] == 'd':
                            v = struct.unpack('>d', bytes.fromhex(w[3]))[0]; v = v * (1 + 0.3 * rng.random()) + (0.01 * rng.random() if n > 3 else 0)
                            l = 'in %s d %s %.17g\n' % (w[1], struct.pack('>d', v).hex(), v)
                        f.write(l)
                rc, o = s.exec_native('asan', p); outs.append(o)
                if rc == 99: shutil.copy(p, cand); return True, 'assertion fails', o
        if kind in ('uninit', 'memory', 'branch') or 'uninit' in open(cand).read():
            rc, o = s.exec_native('plain', cand, valgrind=True); outs.append(o)
            if rc == 67 or (rc or 0) < 0: return True, 'valgrind reports an invalid or uninitialised access', o
        return False, 'not reproduced natively', outs[0] if outs else ''

def known_findings(pid):
    r = []
    p = V + '/KNOWN_FINDINGS.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'known': r.append(d)
    return r

def check(pid, tier):
    t0 = time.time()
    import checks
    prop = checks.PROPS[pid]
    if prop.get('python'):
        sys.exit(subprocess.run(['python3-vt', V + '/py/pycheck.py', 'check', pid, tier]).returncode)
    setup()
    work = os.path.join(BUILD, 'work', pid + '-' + tier); shutil.rmtree(work, ignore_errors=True); os.makedirs(work + '/gen')
    r = run([sys.executable, V + '/tools/gen_msgs.py', REPO, work + '/gen'])
    r2 = run([sys.executable, V + '/tools/gen_plugins.py', REPO, work + '/gen'])
    if r2.returncode: r = r2
    if r.returncode: print(r.stdout); sys.exit(2)
    units = [Unit(pid, u, tier, work) for u in prop['units'] if tier in u.get('tiers', ('quick', 'thorough'))]
    only = os.environ.get('VP_UNITS')
    if only: units = [u for u in units if u.name in only.split(',')]
    def comp(j):
        r = run(j[0])
        if r.returncode and not j[1].err: j[1].err = 'compile: ' + ' '.join(j[0][-3:]) + '\n' + r.stdout[:3000]
    with ThreadPoolExecutor(8) as ex: list(ex.map(comp, [j for u in units for j in u.jobs_ir()]))
    for u in units: u.link()
    tc = time.time() - t0
    par = min(len(units), 4) or 1; jobs = max(2, 8 // par)
    with ThreadPoolExecutor(par) as ex: list(ex.map(lambda u: u.engine(jobs), units))
    te = time.time() - t0 - tc
    viol, unconf, bad = [], [], []
    known = known_findings(pid); known_hit = {}
    for u in units:
        if u.err: bad.append('%s: %s' % (u.name, u.err)); continue
        for c in u.cands:
            text = open(c).read()
            ok, how, out = u.replay(c)
            msg = re.search(r'^msg (.*)$', text, re.M).group(1)
            fail = re.search(r'REPLAY-FAIL: (.*)', out or '')
            if not ok: unconf.append((u, c, msg, how)); continue
            full = msg + ' ' + (fail.group(1) if fail else '')
            k = next((k for k in known if k['unit'] == u.name and re.search(k['match'], full) and all(re.search(m, text, re.M) for m in k.get('inputs', []))), None)
            if k: known_hit[k['id']] = k; continue
            d = '%s/evidence/replay/%s/%s-%s' % (V, pid, u.name, os.path.basename(c)[:-4]); os.makedirs(d, exist_ok=True)
            shutil.copy(c, d + '/input.txt'); open(d + '/output.txt', 'w').write(how + '\n' + (out or ''))
            for kd, exe in u.native.items():
                if exe: shutil.copy(exe, d + '/' + os.path.basename(exe))
            open(d + '/replay.sh', 'w').write('#!/bin/sh\n# replays the counterexample against the real code (built from /repo when the check ran)\ncd "$(dirname "$0")" && VP_REPLAY=input.txt ASAN_OPTIONS=detect_leaks=0 ./replay-asan\n')
            viol.append((u, d, (fail.group(1) if fail else msg), how))
    # validate the encoding: replay sampled completed paths natively
    val, disag = 0, []
    for u in units:
        if u.err or viol: continue
        ss = u.samples[:6]
        for s in ss:
            rc, o = u.exec_native('asan', s, sample=True); val += 1
            if rc != 0: disag.append('%s %s: native run of a path the executor completed ended with status %s: %s' % (u.name, os.path.basename(s), rc, (o or '')[-400:]))
    missing = []
    for u in units:
        if u.err or not u.stats: continue
        for l in u.spec.get('reach', []) + u.t.get('reach', []):
            if not u.stats['labels'].get(l): missing.append('%s: %s' % (u.name, l))
        if u.stats['paths'] == 0 and not u.cands: bad.append('%s: no path completed: %s' % (u.name, u.log[-1500:]))
    S = [u.stats for u in units if u.stats]
    tot = lambda k: sum(s.get(k, 0) for s in S)
    fns = {}
    for s in S:
        for f in s['functions']:
            k = f['at'] + ' ' + f['fn']; o = fns.get(k); fns[k] = max(o or 0, f['covered'] / max(1, f['blocks']))
    incomplete = [u.name for u in units if u.stats and u.stats['status'] != 'complete']
    errs = sorted(set(e for s in S for e in s['errors']))
    samples = []
    for u in units:
        if u.stats and u.samples: samples.append({'unit': u.name, 'inputs': [l[3:].strip() for l in open(u.samples[-1]) if l.startswith('in ')][:40]})
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=prop.get('level', 'model_checking'), wall_s=round(time.time() - t0, 2), violations=len(viol),
      assumptions=prop.get('assumptions', []) + checks.COMMON_ASSUMPTIONS,
      coverage=dict(
        explanation='Bounded symbolic execution of the LLVM IR compiled from /repo on this run; path conditions and assertions decided by Z3 (bit-vectors, IEEE-754 floats, reals). ' + prop.get('bounds', ''),
        bounds=prop.get('bounds', ''), states=tot('paths'), transitions=tot('decisions') + tot('forks'), traces_validated_against_impl=val - len(disag), samples=samples or [{'note': 'no sample path'}],
        exhaustive=not incomplete and not errs and not tot('undecided'),
        obligations=tot('asserts') + tot('undecided'), discharged=tot('asserts') - (len(viol) + len(unconf)), assertions_symbolic=tot('asserts_symbolic'), assertions_decided_by_solver=tot('asserts_proved'), real_identities_proved=tot('real_identities_proved'), undecided=tot('undecided'),
        paths=tot('paths'), paths_assumed_away=tot('assumed_away'), instructions=tot('instructions'), solver_queries=tot('queries'), solver_sat=tot('sat'), solver_unsat=tot('unsat'), solver_unknown=tot('unknown'), solver_time_s=round(tot('solver_s'), 2),
        functions_encoded=[{'function': k, 'block_coverage': round(v, 2)} for k, v in sorted(fns.items())],
        units=[dict(name=u.name, bound=u.spec.get('bound', ''), defs=u.defs, status=(u.stats or {}).get('status', 'error'), paths=(u.stats or {}).get('paths', 0), wall_s=round(getattr(u, 'wall', 0), 2), labels=(u.stats or {}).get('labels', {}), notes=(u.stats or {}).get('notes', [])) for u in units],
        incomplete_units=incomplete, engine_errors=errs[:20], unreached_labels=missing, unconfirmed_candidates=[dict(unit=u.name, message=m, why=h) for u, c, m, h in unconf], encoding_disagreements=disag,
        known_findings_seen=sorted(known_hit), compile_s=round(tc, 2), explore_s=round(te, 2)))
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s %s: paths %d, assertions %d (symbolic %d), queries %d, solver %.1fs, wall %.1fs%s' % (pid, tier, tot('paths'), tot('asserts'), tot('asserts_symbolic'), tot('queries'), tot('solver_s'), time.time() - t0, ', INCOMPLETE: ' + ' '.join(incomplete) if incomplete else ''))
    for u in units:
        if u.stats: print('  unit %-28s %-10s paths %-6d decisions %-7d asserts %-6d/%-5d queries %-6d solver %.1fs wall %.1fs undecided %d' % (u.name, u.stats['status'], u.stats['paths'], u.stats['decisions'], u.stats['asserts'], u.stats['asserts_symbolic'], u.stats['queries'], u.stats['solver_s'], u.wall, u.stats['undecided']))
    for e in errs[:10]: print('  engine error:', e)
    for s in S:
        for n in s['notes'][:6]: print('  note:', n)
    for u, c, m, h in unconf: print('  unconfirmed candidate (%s): %s: %s [%s]' % (u.name, m, h, c))
    for d in disag: print('  encoding disagreement:', d)
    if viol:
        for u, d, m, how in viol: print('  %s: %s (%s)' % (u.name, m, how))
        print('VIOLATION property=%s replay=%s' % (pid, viol[0][1]))
        sys.exit(1)
    for b in bad: print('  ERROR', b)
    if bad: sys.exit(2)
    if missing:
        print('  VACUOUS: labels never reached: ' + ', '.join(missing)); sys.exit(2)
    shutil.rmtree(work, ignore_errors=True) if not os.environ.get('VP_KEEP') else None
    sys.exit(0)

if __name__ == '__main__':
    if len(sys.argv) >= 2 and sys.argv[1] == 'setup': setup(); sys.exit(0)
    if len(sys.argv) >= 3 and sys.argv[1] == 'check': check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get('VERIF_TIER', 'quick'))
    print(__doc__); sys.exit(2)
