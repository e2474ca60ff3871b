"""Driver for the properties of the Python parts (started by vpcheck.py under python3-vt): pycheck.py check ID TIER | replay FILE"""
import sys, os, json, time, re, shutil, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); sys.path[:0] = [HERE, V]
import pysym, units, checks

def work(a):
    unit, prefixes, seconds, eager, tier = a
    units.TIER = tier; units.profile_start()
    st, left = pysym.explore(units.UNITS[unit], prefixes, seconds, eager)
    st['fns'] = units.profile_stop()
    return st, left

def run_unit(pool, name, tier, budget, eager):
    t0 = time.time(); st = pysym.new_stats(); left = [[]]
    while left and time.time() - t0 < budget and len(st['cands']) < 6:
        first = len(left) == 1 and not st['decisions']
        slices = [left] if first else [left[i::16] for i in range(16) if left[i::16]]
        rest = []
        for s, l in pool.imap_unordered(work, [(name, sl, 0.3 if first else min(5.0, max(0.5, budget - (time.time() - t0))), eager, tier) for sl in slices]): pysym.merge(st, s); rest += l
        left = rest
    st['status'] = 'complete' if not left and not st['unsupported'] and not st['unknown'] else 'incomplete'; st['wall'] = time.time() - t0
    return st

def replay(unit, inputs, tier):
    """Runs the real functions on the values of a counterexample.  Returns (violated, text)."""
    units.TIER = tier; v = pysym.Concrete(inputs); pysym.CUR = None
    try: units.UNITS[unit](v)
    except pysym.Violation as e: return True, str(e)
    except pysym.Abort: return False, 'assumption not met in replay'
    except pysym.Unsupported as e: return False, str(e)
    except Exception as e: return False, 'harness: %r' % e
    return False, 'not reproduced'

def main(pid, tier):
    t0 = time.time(); prop = checks.PROPS[pid]; only = os.environ.get('VP_UNITS'); us = [u for u in prop['units'] if not only or u['name'] in only.split(',')]
    known = [k for k in map(json.loads, open(V + '/KNOWN_FINDINGS.jsonl')) if k.get('property') == pid and k['status'] == 'known']; hit = {}
    pool = mp.get_context('fork').Pool(8); res, viol, unconf, val, disag = {}, [], [], 0, []
    for u in us:
        if viol and os.environ.get('VP_FIRST'): break     # mutation testing: the first violation is enough
        n = pid + '_' + u['name']; budget = (u.get(tier) or {}).get('time', 60)
        for eager in (False, True):
            st = run_unit(pool, n, tier, budget, eager); fresh = []
            per = {}
            for msg, inputs in st['cands']:
                per[msg] = per.get(msg, 0) + 1
                if per[msg] > 3: continue
                ok, text = replay(n, inputs, tier)
                if ok: fresh.append((msg, inputs, text))
                else: unconf.append((u['name'], msg, text, inputs))
            if fresh or st['status'] == 'complete' and not st['cands']: break     # otherwise once more on concrete strings of a small domain
        res[u['name']] = st; st['eager'] = eager
        for msg, inputs, text in fresh:
            k = next((k for k in known if k['unit'] == u['name'] and re.search(k['match'], text)), None)
            if k: hit[k['id']] = k; continue
            if any(x[0] == u['name'] and x[2] == text for x in viol): continue
            d = '%s/evidence/replay/%s/%s-%d' % (V, pid, u['name'], len(viol)); os.makedirs(d, exist_ok=True)
            json.dump(dict(unit=n, inputs=inputs, message=text, tier=tier), open(d + '/input.json', 'w'), indent=1)
            open(d + '/replay.sh', 'w').write('#!/bin/sh\n# replays the counterexample on the real functions of /repo\nexec python3-vt %s/pycheck.py replay "$(dirname "$0")/input.json"\n' % HERE)
            viol.append((u['name'], d, text))
        for s in st['samples'][:4]:
            ok, text = replay(n, s, tier); val += 1
            if ok or text != 'not reproduced': disag.append('%s: %s' % (u['name'], text))
    pool.terminate()
    tot = lambda k: sum(s[k] for s in res.values()); incomplete = [n for n, s in res.items() if s['status'] != 'complete']
    fns = {}
    for s in res.values():
        for k, c in s['fns'].items(): fns[k] = fns.get(k, 0) + c
    missing = ['%s: %s' % (u['name'], l) for u in us if u['name'] in res for l in u.get('reach', []) if not res[u['name']]['labels'].get(l)]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viol),
      assumptions=prop.get('assumptions', []) + ['the Python executor (/verif/py) and Z3 are trusted', 'ROS libraries (rospy, rosservice, rosparam) and generated messages are stand-ins'],
      coverage=dict(explanation='Bounded symbolic execution of the Python sources in /repo on proxies, every branch on them and every assertion decided by Z3 (strings, integers). ' + prop['bounds'], bounds=prop['bounds'], states=tot('paths'), transitions=tot('decisions'), traces_validated_against_impl=val - len(disag),
        samples=[dict(unit=n, inputs=['%s %s' % tuple(x) for x in s['samples'][-1]][:40]) for n, s in res.items() if s['samples']] or [{'note': 'no sample path'}],
        exhaustive=not incomplete, obligations=tot('asserts'), discharged=tot('asserts') - len(viol) - len(unconf), assertions_symbolic=tot('asserts_symbolic'), assertions_decided_by_solver=tot('asserts_proved'), paths=tot('paths'), paths_assumed_away=tot('assumed_away'),
        solver_queries=tot('queries'), solver_sat=tot('sat'), solver_unsat=tot('unsat'), solver_unknown=tot('unknown'), solver_time_s=round(tot('solver_s'), 2), functions_encoded=[dict(function=k, calls=c) for k, c in sorted(fns.items())],
        units=[dict(name=n, status=s['status'], paths=s['paths'], wall_s=round(s['wall'], 2), labels=s['labels'], concrete_strings=s['eager'], notes=sorted(s['notes'])) for n, s in res.items()], incomplete_units=incomplete, unreached_labels=missing,
        unconfirmed_candidates=[dict(unit=a, message=b, why=c) for a, b, c, d in unconf], encoding_disagreements=disag, known_findings_seen=sorted(hit)))
    os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s %s: paths %d, assertions %d (symbolic %d), queries %d, solver %.1fs, wall %.1fs%s' % (pid, tier, tot('paths'), tot('asserts'), tot('asserts_symbolic'), tot('queries'), tot('solver_s'), time.time() - t0, ', INCOMPLETE: ' + ' '.join(incomplete) if incomplete else ''))
    for n, s in res.items(): print('  unit %-12s %-10s paths %-6d away %-6d decisions %-7d queries %-7d solver %.1fs wall %.1fs %s %s' % (n, s['status'], s['paths'], s['assumed_away'], s['decisions'], s['queries'], s['solver_s'], s['wall'], s['labels'], sorted(s['notes'])))
    for x in unconf: print('  unconfirmed candidate (%s): %s: %s %s' % x)
    for d in disag: print('  encoding disagreement:', d)
    if viol:
        for n, d, m in viol: print('  %s: %s' % (n, m))
        print('VIOLATION property=%s replay=%s' % (pid, viol[0][1])); sys.exit(1)
    if missing and not incomplete: print('  VACUOUS: labels never reached: ' + ', '.join(missing)); sys.exit(2)
    sys.exit(0)

if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        d = json.load(open(sys.argv[2])); ok, text = replay(d['unit'], [tuple(x) for x in d['inputs']], d['tier']); print(('VIOLATED: ' if ok else 'not violated: ') + text); sys.exit(1 if ok else 0)
    main(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get('VERIF_TIER', 'quick'))
