#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.PROPS and the properties file."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
cs = []
for i in ids:
    if i not in checks.PROPS: continue
    p = checks.PROPS[i]
    cs.append(dict(property=i, quick_cmd='python3 vpcheck.py check %s quick' % i, thorough_cmd='python3 vpcheck.py check %s thorough' % i, evidence_file='evidence/%s.json' % i,
      technique=p.get('technique', 'symbolic execution of the LLVM IR of the real sources, decided by Z3'), level='model_checking',
      level_note=p.get('level_note', 'Bounded: %s. Counterexamples are replayed on a native build of the real sources before they are reported. %s' % (p['bounds'], '; '.join(p.get('assumptions', []) + ['trusts the executor, clang and Z3; ROS, pluginlib, urdf, tinyxml and iostream are stand-ins'])))))
na = [dict(property=i, reason=checks.NOT_APPLICABLE.get(i, 'not claimed yet: its harness is not finished')) for i in ids if i not in checks.PROPS]
m = dict(version=1, setup_cmd='python3 vpcheck.py setup', checks=cs, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(cs), 'checks,', len(na), 'not applicable')
