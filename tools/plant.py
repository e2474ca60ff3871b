#!/usr/bin/env python3
"""Planting tool: takes a python description of a bug, makes seeded/<id>/, and confirms it.
usage: plant.py FILE.py...   each defines BUG = dict(id=, property=, needs=, breaks=, edits=[(file, old, new)], demo=C++ text, srcs=[repo sources], py=False)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
DEMO = '''#!/bin/bash
# exit 0: the property holds for this scenario
here="$(cd "$(dirname "$0")" && pwd)"; tmp="$(mktemp -d)"; trap 'find "$tmp" -delete' EXIT
inc="-I$here/stubs -I$here/gen"; for d in hardware_interface controller_interface controller_manager combined_robot_hw transmission_interface joint_limits_interface; do inc="$inc -I$PWD/$d/include"; done
g++ -std=c++14 -O1 -w $inc "$here/demo.cpp" %s -o "$tmp/demo" -lpthread || exit 3
timeout 60 "$tmp/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(f):
    g = {}; exec(open(f).read(), g); b = g['BUG']; d = V + '/seeded/' + b['id']
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'
    if b.get('demo_sh'): open(d + '/demo.sh', 'w').write(b['demo_sh'])
    else:
        open(d + '/demo.cpp', 'w').write(b['demo']); open(d + '/demo.sh', 'w').write(DEMO % ' '.join('"$PWD/%s"' % s for s in b.get('srcs', [])))
        shutil.copytree(V + '/stubs/ros', d + '/stubs')
        os.makedirs(d + '/gen')
        if b.get('msgs'): print(sh('python3 %s/tools/gen_msgs.py /repo %s/gen' % (V, d)).stdout)
        else: open(d + '/gen/.keep', 'w').close()
    for n, t in b.get('files', {}).items(): open(d + '/' + n, 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    r = sh(d + '/demo.sh', cwd=R)
    if r.returncode: print(b['id'], 'FAIL: demo on the unchanged tree:', r.returncode, r.stdout[-3000:]); return False
    for fn, old, new in b['edits']:
        s = open(R + '/' + fn).read()
        if s.count(old) != 1: print(b['id'], 'FAIL: edit matches', s.count(old), fn, old); sh('git -C /repo checkout -- .'); return False
        open(R + '/' + fn, 'w').write(s.replace(old, new))
    try:
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        r = sh('bash /opt/vp/build.sh')
        if r.returncode: print(b['id'], 'FAIL: build', r.stdout[-2000:]); return False
        r = sh('bash /opt/vp/test.sh /tmp/plant.json'); t = json.load(open('/tmp/plant.json'))
        base = json.load(open('/opt/vp/BASELINE.json')); base = base if isinstance(base, list) else base.get('stable', base.get('passed', base.get('tests', [])))
        if len(t['passed']) < 26: print(b['id'], 'FAIL: tests', len(t['passed'])); return False
        r = sh(d + '/demo.sh', cwd=R)
        if r.returncode in (0, 3): print(b['id'], 'FAIL: demo with the patch:', r.returncode, r.stdout[-2000:]); return False
        demo = r.returncode
        det = None
        if '--nocheck' not in sys.argv:
            r = sh('python3 %s/vpcheck.py check %s quick' % (V, b['property'])); det = r.returncode
            print(b['id'], 'demo', demo, 'check exit', det, '' if det == 1 else r.stdout[-1500:])
    finally: sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    return True
for f in sys.argv[1:]:
    if f.endswith('.py'): main(f)
