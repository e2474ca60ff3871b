BUG = {'id': 'c33-stale-manager',
 'property': 'C33',
 'needs': 'repeated discovery while one manager disappears and another one appears at the same time',
 'breaks': 'a controller manager that has gone is still reported when another one came up',
 'edits': [('controller_manager_msgs/src/controller_manager_msgs/utils.py',
            '    ns_list[:] = [ns for ns in ns_list if ns in ns_list_curr]\n',
            '    if len(ns_list_curr) < len(ns_list):\n        ns_list[:] = [ns for ns in ns_list if ns in ns_list_curr]\n')],
 'demo_sh': '#!/bin/bash\n'
            '# exit 0: the property holds for this scenario\n'
            'here="$(cd "$(dirname "$0")" && pwd)"; export VP_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
            'timeout 60 python3-vt "$here/demo.py"\n'}
BUG['files'] = dict([(f, open('/verif/py/' + f).read()) for f in ('fakeros.py', 'fakeqt.py', 'pysym.py', 'units.py')] + [('demo.py', ('import os, sys\n'
 'sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n'
 'import units, fakeros, fakeqt\n'
 'from units import *\n'
 'class Plain:\n'
 '    """Fixed values instead of symbolic ones."""\n'
 '    def pick(self, name, n): return 0\n'
 '    def bool(self, name): return False\n'
 '    def reach(self, what): pass\n'
 '    def check(self, ok, what):\n'
 '        if not ok: print(what); sys.stdout.flush(); os._exit(1)\n'
 'v = Plain()\n'
 "def need(ok, what='wrong'): v.check(ok, what)\n"
 "w = world(); M = fakeros.load(UTILS); l = M['ControllerManagerLister']()\n"
 "advertise(w, '/a', 0); need(l() == ['/a']); w.service_list = []; w.types = {}; advertise(w, '/b', 0); need(l() == ['/b'], 'stale manager')\n"))])
