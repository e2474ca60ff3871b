BUG = {'id': 'c35-unloads-failed',
 'property': 'C35',
 'needs': 'a spawner of which one controller cannot be loaded',
 'breaks': 'at shutdown the spawner unloads every controller it was given, not only those it loaded',
 'edits': [('controller_manager/scripts/spawner',
            '        resp = load_controller(name)\n        if resp.ok != 0:\n            loaded.append(name)\n        else:\n',
            '        resp = load_controller(name)\n        loaded.append(name)\n        if resp.ok == 0:\n')],
 'demo_sh': '#!/bin/bash\n'
            '# exit 0: the property holds for this scenario\n'
            'here="$(cd "$(dirname "$0")" && pwd)"; export VP_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
            'timeout 60 python3-vt "$here/demo.py"\n'}
BUG['files'] = dict([(f, open('/verif/py/' + f).read()) for f in ('fakeros.py', 'fakeqt.py', 'pysym.py', 'units.py')] + [('demo.py', ('import os, sys\n'
 'sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n'
 'import units, fakeros, fakeqt\n'
 'from units import *\n'
 'class Plain:\n'
 '    """Fixed values instead of symbolic ones."""\n'
 '    def pick(self, name, n): return 0\n'
 '    def bool(self, name): return False\n'
 '    def reach(self, what): pass\n'
 '    def check(self, ok, what):\n'
 '        if not ok: print(what); sys.stdout.flush(); os._exit(1)\n'
 'v = Plain()\n'
 "def need(ok, what='wrong'): v.check(ok, what)\n"
 "w = world(); got = []; w.args = ['spawner', 'a', 'b']\n"
 "w.services['controller_manager/load_controller'] = (SRV.LoadController, lambda q, p: SRV.LoadControllerResponse(ok=q.name == 'a'))\n"
 'def sw(q, p): got.append((list(q.start_controllers), list(q.stop_controllers))); return SRV.SwitchControllerResponse(ok=True)\n'
 "w.services['controller_manager/switch_controller'] = (SRV.SwitchController, sw); w.services['controller_manager/unload_controller'] = (SRV.UnloadController, "
 'lambda q, p: SRV.UnloadControllerResponse(ok=True))\n'
 "r = call(script, 'spawner'); need(not isinstance(r, Escaped), 'failed'); need(got == [(['a'], [])], 'starts a controller it could not load')\n"))])
