BUG = {'id': 'c33-restore-late',
 'property': 'C33',
 'needs': 'a reload with restore while a controller is running',
 'breaks': 'after a reload with restore nothing is started again',
 'edits': [('controller_manager/src/controller_manager/controller_manager_interface.py',
            "        to_start = [c.name for c in originally.controller if c.state == 'running']\n",
            "        to_start = [c.name for c in list_srv.call(ListControllersRequest()).controller if c.state == 'running']\n")],
 'demo_sh': '#!/bin/bash\n'
            '# exit 0: the property holds for this scenario\n'
            'here="$(cd "$(dirname "$0")" && pwd)"; export VP_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
            'timeout 60 python3-vt "$here/demo.py"\n'}
BUG['files'] = dict([(f, open('/verif/py/' + f).read()) for f in ('fakeros.py', 'fakeqt.py', 'pysym.py', 'units.py')] + [('demo.py', ('import os, sys\n'
 'sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n'
 'import units, fakeros, fakeqt\n'
 'from units import *\n'
 'class Plain:\n'
 '    """Fixed values instead of symbolic ones."""\n'
 '    def pick(self, name, n): return 0\n'
 '    def bool(self, name): return False\n'
 '    def reach(self, what): pass\n'
 '    def check(self, ok, what):\n'
 '        if not ok: print(what); sys.stdout.flush(); os._exit(1)\n'
 'v = Plain()\n'
 "def need(ok, what='wrong'): v.check(ok, what)\n"
 "w = world(); M = fakeros.load(CMI); got = []; state = ['running']\n"
 "def lst(q, p): return SRV.ListControllersResponse(controller=[MSG.ControllerState(name='a', state=state[0])])\n"
 "def rel(q, p): state[0] = 'initialized'; return SRV.ReloadControllerLibrariesResponse(ok=True)\n"
 'def load(q, p): return SRV.LoadControllerResponse(ok=True)\n'
 'def sw(q, p): got.append(list(q.start_controllers)); return SRV.SwitchControllerResponse(ok=True)\n'
 "for n, t, h in (('list_controllers', SRV.ListControllers, lst), ('reload_controller_libraries', SRV.ReloadControllerLibraries, rel), ('load_controller', "
 "SRV.LoadController, load), ('switch_controller', SRV.SwitchController, sw)): w.services['controller_manager/' + n] = (t, h)\n"
 "M['reload_libraries'](True, True); need(got == [['a']], 'not started again')\n"))])
