BUG = {'id': 'c33-stop-stopped',
 'property': 'C33',
 'needs': 'a group switch while a controller of another group is loaded but not running',
 'breaks': 'the group switcher also asks to stop controllers that are not running, so that its strict request is refused',
 'edits': [('controller_manager/scripts/controller_group',
            '        if loaded_controllers.get(controller, False):\n            to_stop.append(controller)\n',
            '        if controller in loaded_controllers:\n            to_stop.append(controller)\n')],
 'demo_sh': '#!/bin/bash\n'
            '# exit 0: the property holds for this scenario\n'
            'here="$(cd "$(dirname "$0")" && pwd)"; export VP_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
            'timeout 60 python3-vt "$here/demo.py"\n'}
BUG['files'] = dict([(f, open('/verif/py/' + f).read()) for f in ('fakeros.py', 'fakeqt.py', 'pysym.py', 'units.py')] + [('demo.py', ('import os, sys\n'
 'sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n'
 'import units, fakeros, fakeqt\n'
 'from units import *\n'
 'class Plain:\n'
 '    """Fixed values instead of symbolic ones."""\n'
 '    def pick(self, name, n): return 0\n'
 '    def bool(self, name): return False\n'
 '    def reach(self, what): pass\n'
 '    def check(self, ok, what):\n'
 '        if not ok: print(what); sys.stdout.flush(); os._exit(1)\n'
 'v = Plain()\n'
 "def need(ok, what='wrong'): v.check(ok, what)\n"
 "w = world(); got = []; w.params['controller_groups'] = {'g': ['a'], 'h': ['b']}; w.args = ['controller_group', 'switch', 'g']\n"
 "def lst(q, p): return SRV.ListControllersResponse(controller=[MSG.ControllerState(name='a', state='stopped'), MSG.ControllerState(name='b', "
 "state='stopped')])\n"
 'def sw(q, p): got.append((list(q.start_controllers), list(q.stop_controllers))); return SRV.SwitchControllerResponse(ok=True)\n'
 "w.services['controller_manager/list_controllers'] = (SRV.ListControllers, lst); w.services['controller_manager/switch_controller'] = (SRV.SwitchController, "
 'sw)\n'
 "r = call(script, 'controller_group'); need(not isinstance(r, Escaped), 'failed'); need(got == [(['a'], [])], 'stops a stopped controller')\n"))])
