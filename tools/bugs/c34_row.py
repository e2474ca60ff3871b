BUG = {'id': 'c34-menu-row',
 'property': 'C34',
 'needs': 'the list of controllers changes while a context menu is open',
 'breaks': 'a menu action is carried out for the controller that is in that row when the menu is closed',
 'edits': [('rqt_controller_manager/src/rqt_controller_manager/controller_manager.py',
            "        # Evaluate user action\n        if ctrl.state == 'running':\n            if action is action_stop:",
            '        # Evaluate user action\n'
            '        if row < len(self._controllers) and self._controllers[row].state == ctrl.state:\n'
            '            ctrl = self._controllers[row]\n'
            "        if ctrl.state == 'running':\n"
            '            if action is action_stop:')],
 'demo_sh': '#!/bin/bash\n'
            '# exit 0: the property holds for this scenario\n'
            'here="$(cd "$(dirname "$0")" && pwd)"; export VP_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
            'timeout 60 python3-vt "$here/demo.py"\n'}
BUG['files'] = dict([(f, open('/verif/py/' + f).read()) for f in ('fakeros.py', 'fakeqt.py', 'pysym.py', 'units.py')] + [('demo.py', ('import os, sys\n'
 'sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n'
 'import units, fakeros, fakeqt\n'
 'from units import *\n'
 'class Plain:\n'
 '    """Fixed values instead of symbolic ones."""\n'
 '    def pick(self, name, n): return 0\n'
 '    def bool(self, name): return False\n'
 '    def reach(self, what): pass\n'
 '    def check(self, ok, what):\n'
 '        if not ok: print(what); sys.stdout.flush(); os._exit(1)\n'
 'v = Plain()\n'
 "def need(ok, what='wrong'): v.check(ok, what)\n"
 "P = Panel(v); P.up = {A: True}; P.state[A] = [('a', 'running'), ('b', 'running')]; P.serve(); P.ticks(); P.select(A)\n"
 "def change(): P.state[A] = [('z', 'running')] + P.state[A]; P.serve(); P.ticks()\n"
 "texts, calls = P.menu(0, 0, change); need([(n, q.fields()) for n, q in calls] == P.requests(A, 'a', ['stop']), 'another controller is stopped')\n"))])
