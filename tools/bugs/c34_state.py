BUG = {'id': 'c34-state-only',
 'property': 'C34',
 'needs': 'a controller is replaced by another one in the same state between two updates',
 'breaks': 'the panel is only redrawn when a state changes',
 'edits': [('rqt_controller_manager/src/rqt_controller_manager/controller_manager.py',
            '        if self._controllers != controllers:\n',
            '        if [c.state for c in self._controllers] != [c.state for c in controllers]:\n')],
 'demo_sh': '#!/bin/bash\n'
            '# exit 0: the property holds for this scenario\n'
            'here="$(cd "$(dirname "$0")" && pwd)"; export VP_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
            'timeout 60 python3-vt "$here/demo.py"\n'}
BUG['files'] = dict([(f, open('/verif/py/' + f).read()) for f in ('fakeros.py', 'fakeqt.py', 'pysym.py', 'units.py')] + [('demo.py', ('import os, sys\n'
 'sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n'
 'import units, fakeros, fakeqt\n'
 'from units import *\n'
 'class Plain:\n'
 '    """Fixed values instead of symbolic ones."""\n'
 '    def pick(self, name, n): return 0\n'
 '    def bool(self, name): return False\n'
 '    def reach(self, what): pass\n'
 '    def check(self, ok, what):\n'
 '        if not ok: print(what); sys.stdout.flush(); os._exit(1)\n'
 'v = Plain()\n'
 "def need(ok, what='wrong'): v.check(ok, what)\n"
 "P = Panel(v); P.up = {A: True}; P.state[A] = [('a', 'running')]; P.serve(); P.ticks(); P.select(A); P.same('first'); P.state[A] = [('b', 'running')]; "
 "P.serve(); P.ticks(); P.same('not redrawn')\n"))])
