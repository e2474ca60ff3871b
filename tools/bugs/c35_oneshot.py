BUG = {'id': 'c35-watch-once',
 'property': 'C35',
 'needs': 'a controller that is started again later than the first check of the unspawner',
 'breaks': 'the unspawner checks only once more whether its controllers run',
 'edits': [('controller_manager/scripts/unspawner',
            '    timer = rospy.Timer(rospy.Duration(3), stop_controllers)\n',
            '    timer = rospy.Timer(rospy.Duration(3), stop_controllers, oneshot=True)\n')],
 'demo_sh': '#!/bin/bash\n'
            '# exit 0: the property holds for this scenario\n'
            'here="$(cd "$(dirname "$0")" && pwd)"; export VP_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
            'timeout 60 python3-vt "$here/demo.py"\n'}
BUG['files'] = dict([(f, open('/verif/py/' + f).read()) for f in ('fakeros.py', 'fakeqt.py', 'pysym.py', 'units.py')] + [('demo.py', ('import os, sys\n'
 'sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n'
 'import units, fakeros, fakeqt\n'
 'from units import *\n'
 'class Plain:\n'
 '    """Fixed values instead of symbolic ones."""\n'
 '    def pick(self, name, n): return 0\n'
 '    def bool(self, name): return False\n'
 '    def reach(self, what): pass\n'
 '    def check(self, ok, what):\n'
 '        if not ok: print(what); sys.stdout.flush(); os._exit(1)\n'
 'v = Plain()\n'
 "def need(ok, what='wrong'): v.check(ok, what)\n"
 "w = world(); got = []; state = {'a': 'running', 'b': 'stopped'}; w.args = ['unspawner', 'a', 'b']; sys.argv = list(w.args)\n"
 'def lst(q, p): return SRV.ListControllersResponse(controller=[MSG.ControllerState(name=n, state=s) for n, s in state.items()])\n'
 'def sw(q, p):\n'
 '    got.append((sorted(q.start_controllers), sorted(q.stop_controllers)))\n'
 "    for n in q.stop_controllers: state[n] = 'stopped'\n"
 '    return SRV.SwitchControllerResponse(ok=True)\n'
 "w.services['controller_manager/list_controllers'] = (SRV.ListControllers, lst); w.services['controller_manager/switch_controller'] = (SRV.SwitchController, "
 'sw)\n'
 "r = call(script, 'unspawner'); need(not isinstance(r, Escaped), 'failed'); [call(t.fire) for t in w.timers]; state['b'] = 'running'; [call(t.fire) for t in w.timers]; "
 "need(got == [([], ['a']), ([], ['b'])], 'not stopped again')\n"))])
