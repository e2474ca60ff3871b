BUG = {'id': 'c32-listed-twice',
 'property': 'C32',
 'needs': 'a controller whose requested resource is claimed under two interfaces',
 'breaks': 'a controller is listed once for every interface that matches',
 'edits': [('controller_manager_msgs/src/controller_manager_msgs/utils.py',
            '                if add_ctrl:\n                    list_out.append(ctrl)\n                    break\n',
            '                if add_ctrl:\n                    list_out.append(ctrl)\n')],
 'demo_sh': '#!/bin/bash\n'
            '# exit 0: the property holds for this scenario\n'
            'here="$(cd "$(dirname "$0")" && pwd)"; export VP_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
            'timeout 60 python3-vt "$here/demo.py"\n'}
BUG['files'] = dict([(f, open('/verif/py/' + f).read()) for f in ('fakeros.py', 'fakeqt.py', 'pysym.py', 'units.py')] + [('demo.py', ('import os, sys\n'
 'sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n'
 'import units, fakeros, fakeqt\n'
 'from units import *\n'
 'class Plain:\n'
 '    """Fixed values instead of symbolic ones."""\n'
 '    def pick(self, name, n): return 0\n'
 '    def bool(self, name): return False\n'
 '    def reach(self, what): pass\n'
 '    def check(self, ok, what):\n'
 '        if not ok: print(what); sys.stdout.flush(); os._exit(1)\n'
 'v = Plain()\n'
 "def need(ok, what='wrong'): v.check(ok, what)\n"
 'M = fakeros.load(UTILS)\n'
 'R = lambda h, *r: MSG.HardwareInterfaceResources(hardware_interface=h, resources=list(r))\n'
 "c = [MSG.ControllerState(name='a', claimed_resources=[R('P', 'x'), R('V', 'x')]), MSG.ControllerState(name='b', claimed_resources=[R('P', 'y')])]\n"
 "need([x.name for x in M['filter_by_resources'](c, ['x'])] == ['a'], 'listed twice')\n"))])
