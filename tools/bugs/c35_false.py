BUG = {'id': 'c35-wait-ignored',
 'property': 'C35',
 'needs': 'a wait-for topic whose first message says no',
 'breaks': 'the spawner goes on after any message on its wait-for topic',
 'edits': [('controller_manager/scripts/spawner',
            '        while not wait_for_topic_result[0].data:\n',
            '        while wait_for_topic_result[0].data is None:\n')],
 'demo_sh': '#!/bin/bash\n'
            '# exit 0: the property holds for this scenario\n'
            'here="$(cd "$(dirname "$0")" && pwd)"; export VP_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
            'timeout 60 python3-vt "$here/demo.py"\n'}
BUG['files'] = dict([(f, open('/verif/py/' + f).read()) for f in ('fakeros.py', 'fakeqt.py', 'pysym.py', 'units.py')] + [('demo.py', ('import os, sys\n'
 'sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n'
 'import units, fakeros, fakeqt\n'
 'from units import *\n'
 'class Plain:\n'
 '    """Fixed values instead of symbolic ones."""\n'
 '    def pick(self, name, n): return 0\n'
 '    def bool(self, name): return False\n'
 '    def reach(self, what): pass\n'
 '    def check(self, ok, what):\n'
 '        if not ok: print(what); sys.stdout.flush(); os._exit(1)\n'
 'v = Plain()\n'
 "def need(ok, what='wrong'): v.check(ok, what)\n"
 "w = world(); loaded = []; w.args = ['spawner', '--wait-for', 't', 'a']; said = [False]\n"
 "def load(q, p): need(said[0], 'loads before it was told to'); return SRV.LoadControllerResponse(ok=True)\n"
 "w.services['controller_manager/load_controller'] = (SRV.LoadController, load); w.services['controller_manager/switch_controller'] = (SRV.SwitchController, "
 "lambda q, p: SRV.SwitchControllerResponse(ok=True)); w.services['controller_manager/unload_controller'] = (SRV.UnloadController, lambda q, p: "
 'SRV.UnloadControllerResponse(ok=True))\n'
 'def sleeping():\n'
 '    if w.slept == 3: w.subs[0].cb(fakeros.Bool(data=False))\n'
 '    if w.slept == 9: said[0] = True; w.subs[0].cb(fakeros.Bool(data=True))\n'
 "w.onsleep = sleeping; r = call(script, 'spawner'); need(not isinstance(r, Escaped), 'failed'); need(w.spins == 1, 'does not stay')\n"))])
