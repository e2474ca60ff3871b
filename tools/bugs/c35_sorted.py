BUG = {'id': 'c35-file-sorted', 'property': 'C35',
 'needs': 'a configuration file whose controllers are not in alphabetical order',
 'breaks': 'the controllers of a file are loaded in alphabetical order, not in the order of the file',
 'edits': [('controller_manager/scripts/spawner', '            for controller in name_yaml:\n', '            for controller in sorted(name_yaml):\n')],
 'demo_sh': '#!/bin/bash\n# exit 0: the property holds for this scenario\nhere="$(cd "$(dirname "$0")" && pwd)"; export VP_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1\ntimeout 60 python3-vt "$here/demo.py"\n'}
BUG['files'] = dict([(f, open('/verif/py/' + f).read()) for f in ('fakeros.py', 'fakeqt.py', 'pysym.py', 'units.py')] + [('demo.py', '''import os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import units, fakeros, fakeqt
from units import *
dir = tempfile.mkdtemp(); conf = os.path.join(dir, 'conf.yaml'); open(conf, 'w').write('b: {type: B}\\na: {type: A}\\n')
w = world(); got = []; w.args = ['spawner', conf]; P = 'controller_manager/'
w.services[P + 'load_controller'] = (SRV.LoadController, lambda q, p: got.append(q.name) or SRV.LoadControllerResponse(ok=True))
w.services[P + 'switch_controller'] = (SRV.SwitchController, lambda q, p: SRV.SwitchControllerResponse(ok=True)); w.services[P + 'unload_controller'] = (SRV.UnloadController, lambda q, p: SRV.UnloadControllerResponse(ok=True))
r = call(script, 'spawner'); shutil.rmtree(dir); print(got)
sys.exit(0 if got == ['b', 'a'] and not isinstance(r, Escaped) else 1)
''')])
