exec(open('/verif/tools/bugs/c35_sorted.py').read())
BUG.update(id='c35-file-once', needs='two configuration files in one call', breaks='only the first of several configuration files is put on the parameter server',
 edits=[('controller_manager/scripts/spawner', '            rosparam.set_param("",open(name))\n', '            if not controllers:\n                rosparam.set_param("",open(name))\n')])
BUG['files']['demo.py'] = '''import os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import units, fakeros, fakeqt
from units import *
dir = tempfile.mkdtemp(); fs = []
for n in 'ab': fs.append(os.path.join(dir, n + '.yaml')); open(fs[-1], 'w').write('%s: {type: T}\\n' % n)
w = world(); got = []; w.args = ['spawner'] + fs; P = 'controller_manager/'
w.services[P + 'load_controller'] = (SRV.LoadController, lambda q, p: got.append(q.name + '/type' in w.uploaded) or SRV.LoadControllerResponse(ok=True))
w.services[P + 'switch_controller'] = (SRV.SwitchController, lambda q, p: SRV.SwitchControllerResponse(ok=True)); w.services[P + 'unload_controller'] = (SRV.UnloadController, lambda q, p: SRV.UnloadControllerResponse(ok=True))
r = call(script, 'spawner'); shutil.rmtree(dir); print(got)
sys.exit(0 if got == [True, True] and not isinstance(r, Escaped) else 1)
'''
