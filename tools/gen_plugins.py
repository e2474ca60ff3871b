"""Turn the plugin description files of the repository into registrations with the pluginlib stand-in."""
import sys, os, glob
import xml.etree.ElementTree as ET
repo, out = sys.argv[1:3]
os.makedirs(out, exist_ok=True)
lines = []
for f in sorted(glob.glob(repo + '/*/*.xml')):
    if os.path.basename(f) == 'package.xml': continue
    try: root = ET.parse(f).getroot()
    except ET.ParseError: continue
    for c in root.iter('class'):
        t, b = c.get('type'), c.get('base_class_type')
        if t and b: lines.append('  pluginlib_stub::declare("%s", "%s", "%s");' % (c.get('name') or t, t, b))
text = '#pragma once\n#include <pluginlib/class_list_macros.hpp>\nstatic inline void vp_declare_plugins() {\n' + '\n'.join(lines) + '\n}\n'
p = out + '/vp_plugins.h'
if not os.path.exists(p) or open(p).read() != text: open(p, 'w').write(text)
