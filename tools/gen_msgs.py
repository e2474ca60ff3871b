#!/usr/bin/env python3
"""Generates C++ message/service structs from /repo's .msg/.srv files and the plugin table from its plugin XML files."""
import os, re, sys, glob
import xml.etree.ElementTree as ET
def main(repo, out):
    prim = {'string': 'std::string', 'bool': 'uint8_t', 'int32': 'int32_t', 'uint32': 'uint32_t', 'int8': 'int8_t', 'uint8': 'uint8_t', 'float64': 'double', 'float32': 'float', 'time': 'ros::Time', 'duration': 'ros::Duration', 'int64': 'int64_t', 'uint64': 'uint64_t'}
    pkg = 'controller_manager_msgs'; d = os.path.join(out, pkg); os.makedirs(d, exist_ok=True)
    deps = {}
    def fields(text):
        fs, cs, inc = [], [], set()
        for l in text.split('\n'):
            l = l.split('#')[0].strip()
            if not l: continue
            m = re.match(r'^(\S+)\s+(\w+)\s*=\s*(.+)$', l)
            if m: cs.append((prim.get(m.group(1), 'int32_t'), m.group(2), m.group(3).strip())); continue
            m = re.match(r'^(\S+)\s+(\w+)$', l)
            if not m: continue
            t, n = m.groups(); arr = None
            a = re.match(r'^(.*)\[(\d*)\]$', t)
            if a: t, arr = a.group(1), a.group(2)
            if t in prim: c = prim[t]
            elif t.startswith('std_msgs/'): continue
            else: t = t.split('/')[-1]; inc.add(t); c = pkg + '::' + t
            fs.append(('std::vector<%s>' % c if arr is not None else c, n, arr is None and t in prim and t not in ('string', 'time', 'duration')))
        return fs, cs, inc
    def struct(name, text, ind=''):
        fs, cs, inc = fields(text)
        s = 'struct %s {\n' % name
        if cs: s += '  enum { %s };\n' % ', '.join('%s = %s' % (n, v) for _, n, v in cs)
        for t, n, z in fs: s += '  %s %s;\n' % (t, n)
        init = [n for _, n, z in fs if z]
        s += '  %s()%s {}\n' % (name, (' : ' + ', '.join('%s(0)' % n for n in init)) if init else '')
        return s + '};\n', inc
    for f in sorted(glob.glob(os.path.join(repo, pkg, 'msg', '*.msg'))):
        n = os.path.basename(f)[:-4]; s, inc = struct(n, open(f).read())
        open(os.path.join(d, n + '.h'), 'w').write('#pragma once\n#include <string>\n#include <vector>\n#include <cstdint>\n#include <ros/ros.h>\n' + ''.join('#include <%s/%s.h>\n' % (pkg, i) for i in sorted(inc)) + 'namespace %s {\n%s}\n' % (pkg, s))
    for f in sorted(glob.glob(os.path.join(repo, pkg, 'srv', '*.srv'))):
        n = os.path.basename(f)[:-4]; parts = re.split(r'(?m)^---\s*$', open(f).read(), maxsplit=1)
        if len(parts) < 2: parts.append('')
        a, i1 = struct(n + 'Request', parts[0]); b, i2 = struct(n + 'Response', parts[1])
        open(os.path.join(d, n + '.h'), 'w').write('#pragma once\n#include <string>\n#include <vector>\n#include <cstdint>\n#include <ros/ros.h>\n' + ''.join('#include <%s/%s.h>\n' % (pkg, i) for i in sorted(i1 | i2)) + 'namespace %s {\n%s%sstruct %s { typedef %sRequest Request; typedef %sResponse Response; Request request; Response response; };\n}\n' % (pkg, a, b, n, n, n))
    with open(os.path.join(out, 'vp_plugins_gen.h'), 'w') as o:
        o.write('#pragma once\n#include <pluginlib/class_loader.hpp>\nstatic inline void vp_declare_plugins() {\n')
        for f in sorted(glob.glob(os.path.join(repo, 'transmission_interface', '*.xml'))):
            try: r = ET.parse(f).getroot()
            except ET.ParseError: continue
            if r.tag != 'library': continue
            for c in r.iter('class'): o.write('  pluginlib_stub::declare("%s", "%s", "%s");\n' % (c.get('name'), c.get('type'), c.get('base_class_type')))
        o.write('}\n')
if __name__ == '__main__': main(sys.argv[1], sys.argv[2])
