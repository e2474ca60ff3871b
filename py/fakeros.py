"""Stand-ins for the ROS Python libraries, and fresh copies of the repository's Python modules for every path."""
import sys, os, types, glob, re, yaml
REPO = os.environ.get('VP_REPO', '/repo')
PKG = REPO + '/controller_manager_msgs'

class ROSException(Exception): pass
class ROSInterruptException(ROSException): pass
class ServiceException(Exception): pass
class ROSServiceIOException(Exception): pass

def parse(text):
    fields, consts = [], {}
    for l in text.split('\n'):
        l = l.split('#')[0].strip()
        if not l: continue
        m = re.match(r'(\S+)\s+(\w+)\s*=\s*(\S+)$', l)
        if m: consts[m.group(2)] = int(m.group(3)) if m.group(1)[-1] != 'g' and '.' not in m.group(3) else m.group(3); continue
        t, n = l.split(); fields.append((t, n))
    return fields, consts
def default(t): return [] if t.endswith(']') else '' if t == 'string' else False if t == 'bool' else 0.0 if t.startswith('float') else 0
def message(name, text):
    fields, consts = parse(text); names = [n for t, n in fields]
    class M:
        __slots__ = names
        def __init__(self, *a, **k):
            if a and k: raise TypeError('Message constructor may only use args OR keywords, not both')
            if a and len(a) != len(names): raise TypeError('Invalid number of arguments, args should be %s' % names)
            for n in k:
                if n not in names: raise AttributeError('%s is not an attribute of %s' % (n, name))
            for i, (t, n) in enumerate(fields): setattr(self, n, a[i] if a else k.get(n, default(t)))
        def fields(self): return [getattr(self, n) for n in names]
        def __eq__(self, o): return isinstance(o, M) and all(getattr(self, n) == getattr(o, n) for n in names)
        __hash__ = None
    for c, x in consts.items(): setattr(M, c, x)
    M.__name__ = M.__qualname__ = name; return M

SRV = types.ModuleType('controller_manager_msgs.srv'); MSG = types.ModuleType('controller_manager_msgs.msg')
for f in sorted(glob.glob(PKG + '/srv/*.srv')):
    n = os.path.basename(f)[:-4]; q, r = open(f).read().split('---', 1)
    Q, R = message(n + 'Request', q), message(n + 'Response', r); S = type(n, (), dict(_request_class=Q, _response_class=R)); SRV.__dict__.update({n: S, n + 'Request': Q, n + 'Response': R})
for f in sorted(glob.glob(PKG + '/msg/*.msg')): n = os.path.basename(f)[:-4]; setattr(MSG, n, message(n, open(f).read()))

class World:
    """What the ROS side of one path looks like and what was asked of it."""
    def __init__(self):
        self.calls = []; self.services = {}; self.params = {}; self.args = ['prog']; self.on_shutdown = []; self.waits = []; self.spins = 0; self.subs = []; self.timers = []; self.proxies = []; self.is_shutdown = lambda: False; self.spin = None; self.wait = None; self.service_list = []; self.types = {}; self.now = 0.0; self.slept = 0; self.onsleep = None; self.param_names = []; self.qtimers = []; self.menu = None; self.uploaded = {}; self.epoch = {} # service -> how often its node was replaced
W = None

class Proxy:
    def __init__(self, name, cls, persistent=False, headers=None): self.name, self.cls, self.persistent, self.conn = name, cls, persistent, None; W.proxies.append(self)
    def wait_for_service(self, timeout=None): rospy.wait_for_service(self.name, timeout)
    def call(self, *a, **k):
        q = a[0] if len(a) == 1 and not k and isinstance(a[0], self.cls._request_class) else None
        if q is None and len(a) == 1 and not k and hasattr(a[0], 'fields'): raise TypeError('wrong request class')
        if q is None: q = self.cls._request_class(*a, **k)
        for n in W.services:
            if n == self.name: break
        else: raise ServiceException('service [%s] unavailable' % self.name)
        cls, h = W.services[n]
        if cls is not self.cls: raise ServiceException('wrong service type')
        if self.persistent:                                        # a persistent connection ends with the node it was made to
            if self.conn not in (None, W.epoch.get(n, 0)): raise ServiceException('transport error')
            self.conn = W.epoch.get(n, 0)
        W.calls.append((n, q)); return h(q, self)
    __call__ = call
    def close(self): pass

def module(name, **k): m = types.ModuleType(name); m.__dict__.update(k); return m
def get_param(n, *d):
    if n in W.params: return W.params[n]
    if d: return d[0]
    raise KeyError(n)
def wait_for_service(n, timeout=None):
    W.waits.append((n, timeout))
    if W.wait: W.wait(n, timeout)
def log(*a, **k): pass
class Time:
    def __init__(self, s=0, ns=0): self.s = s
    def __eq__(self, o): return self.s == o.s
    def to_sec(self): return self.s
class Timer:
    def __init__(self, period, cb, oneshot=False, reset=False): self.period, self.cb, self.oneshot, self.dead = period, cb, oneshot, False; W.timers.append(self)
    def fire(self):                                                # an exception of the callback ends the timer's thread
        if self.dead: return
        self.dead = True; self.cb(None); self.dead = self.oneshot
    def shutdown(self): self.dead = True
class Rate:
    def __init__(self, hz, *a, **k): self.hz = hz
    def sleep(self): faketime.sleep(1.0 / self.hz)
class Subscriber:
    def __init__(self, topic, cls, cb=None, *a, **k): self.topic, self.cls, self.cb = topic, cls, cb; W.subs.append(self)
def spin():
    W.spins += 1
    if W.spin: W.spin()
def myargv(argv=None): return list(W.args)
exceptions = module('rospy.exceptions', ROSException=ROSException, ROSInterruptException=ROSInterruptException)
rospy = module('rospy', ServiceProxy=Proxy, ServiceException=ServiceException, ROSException=ROSException, ROSInterruptException=ROSInterruptException, exceptions=exceptions, get_param=get_param, has_param=lambda n: n in W.params, wait_for_service=wait_for_service, Time=Time, Duration=lambda s=0, ns=0: s, Timer=Timer, Rate=Rate, Subscriber=Subscriber, spin=spin, myargv=myargv, init_node=log,
  is_shutdown=lambda: W.is_shutdown(), on_shutdown=lambda f: W.on_shutdown.append(f), get_rostime=lambda: Time(W.now), get_time=lambda: W.now, sleep=lambda s: faketime.sleep(s))
for n in 'loginfo logwarn logerr logdebug logout logfatal loginfo_once logwarn_once'.split(): setattr(rospy, n, log)
def global_ns(ns):
    if not ns: return '/'
    if not ns.startswith('/'): ns = '/' + ns
    return ns if ns.endswith('/') else ns + '/'
def upload(n, v):
    """What the parameter server keeps of a value: dictionaries are merged, relative names are those of the node's namespace (the root here)."""
    if isinstance(v, dict):
        for k, x in v.items(): upload('%s/%s' % (n, k) if n else k, x)
    else: W.uploaded[n.strip('/')] = v
def starts(s, ns): return bool(s.startswith(ns))
def get_service_list(node=None, namespace=None, include_nodes=False):
    if W.service_list is None: raise ROSServiceIOException('no master')
    l = list(W.service_list); return l if not namespace else [s for s in l if starts(s, global_ns(namespace))]
def get_service_type(n):
    for k, t in W.types.items():
        if k == n: return t
    return None
rosservice = module('rosservice', get_service_list=get_service_list, get_service_type=get_service_type, ROSServiceIOException=ROSServiceIOException, ROSServiceException=ROSServiceIOException)
rosparam = module('rosparam', list_params=lambda ns: sorted(p for p in W.param_names if starts(p, global_ns(ns))), set_param=lambda n, v, verbose=False: upload(n, yaml.safe_load(v)), set_param_raw=lambda n, v, verbose=False: upload(n, v), upload_params=lambda n, v, verbose=False: upload(n, v),
  load_file=lambda f, default_namespace=None, verbose=False: [(yaml.safe_load(open(f)) or {}, default_namespace)], RosParamException=type('RosParamException', (Exception,), {}))
class _Time:
    def sleep(self, s):
        W.slept += 1; W.now += s
        if W.onsleep: W.onsleep()
        if W.slept > 60: raise Hang()
    def time(self): return W.now
class Hang(BaseException): pass
faketime = module('time', sleep=_Time().sleep, time=_Time().time)
Bool = message('Bool', 'bool data')
MODULES = {'rospy': rospy, 'rospy.exceptions': exceptions, 'rosservice': rosservice, 'rosparam': rosparam, 'controller_manager_msgs': module('controller_manager_msgs', srv=SRV, msg=MSG, __path__=[]), 'controller_manager_msgs.srv': SRV, 'controller_manager_msgs.msg': MSG, 'std_msgs': module('std_msgs', __path__=[]), 'std_msgs.msg': module('std_msgs.msg', Bool=Bool), 'time': faketime}
CODE = {}
def load(path, name='module', **extra):
    """Executes a fresh copy of a repository file and returns its namespace."""
    p = os.path.join(REPO, path)
    if p not in CODE: CODE[p] = compile(open(p).read(), p, 'exec')
    ns = dict(__name__=name, __file__=p, print=lambda *a, **k: None); ns.update(extra); run(CODE[p], ns, path); return ns
def run(code, ns, path):
    sv = {k: sys.modules.get(k) for k in list(MODULES) + ['controller_manager', 'controller_manager.controller_manager_interface', 'controller_manager_msgs.utils']}; sys.modules.update(MODULES)
    try:
        if 'controller_manager/scripts' in path:
            pk = module('controller_manager', __path__=[]); sys.modules['controller_manager'] = pk; cmi = module('controller_manager.controller_manager_interface'); cmi.__dict__.update(load('controller_manager/src/controller_manager/controller_manager_interface.py', 'controller_manager.controller_manager_interface')); pk.controller_manager_interface = cmi; sys.modules['controller_manager.controller_manager_interface'] = cmi; sys.modules.update(MODULES)
        exec(code, ns)
    finally:
        for k, m in sv.items():
            if m is None: sys.modules.pop(k, None)
            else: sys.modules[k] = m
