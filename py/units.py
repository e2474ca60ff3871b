"""The harness units of the Python properties."""
import sys, fakeros, pysym
from fakeros import SRV, MSG, World, ROSException, ServiceException
from pysym import SymStr, SymBool, Abort, Unsupported
import z3
UNITS = {}; TIER = 'quick'
def unit(f): UNITS[f.__name__] = f; return f
UTILS = 'controller_manager_msgs/src/controller_manager_msgs/utils.py'; CMI = 'controller_manager/src/controller_manager/controller_manager_interface.py'; SCRIPTS = 'controller_manager/scripts/'
FNS = {}; PROFILED = 0
def _prof(frame, ev, arg):
    if ev == 'call' and frame.f_code.co_filename.startswith(fakeros.REPO): k = frame.f_code.co_filename[len(fakeros.REPO) + 1:] + ' ' + frame.f_code.co_name; FNS[k] = FNS.get(k, 0) + 1
def profile_start(): FNS.clear(); sys.setprofile(_prof)
def profile_stop(): sys.setprofile(None); return dict(FNS)
def world(): fakeros.W = World(); return fakeros.W
class Escaped:
    def __init__(self, e): self.e = e
def call(f, *a, **k):
    """Runs a real function; what it raises is part of its behaviour (except the executor's own signals)."""
    try:
        sv = {n: sys.modules.get(n) for n in fakeros.MODULES}; sys.modules.update(fakeros.MODULES)   # imports inside functions
        try: return f(*a, **k)
        finally:
            for n, m in sv.items():
                if m is None: sys.modules.pop(n, None)
                else: sys.modules[n] = m
    except (Abort, Unsupported, pysym.Violation): raise
    except z3.Z3Exception as e: raise Unsupported('z3: %s' % e)
    except fakeros.Hang as e: return Escaped(e)
    except SystemExit as e: return e
    except Exception as e: return Escaped(e)
def script(name): fakeros.load(SCRIPTS + name, '__main__')
def andb(*c):
    """Conjunction of symbolic or plain truth values."""
    es = []
    for x in c:
        if isinstance(x, SymBool): es.append(x.e)
        elif not x: return False
    return SymBool(z3.And(es)) if es else True
def orb(*c):
    es = []
    for x in c:
        if isinstance(x, SymBool): es.append(x.e)
        elif x: return True
    return SymBool(z3.Or(es)) if es else False
def iff(a, b): return SymBool((a.e if isinstance(a, SymBool) else z3.BoolVal(bool(a))) == (b.e if isinstance(b, SymBool) else z3.BoolVal(bool(b)))) if isinstance(a, SymBool) or isinstance(b, SymBool) else bool(a) == bool(b)
def eq(a, b): r = a == b; return r
def has(s, sub):
    if isinstance(s, str) and isinstance(sub, str): return sub in s
    return SymBool(z3.Contains(pysym.lift(s), pysym.lift(sub)))

# ---------------------------------------------------------------- C32: filters
def controller(v, i, shape):
    """shape: number of resources of every claimed interface"""
    c = MSG.ControllerState(name='n%d' % i, state='s', type='t', claimed_resources=[])
    for k in shape: c.claimed_resources.append(MSG.HardwareInterfaceResources(hardware_interface=v.str('interface'), resources=[v.str('resource') for _ in range(k)]))
    return c
def snapshot(cs): return [(c, c.name, c.state, c.type, c.claimed_resources, [(h, h.hardware_interface, h.resources, list(h.resources)) for h in c.claimed_resources]) for c in cs]
def unchanged(v, cs, snap):
    ok = len(cs) == len(snap)
    for c, s in zip(cs, snap):
        ok = ok and c is s[0] and c.name is s[1] and c.state is s[2] and c.type is s[3] and c.claimed_resources is s[4] and len(c.claimed_resources) == len(s[5])
        ok = ok and all(h is t[0] and h.hardware_interface is t[1] and h.resources is t[2] and len(h.resources) == len(t[3]) and all(a is b for a, b in zip(h.resources, t[3])) for h, t in zip(c.claimed_resources, s[5]))
    v.check(ok, 'a filter changes its input')
def same_list(v, out, cs, want):
    v.check(not isinstance(out, Escaped), 'a filter lets an exception escape' )
    out = list(out); idx = []
    for o in out:
        k = [i for i, c in enumerate(cs) if c is o]; v.check(len(k) == 1, 'a filter returns something that was not in the list'); idx.append(k[0])
    v.check(all(a < b for a, b in zip(idx, idx[1:])), 'a filter changes the order or returns a controller twice')
    for i in range(len(cs)): v.check(iff(want[i], i in idx), 'a filter does not return exactly the matching controllers')
@unit
def C32_attribute(v):
    world(); u = fakeros.load(UTILS); n = v.pick('controllers', 4 if TIER == 'thorough' else 3 + 1); a = v.pick('attribute', 3); mode = v.pick('substring', 3); cs = []
    for i in range(n): d = dict(name='n%d' % i, state='s', type='t', claimed_resources=[]); d[('name', 'type', 'state')[a]] = v.str('value'); cs.append(MSG.ControllerState(**d))
    x = v.str('wanted'); f = u[('filter_by_name', 'filter_by_type', 'filter_by_state')[a]]; snap = snapshot(cs); at = ('name', 'type', 'state')[a]
    out = call(f, cs, x) if mode == 2 else call(f, cs, x, mode == 1) if v.bool('positional') else call(f, cs, x, match_substring=mode == 1)
    same_list(v, out, cs, [has(getattr(c, at), x) if mode == 1 else eq(getattr(c, at), x) for c in cs]); unchanged(v, cs, snap); v.reach('some' if out else 'none')
SHAPES = [(), (0,), (1,), (2,), (1, 1), (1, 2), (2, 1), (0, 1), (2, 2)]
@unit
def C32_interface(v):
    world(); u = fakeros.load(UTILS); n = v.pick('controllers', 3); mode = v.pick('substring', 3); cs = [controller(v, i, ((), (0,), (1,), (0, 0), (1, 0), (0, 0, 0))[v.pick('shape', 6)]) for i in range(n)]; x = v.str('wanted'); snap = snapshot(cs)
    out = call(u['filter_by_hardware_interface'], cs, x) if mode == 2 else call(u['filter_by_hardware_interface'], cs, x, match_substring=mode == 1)
    same_list(v, out, cs, [orb(*[has(h.hardware_interface, x) if mode == 1 else eq(h.hardware_interface, x) for h in c.claimed_resources]) for c in cs]); unchanged(v, cs, snap); v.reach('some' if out else 'none')
@unit
def C32_resources(v):
    world(); u = fakeros.load(UTILS); n = v.pick('controllers', 3); m = v.pick('any', 3); nr = v.pick('resources', 3); given = v.pick('interface_given', 2)
    cs = [controller(v, i, SHAPES[v.pick('shape', (len(SHAPES) if i == 0 else 6) if TIER == 'thorough' else (len(SHAPES) if n == 1 else (5 if i == 0 else 3)))]) for i in range(n)]
    rs = [v.str('wanted') for _ in range(nr)]; snap = snapshot(cs); k = {}; x = None
    if given: x = k['hardware_interface'] = v.str('wanted_interface')
    if m < 2: k['match_any'] = m == 1
    out = call(u['filter_by_resources'], cs, rs, **k)
    def ok(h):
        hits = [orb(*[eq(r, q) for q in h.resources]) for r in rs]; return andb(eq(h.hardware_interface, x) if given else True, orb(*hits) if m == 1 else andb(*hits))
    v.check(len(rs) == nr, 'a filter changes its input'); same_list(v, out, cs, [orb(*[ok(h) for h in c.claimed_resources]) for c in cs]); unchanged(v, cs, snap); v.reach('some' if out else 'none')

# ---------------------------------------------------------------- C33: discovery and clients
API = dict(list_controllers='ListControllers', list_controller_types='ListControllerTypes', load_controller='LoadController', unload_controller='UnloadController', switch_controller='SwitchController', reload_controller_libraries='ReloadControllerLibraries'); APIS = sorted(API)
def advertise(w, ns, defect):
    """defect: 0 complete; 1..6 that service is missing; 7..12 it has another type"""
    pre = '' if ns == '/' else ns
    for i, s in enumerate(APIS):
        if defect == 1 + i: continue
        w.service_list.append(pre + '/' + s); w.types[pre + '/' + s] = 'controller_manager_msgs/' + (API[s] if defect != 7 + i else 'Other')
NS = ['/', '/a', '/b', '/a/b']
@unit
def C33_discovery(v):
    w = world(); u = fakeros.load(UTILS); n = v.pick('managers', 3); names = []; complete = []
    for i in range(n):
        ns = v.str('namespace', NS if not i else NS[1:]); ns = ns if isinstance(ns, str) else ns.realise()
        if ns in names: raise Abort()
        d = v.pick('defect', 13) if i == 0 or TIER == 'thorough' else (0, 1, 9)[v.pick('defect2', 3)]; advertise(w, ns, d); names.append(ns); complete.append(d == 0)
    extra = v.str('extra', ['', '/a/list_controllers_now', '/c/list_controllers', '/a/get_loggers', '/list_controllers_']); extra = extra if isinstance(extra, str) else extra.realise()
    if extra: w.service_list.append(extra); w.types[extra] = 'controller_manager_msgs/ListControllers'
    below = ('/', '/a', None)[v.pick('below', 3)]; found = sorted(x for x, c in zip(names, complete) if c and (below in ('/', None) or x.startswith('/a/') or x == '/a'))
    if v.bool('one'):
        for x in NS: r = call(u['is_controller_manager'], x); v.check(r is True or r is False, 'asking for a controller manager fails'); v.check(r == (x in names and complete[names.index(x)]), 'a namespace is not taken for a controller manager exactly if it has the complete interface')
        if '/a' in names and complete[names.index('/a')]: v.check(call(u['is_controller_manager'], '/a/') is True, 'a namespace with a trailing slash is not recognised'); v.reach('slash')
        v.reach('asked'); return
    r = call(u['get_controller_managers']) if below is None else call(u['get_controller_managers'], below)
    v.check(not isinstance(r, Escaped), 'discovery lets an exception escape'); v.check(list(r) == found, 'discovery does not return exactly the namespaces with a complete interface, sorted'); v.reach('found' if found else 'nothing')
@unit
def C33_again(v):
    w = world(); u = fakeros.load(UTILS); l = u['ControllerManagerLister']() if v.bool('default') else u['ControllerManagerLister']('/'); seen = []; guess = None
    for step in range(3):
        w.service_list = []; w.types = {}; now = []
        down = step and v.bool('down')
        for ns in ('/a', '/b'):
            k = v.pick('state', 3)   # absent, complete, partial (only once it cannot have been seen before: known ones are not verified again)
            if k == 2 and ns in seen: raise Abort()
            if k: advertise(w, ns, 0 if k == 1 else 2)
            if k == 1: now.append(ns)
        if down: w.service_list = None; now = []
        r = call(l); v.check(not isinstance(r, Escaped), 'discovery lets an exception escape'); v.check(list(r) == now, 'repeated discovery does not return exactly the namespaces with a complete interface, sorted'); seen = list(r)
    g = ['/b', '/q']; r = call(u['get_controller_managers'], '/', g); v.check(not isinstance(r, Escaped) and g == ['/b', '/q'], 'discovery changes the guess it was given'); v.reach('end')
@unit
def C33_parameters(v):
    w = world(); u = fakeros.load(UTILS); dom = ['/a/type', '/b/type', '/a/b/type', '/type', '/a/type/b', '/a/types', '/a', '/ab/type', '/a/a/type', '/type/type', '/b/a/type']; n = v.pick('parameters', 4); ps = []
    for i in range(n):
        p = v.str('parameter', dom); p = p if isinstance(p, str) else p.realise()
        if ps and dom.index(p) <= dom.index(ps[-1]): raise Abort()
        ps.append(p)
    w.param_names = ps; ns = ('/', '/a', 'a', '', '/a/', None)[v.pick('namespace', 6)]; g = '/' if not ns else fakeros.global_ns(ns)
    r = call(u['get_rosparam_controller_names']) if ns is None else call(u['get_rosparam_controller_names'], ns)
    want = sorted(p[len(g):].split('/')[0] for p in ps if p.startswith(g) and p[len(g):].count('/') == 1 and p.endswith('/type'))
    v.check(not isinstance(r, Escaped), 'listing configured controllers lets an exception escape'); v.check(list(r) == want, 'the configured controllers are not exactly the names with a type, sorted'); v.reach('some' if want else 'none')
@unit
def C33_lister(v):
    w = world(); u = fakeros.load(UTILS); ns = ('/controller_manager', '/x')[v.pick('namespace', 2)]; data = [[MSG.ControllerState(name='a')], [], [MSG.ControllerState(name='b')]]; fails = {}; at = [0]; tries = [0]
    def answer(q, proxy):
        tries[0] += 1
        if fails.get(tries[0]): raise ServiceException('lost')
        return SRV.ListControllersResponse(controller=data[at[0]])
    w.services[ns + '/list_controllers'] = (SRV.ListControllers, answer)
    l = call(u['ControllerLister']) if ns == '/controller_manager' and v.bool('default') else call(u['ControllerLister'], ns); v.check(not isinstance(l, Escaped), 'a controller lister cannot be made')
    for step in range(3):
        at[0] = step; f = v.pick('failing', 4); base = tries[0]
        if f == 3: f = 0; w.epoch[ns + '/list_controllers'] = step + 1    # another manager took over
        for k in range(f): fails[base + 1 + k] = True
        r = call(l); v.check(not isinstance(r, Escaped), 'listing controllers lets an exception escape'); v.check(r is data[step] if f < 2 else list(r) == [], 'a controller lister does not return what the controller manager lists (or nothing if it cannot be reached)')
    v.reach('end')
def serve(w, v, prefix='controller_manager/', oks=None, controllers=None):
    """A controller manager that records what it is asked and answers symbolically."""
    def h(name):
        def f(q, proxy):
            R = getattr(SRV, name)._response_class
            if name == 'ListControllers': return R(controller=list(controllers() if controllers else []))
            if name == 'ListControllerTypes': return R(types=['T'], base_classes=['B'])
            ok = v.bool('ok') if oks is None else oks(name, q); return R(ok=ok)
        return f
    for s, t in API.items(): w.services[prefix + s] = (getattr(SRV, t), h(t))
def asked(w): return [(n.split('/')[-1], q.fields()) for n, q in w.calls]
def show(c): return [(n, f) for n, f in c if n not in ('list_controllers', 'list_controller_types')]
def eqfields(v, got, want, msg):
    v.check(len(got) == len(want), msg)
    for (n, f), (m, g) in zip(got, want):
        v.check(n == m, msg); v.check(len(f) == len(g), msg)
        for a, b in zip(f, g):
            if isinstance(b, (list, set)):
                v.check(len(a) == len(b), msg)
                if isinstance(b, set): v.check(set(pysym.conc(x) for x in a) == b, msg)
                else:
                    for x, y in zip(a, b): v.check(eq(x, y), msg)
            elif b is not None: v.check(eq(a, b), msg)
STRICT, BEST = SRV.SwitchControllerRequest.STRICT, SRV.SwitchControllerRequest.BEST_EFFORT
@unit
def C33_clients(v):
    w = world(); m = fakeros.load(CMI); oks = []
    def ok(name, q): oks.append(v.bool('ok')); return oks[-1]
    serve(w, v, oks=ok); f = v.pick('function', 8); dom = ['', 'a', 'b', 'a/b']; x = v.str('name', dom); msg = 'a client function does not make exactly the matching request'
    if f < 2: r = call(m[('load_controller', 'unload_controller')[f]], x); want = [(('load_controller', 'unload_controller')[f], [x])]
    elif f < 4: r = call(m[('start_controller', 'stop_controller')[f - 2]], x); want = [('switch_controller', [[x] if f == 2 else [], [x] if f == 3 else [], STRICT, False, 0.0])]
    elif f < 6: xs = [x] + [v.str('name', dom) for _ in range(v.pick('more', 2))]; r = call(m[('start_controllers', 'stop_controllers')[f - 4]], xs); want = [('switch_controller', [xs if f == 4 else [], xs if f == 5 else [], STRICT, False, 0.0])]
    elif f == 6: y = v.str('name', dom); r = call(m['start_stop_controllers'], [x], [y]) if v.bool('positional') else call(m['start_stop_controllers'], stop_controllers=[y], start_controllers=[x]); want = [('switch_controller', [[x], [y], STRICT, False, 0.0])]
    else: r1 = call(m['list_controllers']); r2 = call(m['list_controller_types']); v.check(not isinstance(r1, Escaped) and not isinstance(r2, Escaped), 'a client function lets an exception escape'); v.check([n for n, q in asked(w)] == ['list_controllers', 'list_controller_types'], msg); v.reach('list'); return
    v.check(not isinstance(r, Escaped), 'a client function lets an exception escape'); eqfields(v, asked(w), want, msg); v.check(bool(r) == oks[0], 'a client function does not succeed exactly if the controller manager answered ok')
    v.check(any(n == p for n, t in w.waits for p in ['controller_manager/' + want[0][0]]), 'a client function does not wait for its service'); v.reach('ok' if r else 'refused')
@unit
def C33_reload(v):
    w = world(); m = fakeros.load(CMI); kill = v.bool('kill'); restore = v.pick('restore', 3); n = v.pick('loaded', 4); states = [('running', 'stopped', 'initialized', 'waiting')[v.pick('state', 4)] for _ in range(n)]; listed = [MSG.ControllerState(name=('ab', 'a', 'b')[i], state=states[i]) for i in range(n)]; ok = v.bool('ok'); gone = [False]
    def oks(name, q):
        if name == 'ReloadControllerLibraries': gone[0] = ok; return ok
        return True
    serve(w, v, oks=oks, controllers=lambda: [] if gone[0] else listed); r = call(m['reload_libraries'], kill) if restore == 2 else call(m['reload_libraries'], kill, restore == 1)
    v.check(not isinstance(r, Escaped), 'reloading lets an exception escape'); v.check(bool(r) == ok, 'reloading does not report the answer of the controller manager')
    c = show(asked(w)); v.check(len(c) >= 1 and c[0] == ('reload_controller_libraries', [kill]), 'reloading does not make exactly one reload request with the given flag')
    if restore != 1: v.check(len(c) == 1, 'reloading without restore changes controllers'); v.reach('reloaded'); return
    v.check(c[1:1 + n] == [('load_controller', [x.name]) for x in listed], 'restoring does not load again exactly the controllers that were loaded, in their order')
    run = [x.name for x in listed if x.state == 'running']; rest = c[1 + n:]
    v.check(rest == [('switch_controller', [run, [], BEST, False, 0.0])] or (not run and rest == []), 'restoring does not start exactly the controllers that were running'); v.reach('restored')
@unit
def C33_group(v):
    w = world(); names = ['ab', 'a', 'b']; groups = {}; ng = v.pick('groups', 3)
    for g in range(ng):
        k = v.pick('members', 8) if not g or TIER == 'thorough' else (0, 1, 3, 6)[v.pick('members', 4)]; groups['gh'[g]] = [names[i] for i in range(3) if k >> i & 1]
    if v.bool('parameter') or ng: w.params['controller_groups'] = groups
    spawn = v.bool('spawn'); wanted = ('g', 'q')[v.pick('group', 2)]; members = set(groups.get(wanted, ())); others = set(x for l in groups.values() for x in l) - members; st = {}; listed = []
    used = members | others
    if not spawn and members:
        for x in names:
            if x not in used and x != 'b': continue
            s = v.pick('state', 3)    # not loaded, loaded in any state
            if s: c = MSG.ControllerState(name=x, state='running' if s == 2 else v.str('idle', ['stopped', 'initialized', 'waiting', 'aborted'])); st[x] = s == 2; listed.append(c)
    bad = set()
    def oks(name, q):
        if name == 'LoadController':
            r = v.bool('ok')
            if not r: bad.add(q.name)
            return r
        return v.bool('ok')
    serve(w, v, oks=oks, controllers=lambda: listed); w.args = ['controller_group', 'spawn' if spawn else 'switch', wanted]
    r = call(script, 'controller_group'); v.check(not isinstance(r, (Escaped, SystemExit)), 'the group tool lets an exception escape'); c = show(asked(w))
    if not members: v.check(c == [], 'an unknown or empty group changes controllers'); v.reach('empty'); return
    loads = [f[0] for n, f in c if n == 'load_controller']; sw = [f for n, f in c if n == 'switch_controller']; v.check(len(loads) + len(sw) == len(c), 'the group tool makes other requests than loading and switching')
    if spawn:
        v.check(sorted(loads) == sorted(members), 'spawning a group does not load each of its controllers once'); v.check(all(not f[1] for f in sw) and sorted(x for f in sw for x in f[0]) == sorted(members), 'spawning a group does not start each of its controllers once'); v.check([n for n, f in c] == ['load_controller'] * len(loads) + ['switch_controller'] * len(sw), 'spawning a group starts before everything is loaded'); v.reach('spawned'); return
    need = set(x for x in members if x not in st)
    if bad: v.check(not sw, 'a group switch goes on although a controller could not be loaded'); v.check(set(loads) <= need, 'a group switch loads a controller that is loaded or foreign'); v.reach('cancelled'); return
    v.check(sorted(loads) == sorted(need), 'a group switch does not load exactly the missing controllers'); v.check(len(sw) == 1 and c[-1][0] == 'switch_controller', 'a group switch does not make one switch request after loading')
    v.check(sorted(sw[0][0]) == sorted(x for x in members if not st.get(x)), 'a group switch does not start exactly the controllers of the group that are not running'); v.check(sorted(sw[0][1]) == sorted(x for x in others if st.get(x)), 'a group switch does not stop exactly the running controllers of the other groups')
    v.check(sw[0][2] == STRICT, 'a group switch is not strict'); v.reach('switched')
WORDS = {'load': ['load'], 'unload': ['unload'], 'start': ['start'], 'stop': ['stop'], 'spawn': ['load', 'start'], 'sp': ['load', 'start'], 'kill': ['stop', 'unload'], 'kl': ['stop', 'unload'], 'list': ['list'], 'lc': ['list'], 'list-types': ['types'], 'lt': ['types'], 'reload-libraries': ['reload'], 'nonsense': []}
@unit
def C33_command(v):
    w = world(); oks = lambda name, q: v.bool('ok'); serve(w, v, oks=oks, controllers=lambda: [MSG.ControllerState(name='z', state='running')]); word = sorted(WORDS)[v.pick('word', len(WORDS))]; n = v.pick('names', 3); xs = [v.str('name', ['a', 'b']) for _ in range(n)]; restore = word == 'reload-libraries' and v.bool('restore')
    w.args = ['controller_manager', word] + (['--restore'] if restore else []) + xs
    if v.bool('nothing'): w.args = ['controller_manager']
    class Out: pass
    r = call(script, 'controller_manager'); v.check(not isinstance(r, Escaped), 'the command line tool lets an exception escape'); want = []
    if len(w.args) == 1 or word == 'nonsense': v.check(isinstance(r, SystemExit), 'a wrong command does not end the tool'); v.check(not w.calls, 'a wrong command makes requests'); v.reach('usage'); return
    v.check(r is None, 'the command line tool ends abnormally')
    for a in WORDS[word]:
        if a in ('load', 'unload'): want += [(a + '_controller', [x]) for x in xs]
        if a == 'start': want += [('switch_controller', [[x], [], STRICT, False, 0.0]) for x in xs]
        if a == 'stop': want += [('switch_controller', [[], [x], STRICT, False, 0.0]) for x in xs]
        if a == 'list': want += [('list_controllers', [])]
        if a == 'types': want += [('list_controller_types', [])]
    if word == 'reload-libraries':
        c = show(asked(w)); v.check(c[:1] == [('reload_controller_libraries', [True])], 'the reload command does not reload, stopping controllers'); v.check(len(c) == (3 if restore else 1), 'the reload command does not restore exactly if asked to'); v.reach('reload'); return
    eqfields(v, asked(w), want, 'a command does not make exactly the matching requests, in order'); v.reach(word)

# ---------------------------------------------------------------- C35: spawner and unspawner
class Stop(Exception): pass
@unit
def C35_spawner(v):
    w = world(); names = ['ab', 'a', 'b'][:1 + v.pick('controllers', 3)]; stopped = v.bool('stopped'); nsp = ('', 'r', '/r/')[v.pick('namespace', 3)]; pre = '' if not nsp else 'r/' if nsp == 'r' else '/r/'; tm = v.pick('timeout', 4); topic = v.pick('topic', 3) if len(names) < 2 else 0; loaded = []; order = []; sw = []; unl = []; dead = [False]
    w.args = ['spawner'] + (['--stopped'] if stopped else []) + (['--namespace', nsp] if nsp else []) + ([], ['--timeout', '5'], ['--timeout', '0'], ['--no-timeout'])[tm] + (['--wait-for', 't'] if topic else []) + names; limit = (30.0, 5.0, None, None)[tm]
    def oks(name, q):
        if name == 'LoadController':
            order.append(q.name); r = v.bool('ok')
            if r: loaded.append(q.name)
            if len(names) > 1 and not dead[0] and v.bool('shutdown_now'): dead[0] = True
            return r
        if name == 'SwitchController': sw.append((list(q.start_controllers), list(q.stop_controllers), q.strictness, len(unl))); return v.bool('ok')
        if name == 'UnloadController': unl.append(q.name); return True
    serve(w, v, prefix=pre + 'controller_manager/', oks=oks); missing = v.pick('unavailable', 4) if not topic and len(names) < 2 else 0; order_w = []
    def wait(n, t):
        order_w.append((n, t))
        if missing and n == pre + 'controller_manager/' + ('load_controller', 'switch_controller', 'unload_controller')[missing - 1]: raise ROSException('timeout')
    w.wait = wait; w.is_shutdown = lambda: dead[0]; said = [0]
    def sleeping():
        if topic and said[0] != 1: v.check(not w.calls, 'the spawner acts before it was told to')
        if topic and w.slept == 2 and v.bool('long_silence'): w.now += 100
        if topic and w.subs and w.slept == 3: said[0] = topic; w.subs[0].cb(fakeros.Bool(data=topic == 1))
        if topic == 2 and w.slept == 6: said[0] = 1; w.subs[0].cb(fakeros.Bool(data=True))
    w.onsleep = sleeping; r = call(script, 'spawner'); v.check(not isinstance(r, Escaped) and not isinstance(r, SystemExit), 'the spawner lets an exception escape')
    v.check(all(t == limit for n, t in order_w), 'the spawner does not wait for the services as long as it was told to')
    if missing: v.check(not w.calls and not w.spins, 'the spawner acts although the controller manager is not there'); v.reach('unavailable'); return
    if topic: v.check(said[0] == 1, 'the spawner acts before it was told to'); v.reach('told')
    v.check(order == names, 'the spawner does not load each controller once, in order')
    if dead[0]: v.check(not sw, 'the spawner starts controllers after shutdown'); v.reach('shut down')
    elif stopped: v.check(not sw, 'the spawner starts controllers although it was told not to'); v.reach('stopped')
    else: v.check(len(sw) == 1 and sw[0][:3] == (loaded, [], STRICT), 'the spawner does not start exactly the controllers it loaded, strictly and at once'); v.reach('started')
    v.check(dead[0] or w.spins == 1, 'the spawner does not stay'); v.check(len(w.on_shutdown) == 1, 'the spawner does not clean up on shutdown'); had = list(loaded); k = len(sw); n0 = len(w.calls)
    if v.bool('unreachable'): del w.services[pre + 'controller_manager/' + ('switch_controller', 'unload_controller')[v.pick('which', 2)]]; r = call(w.on_shutdown[0]); v.check(not isinstance(r, Escaped), 'the spawner fails at shutdown'); v.reach('unreachable'); return
    r = call(w.on_shutdown[0]); v.check(not isinstance(r, Escaped), 'the spawner fails at shutdown')
    v.check(len(sw) == k + 1 and sw[k][0] == [] and sw[k][1] == had and sw[k][3] == 0, 'the spawner does not stop exactly the controllers it loaded at shutdown, before unloading'); v.check(unl == had[::-1], 'the spawner does not unload the controllers it loaded, last first'); v.reach('cleaned up')
import os, tempfile, shutil
FILES = (("ab:\n  type: A\n  gains: {p: 1, i: 0.5}\n  joints: [x, y]\na:\n  type: B\n", ["ab", "a"], {'ab/type': 'A', 'ab/gains/p': 1, 'ab/gains/i': 0.5, 'ab/joints': ['x', 'y'], 'a/type': 'B'}), ("b: {type: C}\n", ["b"], {'b/type': 'C'}))
@unit
def C35_files(v):
    """Controllers named by the configuration files they are in, among plain names."""
    w = world(); here = os.getcwd(); dir = tempfile.mkdtemp(prefix='vp-'); n = 1 + v.pick('arguments', 3); args, want, conf, events, loaded, sw, unl = [], [], [], [], [], [], []; kinds = set()
    try:
        os.chdir(dir)
        for i in range(n):
            k = v.pick('argument', 6)
            v.assume(k not in kinds); kinds.add(k)
            if k in (0, 1):                                        # a configuration file, by a relative or an absolute path
                text, names, ps = FILES[k]; f = 'conf%d.yaml' % k; open(f, 'w').write(text); args.append(f if v.bool('relative') else os.path.join(dir, f)); want += names; conf += [(x, ps) for x in names]
            elif k == 2: args.append('c'); want.append('c')        # nothing of that name in the directory
            elif k == 3: os.mkdir('d'); args.append('d'); want.append('d')     # a directory has the controller's name
            elif k == 4: os.mkdir('g'); open('g/x', 'w').close(); args.append('g/h'); want.append('g/h')
            else: args.append('missing.yaml'); want.append('missing.yaml')
        w.args = ['spawner'] + args
        def oks(name, q):
            if name == 'LoadController':
                events.append((q.name, dict(w.uploaded))); r = v.bool('ok') if len(events) < 4 else True
                if r: loaded.append(q.name)
                return r
            if name == 'SwitchController': sw.append((list(q.start_controllers), list(q.stop_controllers), q.strictness)); return True
            unl.append(q.name); return True
        serve(w, v, oks=oks); r = call(script, 'spawner'); v.check(not isinstance(r, Escaped) and not isinstance(r, SystemExit), 'the spawner lets an exception escape')
        v.check([x for x, p in events] == want, 'the spawner does not load the given controllers and those of the given files once each, in order')
        for x, ps in conf: v.check(all(p.get(k) == y for m, p in events if m == x for k, y in ps.items()), 'a controller is loaded before its configuration is there'); v.reach('file')
        v.check(all(any(k in ps and ps[k] == y for x, ps in conf) for k, y in w.uploaded.items()), 'the spawner sets parameters that no file has')
        v.check(sw == [(loaded, [], STRICT)], 'the spawner does not start exactly the controllers it loaded, strictly and at once'); had = list(loaded)
        v.check(len(w.on_shutdown) == 1, 'the spawner does not clean up on shutdown'); r = call(w.on_shutdown[0]); v.check(not isinstance(r, Escaped), 'the spawner fails at shutdown')
        v.check(sw[1:] == [([], had, STRICT)] or (not had and not sw[2:]), 'the spawner does not stop exactly the controllers it loaded at shutdown, before unloading'); v.check(unl == had[::-1], 'the spawner does not unload the controllers it loaded, last first')
        if 3 in kinds: v.reach('directory')
        if len(kinds & {0, 1}) == 2: v.reach('two files')
        if kinds & {0, 1} and kinds - {0, 1}: v.reach('file and name')
    finally: os.chdir(here); shutil.rmtree(dir, ignore_errors=True)
@unit
def C35_unspawner(v):
    w = world(); k = v.pick('names', 4); names = ['a', 'ab', 'b']; mine = [names[i] for i in range(2) if k >> i & 1] or ['b']; state = {}; sw = []; stopped = set()
    for x in names: state[x] = v.pick('state', 3)
    def oks(name, q):
        done = not q.stop_controllers or not v.bool('refuse'); sw.append((list(q.start_controllers), list(q.stop_controllers), q.strictness, done))
        if not done: return False
        for x in q.stop_controllers: state[x] = 1
        for x in q.start_controllers: state[x] = 2
        return True
    def there(yes):
        w.services.clear()
        if yes is False: return
        serve(w, v, oks=oks, controllers=lambda: [MSG.ControllerState(name=x, state='running' if state[x] == 2 else 'stopped') for x in names if state[x]])
        if yes is None: del w.services['controller_manager/switch_controller']
    there(True); w.args = ['unspawner'] + mine
    def expect(what):
        run = sorted(x for x in mine if before[x] == 2); v.check((not run and not sw) or (len(sw) == 1 and sw[0][0] == [] and sorted(sw[0][1]) == run), what)
        if sw and sw[0][3]: stopped.update(run)
        if sw and not sw[0][3]: v.reach('not stopped')
        del sw[:]
    if v.bool('no_names'):
        w.args = ['unspawner'] + ([], ['-h'], ['--help'])[v.pick('usage', 3)]; r = call(script, 'unspawner'); v.check(not isinstance(r, Escaped), 'the unspawner lets an exception escape'); v.check(not any(a or b for a, b, c, d in sw), 'the unspawner changes controllers although it was given none'); v.reach('usage'); return
    before = dict(state); r = call(script, 'unspawner'); v.check(not isinstance(r, Escaped), 'the unspawner lets an exception escape'); expect('the unspawner does not stop exactly the listed controllers that are running')
    v.check(w.timers and w.spins == 1 and len(w.on_shutdown) == 1, 'the unspawner does not stay')
    def tick():
        live = [t for t in w.timers if not t.dead]; v.check(live, 'the unspawner stops watching')
        for t in live: call(t.fire)
    lost = v.pick('lost', 3)
    if lost: # the controller manager, or only its switch service, cannot be reached for a while
        there((False, None)[lost - 1]); tick(); v.check(not sw, 'an unreachable service is called'); there(True); v.reach('lost')
    else: before = dict(state); tick(); expect('the unspawner does not stop again exactly the listed controllers that are running')
    for x in names: state[x] = v.pick('state', 3)
    before = dict(state); tick(); expect('the unspawner does not stop again exactly the listed controllers that are running')
    r = call(w.on_shutdown[0]); v.check(not isinstance(r, Escaped), 'the unspawner lets an exception escape'); v.check(all(t.dead for t in w.timers), 'the unspawner goes on after shutdown')
    v.check(len(sw) == 1 and sorted(sw[0][0]) == sorted(stopped) and sw[0][1] == [] or (not stopped and not sw), 'the unspawner does not start again exactly the controllers it stopped'); v.reach('some' if stopped else 'none')

# ---------------------------------------------------------------- C34: the panel
import fakeqt
LISTED = ('initialized', 'running', 'stopped', 'waiting', 'aborted', 'unknown')
MENU = {'running': [('Stop', ['stop']), ('Stop and Unload', ['stop', 'unload'])], 'stopped': [('Start again', ['start']), ('Unload', ['unload'])], 'initialized': [('Start', ['start']), ('Unload', ['unload'])], 'uninitialized': [('Load', ['load']), ('Load and Start', ['load', 'start'])]}
class Panel:
    """A panel in front of up to two controller managers, and what it has to show."""
    def __init__(self, v):
        self.v, self.w = v, world(); self.up, self.state, self.conf = {}, {}, {}; m = fakeqt.load(); self.serve(); r = call(m['ControllerManager'], fakeqt.Context(1)); v.check(not isinstance(r, Escaped), 'the panel cannot be made'); self.p = r
    def serve(self):
        w = self.w; w.service_list = []; w.types = {}; w.services = {}; w.param_names = []; w.params = {}
        for ns, root in (('/controller_manager', ''), ('/r/s/cm', '/r/s')):
            if self.up.get(ns): advertise(w, ns, 0)
            if self.up.get(ns):
                def h(t, ns):
                    R = getattr(SRV, t)._response_class
                    if t == 'ListControllers': return lambda q, p: R(controller=[MSG.ControllerState(name=n, state=s, type='T' + n, claimed_resources=[MSG.HardwareInterfaceResources(hardware_interface='H', resources=['x', 'y'])]) for n, s in self.state.get(ns, [])])
                    return lambda q, p: R(ok=True)
                for s, t in API.items(): w.services[ns + '/' + s] = (getattr(SRV, t), h(t, ns))
            for n in self.conf.get(ns, []): w.param_names.append('%s/%s/type' % (root, n)); w.params['%s/%s/type' % (root, n)] = 'C' + n
    def tick(self, i):
        t = self.w.qtimers[i] if len(self.w.qtimers) > i else None
        if t and t.on: r = call(t.timeout.emit); self.v.check(not isinstance(r, Escaped), 'an update of the panel lets an exception escape')
    def ticks(self):
        for i in range(len(self.w.qtimers)): self.tick(i)
    def combo(self): return self.w.panel.cm_combo
    def table(self): return self.w.panel.table_view
    def select(self, ns): r = call(self.combo().setCurrentIndex, self.combo().findText(ns)); self.v.check(not isinstance(r, Escaped), 'selecting a controller manager lets an exception escape')
    def want(self):
        ns = self.combo().currentText()
        if not ns: return []
        l = list(self.state.get(ns, [])) if self.up.get(ns) else []; return l + [(n, 'uninitialized') for n in sorted(self.conf.get(ns, [])) if n not in [x for x, s in l]]
    def shown(self):
        v, m, Q = self.v, self.table().model(), fakeqt.Qt
        if m is None: return []
        n = call(m.rowCount, fakeqt.QModelIndex()); v.check(not isinstance(n, Escaped) and call(m.columnCount, fakeqt.QModelIndex()) == 2, 'the table does not have two columns'); r = []
        for i in range(n):
            d = [call(m.data, fakeqt.QModelIndex(i, c), getattr(Q, role)) for c in (0, 1) for role in ('DisplayRole', 'DecorationRole', 'FontRole', 'TextAlignmentRole')]; v.check(not any(isinstance(x, Escaped) for x in d), 'showing a controller lets an exception escape'); r.append((d[0], d[4])); v.check((d[1] is not None and 'green' in d[1].path) == (d[4] == 'running'), 'the icon does not tell running controllers from others')
        v.check(call(m.data, fakeqt.QModelIndex(), Q.DisplayRole) is None, 'the table shows something at no cell'); return r
    def same(self, what): self.v.check(self.shown() == self.want(), what)
    def menu(self, row, choose, during=None):
        """Opens the context menu on a row and chooses an action; returns the offered texts and the requests made."""
        v, w, got = self.v, self.w, []
        def f(m):
            got.extend(a.text() for a in m.actions())
            if during: during()
            del w.calls[:]; return m.actions()[choose] if choose is not None and choose < len(m.actions()) else None
        w.menu = f; del w.calls[:]; r = call(self.table().customContextMenuRequested.emit, fakeqt.Pos(row)); v.check(not isinstance(r, Escaped), 'the menu of a controller lets an exception escape')
        return got, [c for c in w.calls if not c[0].split('/')[-1].startswith('list_')]
    def requests(self, ns, name, words):
        S = dict(load=('load_controller', [name]), unload=('unload_controller', [name]), start=('switch_controller', [[name], [], STRICT, False, 0.0]), stop=('switch_controller', [[], [name], STRICT, False, 0.0])); return [(ns + '/' + S[x][0], S[x][1]) for x in words]
def panel_controllers(v, n, names=('ab', 'a')):
    return [(names[i], LISTED[v.pick('state', 6)]) for i in range(v.pick('loaded', n + 1))]
A, B = '/controller_manager', '/r/s/cm'
@unit
def C34_table(v):
    P = Panel(v); ns = (A, B)[v.pick('manager', 2)]; P.ticks(); P.same('the panel shows controllers of no manager'); P.up[ns] = True; P.state[ns] = panel_controllers(v, 2); k = v.pick('configured', 4); P.conf[ns] = [('ab', 'a', 'b')[i] for i in (1, 2) if k >> (i - 1) & 1]; P.serve(); P.ticks()
    v.check(P.combo().items == [ns], 'the panel does not offer exactly the controller managers'); v.check(P.combo().currentText() == '', 'the panel selects a controller manager on its own'); P.same('the panel shows controllers of no manager'); P.select(ns); P.same('the panel does not show exactly the loaded and configured controllers of the selected manager, with their states')
    c = v.pick('change', 5)
    if c == 0: P.state[ns] = [(n, LISTED[v.pick('state', 6)]) for n, s in P.state[ns]]
    elif c == 1: P.state[ns] = P.state[ns][1:]
    elif c == 2: P.conf[ns] = ['a']
    elif c == 3: P.state[ns] = P.state[ns][::-1]
    elif c == 4: P.up[ns] = False
    P.serve(); P.ticks(); P.tick(1); v.check(P.combo().items == ([] if c == 4 else [ns]) and P.combo().currentText() == ('' if c == 4 else ns), 'the panel does not keep the selected manager as long as it is there'); P.same('the panel does not follow the controllers of the selected manager'); v.reach('gone' if c == 4 else 'shown')
@unit
def C34_managers(v):
    P = Panel(v); P.state[A], P.state[B] = [('a', 'running')], [('b', 'stopped')]
    for step in range(3):
        up = v.pick('up', 4); before = P.combo().currentText(); P.up = {A: bool(up & 1), B: bool(up & 2)}; P.serve(); P.ticks(); now = [n for n in (A, B) if P.up[n]]
        v.check(sorted(P.combo().items) == now, 'the panel does not offer exactly the controller managers'); v.check(P.combo().currentText() == (before if before in now else ''), 'the panel does not keep the selected manager as long as it is there'); P.ticks(); P.same('the panel does not follow the controllers of the selected manager')
        s = v.pick('select', 3)
        if s and (A, B)[s - 1] in now: P.select((A, B)[s - 1]); P.same('the panel does not show exactly the loaded and configured controllers of the selected manager, with their states'); v.reach('selected')
    if v.bool('restore'):
        class Settings:
            def __init__(self, d): self.d = d
            def set_value(self, k, x): self.d[k] = x
            def value(self, k, *a): return self.d.get(k)
        st = Settings({}); ns = P.combo().currentText(); call(P.p.save_settings, Settings({}), st); up = dict(P.up); w = P.w; Q = Panel(v); Q.state, Q.up = P.state, up; Q.serve(); r = call(Q.p.restore_settings, Settings({}), st); v.check(not isinstance(r, Escaped), 'restoring the panel lets an exception escape'); v.check(Q.combo().currentText() == (ns if up.get(ns) else ''), 'restoring the panel does not select the manager of the last session'); Q.same('the panel does not show exactly the loaded and configured controllers of the selected manager, with their states'); v.reach('restored')
    else: call(P.p.shutdown_plugin); v.check(not any(t.on for t in P.w.qtimers), 'the panel goes on after its shutdown'); v.reach('shut down')
@unit
def C34_menu(v):
    P = Panel(v); ns = (A, B)[v.pick('manager', 2)]; P.up = {A: True, B: True}; P.state[A if ns == B else B] = [('a', 'running'), ('b', 'running')]; P.state[ns] = panel_controllers(v, 2); P.conf[ns] = ['c', 'a'] if v.bool('configured') else []; P.serve(); P.ticks(); P.select(ns); l = P.want(); row = v.pick('row', 4); act = v.pick('action', 3); during = v.pick('during', 3)
    def change():
        P.state[ns] = P.state[ns][1:] if during == 1 else [('0', 'running')] + P.state[ns]; P.serve(); P.ticks()
    texts, calls = P.menu(row, act if act < 2 else None, change if during else None)
    if row >= len(l): v.check(calls == [] and texts == [], 'the panel makes requests for no controller'); v.reach('no row'); return
    name, state = l[row]; menu = MENU.get(state, []); v.check(len(texts) == len(menu), 'the menu does not offer the actions of the state of the controller'); got = [(n, q.fields()) for n, q in calls]
    if act == 2 or act >= len(menu): v.check(got == [], 'the panel makes requests although nothing was chosen'); v.reach('nothing'); return
    want = dict((t.split(' ')[0] if False else t, a) for t, a in menu); v.check(texts[act] in want, 'the menu does not offer the actions of the state of the controller'); v.check(got == P.requests(ns, name, want[texts[act]]), 'a menu action does not make exactly the corresponding requests'); v.reach(state)
@unit
def C34_restart(v):
    """The controller manager dies and comes back between two updates of the panel, which has used its services before."""
    P = Panel(v); ns = (A, B)[v.pick('manager', 2)]; P.up = {ns: True}; P.state[ns] = [('a', 'running'), ('ab', 'stopped'), ('b', 'initialized')]; P.conf[ns] = ['c']; P.serve(); P.ticks(); P.select(ns)
    for row in (0, 3):
        if v.bool('used'): P.menu(row, 1)
    for s in API: P.w.epoch[ns + '/' + s] = 1
    k = v.pick('state', 6); P.state[ns] = [(n, LISTED[(k + i) % 6]) for i, (n, s) in enumerate(P.state[ns][v.pick('first', 2):])]; P.serve(); P.ticks(); P.same('the panel does not follow the controllers of the selected manager'); l = P.want(); row = v.pick('row', len(l)); name, state = l[row]; menu = MENU.get(state, []); act = v.pick('action', 2); v.assume(act < len(menu))
    texts, calls = P.menu(row, act); v.check(len(texts) == len(menu) and texts[act] in dict(menu), 'the menu does not offer the actions of the state of the controller'); v.check([(n, q.fields()) for n, q in calls] == P.requests(ns, name, dict(menu)[texts[act]]), 'a menu action does not make exactly the corresponding requests'); v.reach(state)
@unit
def C34_details(v):
    P = Panel(v); ns = (A, B)[v.pick('manager', 2)]; P.up = {ns: True}; P.state[ns] = panel_controllers(v, 2); P.conf[ns] = ['c']; P.serve(); P.ticks(); P.select(ns); l = P.want(); row = v.pick('row', len(l)); r = call(P.table().doubleClicked.emit, fakeqt.QModelIndex(row, v.pick('column', 2))); v.check(not isinstance(r, Escaped), 'the details of a controller let an exception escape'); w = P.w.popup; name, state = l[row]; t = ('C' if state == 'uninitialized' else 'T') + name
    v.check(w.ctrl_name.text() == name and w.ctrl_type.text() == t, 'the details are not those of the controller'); m = w.resource_tree.model(); show = lambda i: (i.text(), [show(c) for c in i.rows]); tree = [show(c)[1] for c in m.rows]; v.check(tree == [[] if state == 'uninitialized' else [('H', [('x', []), ('y', [])])]], 'the details do not show exactly the claimed resources'); v.reach('shown')
