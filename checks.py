"""Registry: which harness units decide which property, with their bounds."""
COMMON_ASSUMPTIONS = [
 'clang 18 -O1 LLVM IR is a faithful image of the sources (counterexamples and sampled paths are replayed against a native build)',
 'the executor (/verif/engine), Z3 and the LLVM libraries are trusted',
 'ROS, pluginlib, urdf, tinyxml and iostream are replaced by the stand-ins in /verif/stubs; log messages and number formatting are not modelled',
 'memory allocation never fails',
]
PROPS = {}
P = PROPS
P['SELF'] = dict(bounds='self test', units=[dict(name='selftest', src='selftest.cpp', reach=['end'], quick=dict(time=60))])

REALS='double arithmetic is read as real arithmetic for the identities (replay allows rounding); NaN, infinities and overflow are outside'
for pid, mode, reach in (('C24','INVERSE',['position','velocity','effort','back']),('C25','POWER',['power a2j','power j2a','derivative a2j','derivative j2a','offset']),('C26','SENSORS',['absolute','torque'])):
    P[pid] = dict(bounds='all real reductions (non-zero), offsets and data values; every map kind and direction; all data vectors bound or only the needed ones; three transmission types (the only ones in the repository)', assumptions=[REALS],
      units=[dict(name=n, src='trans.cpp', defs=[mode, 'TR=%d'%t], reach=reach + (['pass through'] if mode=='SENSORS' and t==1 else []), quick=dict(time=60), thorough=dict(time=300)) for t,n in enumerate(('simple','differential','four_bar'))])

P['C27'] = dict(bounds='constructors: every double as reduction and offset, list lengths 0-3; handles: any two of the ten data lists of any length 0-3 with at most one null pointer each, the others empty, right or positions-only; transmissions of 1x1, 2x2 and 2x1; missing transmission', assumptions=[],
  units=[dict(name='ctor', src='trans_ctor.cpp', defs=['CTOR'], reach=['simple rejected','simple accepted','rejected','accepted'], quick=dict(time=90), thorough=dict(time=600)),
         dict(name='handle', src='trans_ctor.cpp', reach=['accepted','rejected'], quick=dict(time=120), thorough=dict(time=900))])
P['C28'] = dict(bounds='8 interface types, up to 3 transmissions of dimension 1 and 2, two propagations with any data values, any combination of supported/bound absolute position and torque sensors', assumptions=['the transmissions are stand-ins whose maps copy one quantity each (the real maps are covered by C24-C26)'],
  units=[dict(name='propagate', src='propagate.cpp', reach=['a2j state','a2j single','j2a state','j2a single','absolute','torque'], quick=dict(time=90), thorough=dict(time=900))])
LOADERS=['transmission_interface/src/transmission_loader.cpp']
P['C29'] = dict(bounds='0-3 joints and actuators; each numeric element absent, empty or any one-character text (digit or not), one of them instead any of sixteen longer texts (signs, fractions, exponents, zeros, not numbers); each role absent, empty, either valid role or a foreign one; any element order; the numeric elements all vary together, the roles all vary together', assumptions=['numbers have one character or are one of sixteen longer texts; partially numeric texts such as "3x" are outside'],
  units=[dict(name=n, src='loader.cpp', defs=['KIND=%d'%k], repo=LOADERS+(['transmission_interface/src/%s_transmission_loader.cpp'%n] if k<2 else []), reach=['loaded','refused']+(['optional values'] if k else [])+(['ignored'] if k==1 else []), quick=dict(time=150), thorough=dict(time=900)) for k,n in enumerate(('simple','differential','four_bar_linkage'))])
P['C31'] = dict(bounds='documents with up to two transmissions of up to two joints and two actuators with up to two hardware interfaces each; every name, type, role and interface element absent, empty or present', assumptions=['tinyxml itself is a stand-in: the documents are element trees'],
  units=[dict(name='parser', src='parser.cpp', repo=['transmission_interface/src/transmission_parser.cpp'], reach=['malformed','empty','none kept','one kept','two kept'], quick=dict(time=150), thorough=dict(time=900))])

P['C13'] = dict(bounds='up to 3 (thorough 4) registrations under symbolic names of one character (raw registry: also zero to two characters), lookups before and after; merging two or three registries of up to 2 (3) entries (three: at most two plus one in the third) into an empty or non-empty third', assumptions=[],
  units=[dict(name='history', src='registry.cpp', reach=['found','not found'], quick=dict(time=120), thorough=dict(time=900)),
         dict(name='merge', src='registry.cpp', defs=['MERGE'], reach=['merged','found','not found'], quick=dict(time=120), thorough=dict(time=900))])
P['C14'] = dict(bounds='all 16 hardware interface types of the repository with two resources; every sequence of up to 3 (thorough 4) lookups, explicit claims and clears with symbolic names', assumptions=[],
  units=[dict(name='claims', src='claims.cpp', reach=['acquired','failed lookup','cleared','claimed after clear'], quick=dict(time=120), thorough=dict(time=900))])
P['C15'] = dict(bounds='a root robot and two (thorough three) parts; every history of 3-4 (4-5) registrations, attachments (nested too) and queries, from three starting situations, with two combinable interface types and one that is not', assumptions=['resource names of different parts are distinct; the resources of an interface are registered before or after the interface itself, but before a combination with it is first asked for'],
  units=[dict(name='ifman', src='ifman.cpp', reach=['none','single','combined','same combined','not combinable','symbolic names','late resources'], quick=dict(time=150), thorough=dict(time=900))])
P['C16'] = dict(bounds='every handle type and constructor, every combination of null pointers, any data values', assumptions=['IMU and force-torque sensor handles accept absent (null) data by design'],
  units=[dict(name='handles', src='handles.cpp', reach=['constructed','rejected'], quick=dict(time=120), thorough=dict(time=900))])
P['C17'] = dict(bounds='up to 3 controllers with up to 2 interfaces each and together up to 3 (thorough 4) claims with symbolic one-character resource names', assumptions=[],
  units=[dict(name='conflict', src='conflict.cpp', reach=['conflict','no conflict'], quick=dict(time=120), thorough=dict(time=900))])

P['C11'] = dict(bounds='every sequence of up to 4 (thorough 5) requests (init, start, stop, wait, abort, update) with any times and periods and any outcome of the hooks, for single- and multi-interface controllers', assumptions=['callbacks return normally'],
  units=[dict(name='life', src='life.cpp', reach=['initialized','refused','updated','aborted','waiting'], quick=dict(time=120), thorough=dict(time=900))])
P['C12'] = dict(bounds='five controller types (one interface; multi-interface with one to three; with a read-only one), interfaces in either, both or none of two robot parts, up to 2 (thorough 3) acquisitions of any name in either hook, left-over claims, reused output list', assumptions=[],
  units=[dict(name='interfaces', src='ctrlinit.cpp', defs=['NCLAIM=1'], reach=['failed','initialized','initialized without optional interface','combined'], quick=dict(time=120), thorough=dict(time=900)),
         dict(name='claims', src='ctrlinit.cpp', defs=['CLAIMS'], reach=['failed','initialized','two claims','combined'], quick=dict(time=120), thorough=dict(time=900, defs=['NCLAIM=3']))])

def limits(k, name, reach, **kw): return dict(name=name, src='limits.cpp', defs=['KIND=%d'%k]+kw.get('defs',[]), reach=['end','unchanged']+reach, quick=dict(time=kw.get('time',100)), thorough=dict(time=900))
FINITE='limits, measured state and periods are finite (magnitude up to 1e100), limits and gains not negative, minima not above maxima, periods positive; a bound is first decided over the doubles, and where that is not possible over the reals (the evidence counts both)'
P['C19'] = dict(bounds='2 (thorough 3) consecutive steps with an optional reset between; every combination of present limits; all finite doubles; a second joint with its own handle of the type is limited in between', assumptions=[FINITE], units=[limits(0,'saturation',['reset']), limits(1,'soft',['reset'])])
P['C20'] = dict(bounds='2 (thorough 3) consecutive steps, the command may be NaN in one of them; every combination of present limits; all finite doubles; a second joint with its own handle of the type is limited in between', assumptions=[FINITE], units=[limits(2,'saturation',['NaN','after NaN']), limits(3,'soft',['conflicting bounds'])])
P['C21'] = dict(bounds='one step (the handles keep no state); every combination of present limits; all finite doubles; a second joint with its own handle of the type is limited in between', assumptions=[FINITE], units=[limits(4,'saturation',['below minimum','above maximum'],defs=['STEPS=1']), limits(5,'soft',[],defs=['STEPS=1'])])

P['C22'] = dict(bounds='six handle types, every combination of present limits; six interface types with up to 3 joints under symbolic one-character names (equal names replace), three enforcements with optional resets, one lookup; limits and commands are fixed numbers here (their effect is C19-C21)', assumptions=[],
  units=[dict(name='requirements', src='jliface.cpp', defs=['CTOR'], reach=['refused','built'], quick=dict(time=60)),
         dict(name='interface', src='jliface.cpp', reach=['found','not found','replaced','reset'], quick=dict(time=100), thorough=dict(time=600))])
P['C23'] = dict(bounds='parameters: one group (position, velocity, acceleration, jerk, effort, soft) at a time has every combination of absent, right type, integer and foreign type, the other groups are absent or complete; URDF: every joint type with and without limits and safety data; all values and all previous limits arbitrary', assumptions=['the parameter server and URDF are stand-ins'],
  units=[dict(name='parameters', src='jlparams.cpp', reach=['position','exists','none','soft'], quick=dict(time=100), thorough=dict(time=600)),
         dict(name='urdf', src='jlparams.cpp', defs=['URDF'], reach=['bounded','unbounded','no limits','soft'], quick=dict(time=60))])

CM=['controller_manager/src/controller_manager.cpp']
CMA=['controllers, hardware and loaders are recording stand-ins; ros::Time is a double; the hardware answers every query of one update cycle alike','the waiting service thread and the update thread alternate whole update cycles (finer interleavings: C08)']
def sw(prop, name, reach, thorough=[], **d):
    d = dict(dict(HW=0, CLAIMS=0, ROUNDS=1, MAXS=2, MAXP=2, CYCLES=3), **d)
    return dict(name=name, src='cm_switch.cpp', repo=CM, defs=['PROP=%d' % prop] + ['%s=%s' % x for x in d.items()], reach=reach, quick=dict(time=150), thorough=dict(time=1200, defs=thorough))
RQ='three loaded controllers, each initialized, stopped, waiting, aborted or running; requests of up to two start and two stop names (thorough: three start names) out of the three loaded and one unknown, duplicates included; '
HWB='hardware results per cycle (per controller in as-soon-as-possible mode) any of done, ongoing, error over three cycles (thorough four to five), the timeout absent, not yet or already elapsed at each of them; elapsed time exactly equal to the timeout is outside; '
HIST='two consecutive requests (thorough three) on two controllers, the first with two cycles of symbolic hardware results'
P['C01'] = dict(bounds=RQ+'each claims one resource out of two under one of two interfaces, or (two controllers) two resources out of four under two interfaces, all symbolic; '+HIST, assumptions=CMA, units=[
  sw(1, 'strict', ['switched','conflict'], ['MAXS=3'], STRICTNESS=2, CLAIMS=1),
  sw(1, 'best', ['switched','conflict'], ['MAXS=3'], STRICTNESS=1, CLAIMS=1, MAXS=2, MAXP=1),
  sw(1, 'claims', ['switched','conflict'], ['MAXP=2'], CLAIMS=2, NC=2, STRICTNESS=2, MAXS=2, MAXP=1, ASAP=0),
  sw(1, 'history', ['switched','conflict'], ['ROUNDS=3'], CLAIMS=1, NC=2, ROUNDS=2, HW=1, CYCLES=2, STRICTNESS=2)])
P['C02'] = dict(bounds=RQ+'two consecutive requests of up to one start and one stop name on two controllers', assumptions=CMA, units=[
  sw(2, 'request', ['switched','strict refused','started','stopped'], ['MAXS=3'], STRICTNESS=2),
  sw(2, 'history', ['switched','strict refused'], ['MAXS=2'], STRICTNESS=2, NC=2, MAXS=1, MAXP=1, ROUNDS=2)])
P['C03'] = dict(bounds=RQ+'strictness best effort and unset; '+HWB, assumptions=CMA+['a running controller listed for both start and stop may be refused (its request as a whole) or served'], units=[
  sw(3, 'request', ['switched','skipped start','skipped stop'], ['MAXS=3'], STRICTNESS=1),
  sw(3, 'default', ['switched','skipped start','skipped stop'], [], STRICTNESS=0, NC=2),
  sw(3, 'hardware', ['switched','aborted'], ['NC=3'], STRICTNESS=1, HW=1, NC=2)])
HWU=lambda p: [sw(p, 'all', ['switched','aborted'], ['CYCLES=5'], HW=1, ASAP=0),
  sw(p, 'asap', ['switched','aborted'], ['NC=3','CYCLES=4'], HW=1, ASAP=1, NC=2),
  sw(p, 'history', ['switched','aborted'], ['ROUNDS=3'], HW=1, NC=2, ROUNDS=2, CYCLES=2, STRICTNESS=2)]
P['C04'] = dict(bounds='three controllers (as soon as possible: two, thorough three), any valid start/stop subset; '+HWB+HIST, assumptions=CMA+['in as-soon-as-possible mode a controller that was aborted may be evaluated again while others still wait'], units=HWU(4))
P['C07'] = dict(bounds=RQ+HWB+HIST+'; requests abandoned after zero to two cycles; two requests of which the hardware ends the first with an exception, of either kind, while preparing or checking for conflicts', assumptions=CMA, units=[
  sw(7, 'strict', ['switched'], ['MAXS=3'], STRICTNESS=2),
  sw(7, 'best', ['switched','prepare refused'], ['MAXP=2'], STRICTNESS=1, MAXS=2, MAXP=1),
  sw(7, 'throws', ['switched','prepare refused','prepare threw','conflict check threw'], ['MAXS=2'], STRICTNESS=1, NC=2, MAXS=1, MAXP=1, ROUNDS=2, THROWS=1),
  sw(7, 'refused', ['switched','prepare refused','conflict'], ['MAXS=2'], STRICTNESS=1, CLAIMS=1, NC=2, MAXS=1, MAXP=1, ROUNDS=2),
  dict(name='timeout', src='cm_timeout.cpp', repo=CM, reach=['gave up while waiting','gave up before','next'], quick=dict(time=60), thorough=dict(time=300))]+HWU(7))
P['C05'] = dict(bounds='up to three controllers in any of the five states, two update cycles with any time, period and reset flag, between them nothing, a load, an unload or a pending switch (with up to two cycles of its own, reset or not)', assumptions=CMA, units=[dict(name='cycle', src='cm_update.cpp', repo=CM, reach=['updated','reset','unloaded','loaded','switched'], quick=dict(time=150), thorough=dict(time=900))])
P['C06'] = dict(bounds='every history of four (thorough five) operations: load of two valid and one invalid name with nine outcomes (two loaders, unknown type, no type, creation throws or gives nothing, initialization fails or throws two ways; at most one such failure per history), unload, update cycle, controller started or stopped; with three controllers loaded beforehand every history of three (thorough four) operations; names and types of which one begins or contains another', assumptions=CMA, units=[dict(name='history', src='cm_load.cpp', repo=CM, reach=['loaded','duplicate','init failed','not loaded','unloaded','still running','not there','cycle'], quick=dict(time=150), thorough=dict(time=1200)),
  dict(name='order', src='cm_load.cpp', repo=CM, defs=['PRELOAD=3'], reach=['loaded','duplicate','not loaded','unloaded','still running','cycle'], quick=dict(time=150), thorough=dict(time=1200))])
P['C09'] = dict(bounds='every history of three (thorough four) operations: load (two types, up to two claimed interfaces), unload, update cycle, controller moved to any state, through the services or directly; with three controllers loaded beforehand every history of three (thorough four) operations; up to two plugin types and two further loaders with up to two types each, all names symbolic; one switch of each kind through the service', assumptions=CMA, units=[dict(name='history', src='cm_load.cpp', repo=CM, defs=['LIST'], reach=['loaded','unloaded'], quick=dict(time=150), thorough=dict(time=900)),
  dict(name='order', src='cm_load.cpp', repo=CM, defs=['LIST','PRELOAD=3'], reach=['loaded','unloaded'], quick=dict(time=150), thorough=dict(time=900)),
  dict(name='types', src='cm_types.cpp', repo=CM, reach=['types','switched','not switched','elapsed'], quick=dict(time=60), thorough=dict(time=300))])
P['C10'] = dict(bounds='up to three controllers, each running, initialized, waiting or aborted; one or two extra loaders; kill flag; hardware refusing to prepare; any hardware result', assumptions=CMA, units=[dict(name='reload', src='cm_reload.cpp', repo=CM, reach=['killed','reloaded','kill failed','refused'], quick=dict(time=150), thorough=dict(time=900))])
P['C08'] = dict(bounds='one update thread (as many cycles as the calls need, plus one) and one or two service threads with one or two calls each: ten scenarios on two or three controllers, before or after the first update, one of them a request that may give up (timeout) while it is being executed, two with a forced reload of the libraries; loads and unloads during update cycles that reset the controllers; loads, unloads and switches during which ROS shuts down at any of their polls; every interleaving with up to two preemptions (two switches at once, a switch that may give up, reloads, resets and shutdowns: one; thorough three and two) at accesses to the manager (update thread: any shared memory) and inside controller callbacks, plus any voluntary switch', assumptions=['sequentially consistent memory; preemption points are the memory accesses clang -fsanitize=thread instruments'], units=[dict(name=n, src='cm_conc.cpp', repo=CM, repoflags=['-fsanitize=thread'], defs=['SCENARIO=%d'%i,'BUDGET=%d' % (1 if i in (5,7,8,9) else 2)], reach=['done'] + (['gave up','in time'] if i == 7 else ['loaded after'] if i == 9 else []), quick=dict(time=150), thorough=dict(time=1200, defs=['BUDGET=%d' % (2 if i in (5,7,8,9) else 3)])) for i,n in enumerate(('unload','load','switch','list','unload_load','two_switches','unload_and_load','give_up','reload','reload_and_load'))] + [dict(name='reset_'+n, src='cm_conc.cpp', repo=CM, repoflags=['-fsanitize=thread'], defs=['RESET=1','SCENARIO=%d'%i,'BUDGET=1'], reach=['done'], quick=dict(time=150), thorough=dict(time=1200, defs=['BUDGET=2'])) for i,n in ((0,'unload'),(1,'load'))] + [dict(name='shutdown_'+n, src='cm_conc.cpp', repo=CM, repoflags=['-fsanitize=thread'], defs=['SHUTDOWN','SCENARIO=%d'%i,'BUDGET=%d' % b], reach=['done','shut down'], quick=dict(time=150), thorough=dict(time=1200, defs=['BUDGET=%d' % (b+1)])) for i,n,b in ((0,'unload',1),(1,'load',1),(2,'switch',1))])
P['C36'] = dict(bounds='update cycles: up to two (thorough three) controllers in any of the five states, one request to start and/or stop them (with and without waiting for all, with and without timeout), every hardware result in the first two of its cycles, resets; two cycles while any of seven service calls is suspended at any one (thorough any two) of its accesses to the manager or anywhere it waits; propagation: one or two real transmissions of every kind under each of the eight interfaces with and without sensors, all values; enforcement: two joints under each of the six limits interfaces, all values, resets', assumptions=['controllers, hardware and logging are stand-ins that leave the heap alone (what they do themselves is outside, e.g. the lists a combined robot makes in doSwitch and switchResult)', 'lock-free atomics; allocation is seen as calls of malloc, new and their counterparts'], units=[
  dict(name='cycle', src='rt.cpp', repo=CM, reach=['cycles','switched','stopped'], quick=dict(time=150), thorough=dict(time=900, defs=['MAXC=3'])),
  dict(name='suspend', src='rt.cpp', defs=['SUSPEND'], repo=CM, repoflags=['-fsanitize=thread'], reach=['done','suspended'], quick=dict(time=150, defs=['BUDGET=1']), thorough=dict(time=1200, defs=['BUDGET=2'])),
  dict(name='maps', src='rt.cpp', defs=['MAPS'], repo=[], reach=['propagated','enforced'], quick=dict(time=100), thorough=dict(time=300))])
P['C18'] = dict(bounds='loading: up to two parts (and three), each with a known, foreign, unknown or missing type, a failing constructor, any outcome of its initialization; switching: two parts, every distribution of two resources under two interfaces over them and one controller with up to two claimed interfaces; a fixed distribution of three resources over two parts and up to two controllers (over three parts and one controller) with up to one claimed interface, started, stopped or neither, every refusal and every switch result of the parts', assumptions=['the parts are recording stand-ins; a controller all of whose claimed interfaces come without resources may be passed to a part or not'], units=[
  dict(name='load', src='combined.cpp', defs=['INITIAL'], repo=['combined_robot_hw/src/combined_robot_hw.cpp'], reach=['refused','loaded'], quick=dict(time=100), thorough=dict(time=300)),
  dict(name='share', src='combined.cpp', repo=['combined_robot_hw/src/combined_robot_hw.cpp'], reach=['switched'], quick=dict(time=150), thorough=dict(time=900)),
  dict(name='lists', src='combined.cpp', defs=['LISTS'], repo=['combined_robot_hw/src/combined_robot_hw.cpp'], reach=['refused','switched','state'], quick=dict(time=100), thorough=dict(time=300)),
  dict(name='three', src='combined.cpp', defs=['LISTS','NP=3'], repo=['combined_robot_hw/src/combined_robot_hw.cpp'], reach=['refused','switched','state'], quick=dict(time=100), thorough=dict(time=300)),
  dict(name='load_three', src='combined.cpp', defs=['INITIAL','NP=3'], repo=['combined_robot_hw/src/combined_robot_hw.cpp'], reach=['refused','loaded'], quick=dict(time=100), thorough=dict(time=300))])
TIS='transmission_interface/src/'
WIRE=[TIS+f for f in ('transmission_interface_loader.cpp','joint_state_interface_provider.cpp','position_joint_interface_provider.cpp','velocity_joint_interface_provider.cpp','effort_joint_interface_provider.cpp','bidirectional_position_joint_interface_provider.cpp','bidirectional_velocity_joint_interface_provider.cpp','bidirectional_effort_joint_interface_provider.cpp')]
P['C30'] = dict(bounds='one transmission of one or two joints with one or two hardware interfaces (seven known, one unknown), every single thing missing, actuators with and without absolute position and torque sensors, joint interfaces and joints of the robot\'s own; two transmissions with one interface each, separate or shared joint, either one failing; all values', assumptions=['transmissions are stand-ins that copy each quantity (the real maps: C24-C26); transmission names are distinct; each joint of a transmission appears once','of the pluginlib machinery only the plugin description and the exported classes are used'], units=[
  dict(name='one', src='wiring.cpp', repo=WIRE+[TIS+'transmission_parser.cpp'], reach=['loaded','refused','own','own joint state','backwards'], quick=dict(time=150), thorough=dict(time=900)),
  dict(name='two', src='wiring.cpp', defs=['TWO'], repo=WIRE+[TIS+'transmission_parser.cpp'], reach=['loaded','stopped at the first','stopped at the second','backwards'], quick=dict(time=150), thorough=dict(time=900)),
  dict(name='plugins', src='wiring.cpp', defs=['PLUGINS'], repo=WIRE+[TIS+f for f in ('transmission_parser.cpp','transmission_loader.cpp','simple_transmission_loader.cpp','differential_transmission_loader.cpp')], reach=['constructor','type','document','refused document'], quick=dict(time=60), thorough=dict(time=60))])
TECH_PY='symbolic execution of the real Python functions on proxies for strings and choices, every branch and assertion decided by Z3'
def py(name, reach, t=60): return dict(name=name, reach=reach, quick=dict(time=t), thorough=dict(time=600))
P['C32'] = dict(python=True, technique=TECH_PY, bounds='up to three controllers (interfaces, resources: two); every attribute value and criterion any string of up to three letters; up to three claimed interfaces with up to two resources; zero to two requested resources; every mode', assumptions=[], units=[py('attribute',['some','none']), py('interface',['some','none']), py('resources',['some','none'],150)])
P['C33'] = dict(python=True, technique=TECH_PY, bounds='discovery: up to two managers in four namespaces, each complete or with one of the six services missing or of another type, further services with similar names; three rounds of repeated discovery; up to three parameters out of eleven names; clients: any answer, names from a small set; up to two groups of three controllers in any state; every command with up to two names', assumptions=['namespaces and names come from small sets (stated in py/units.py)','a namespace seen before as a controller manager is not verified again (documented)'],
  units=[py('discovery',['found','nothing','asked','slash'],100), py('again',['end']), py('parameters',['some','none'],100), py('lister',['end']), py('clients',['ok','refused','list']), py('reload',['reloaded','restored']), py('group',['empty','spawned','switched','cancelled'],100), py('command',['usage','load','unload','start','stop','spawn','sp','kill','kl','list','lc','list-types','lt','reload'])])
P['C35'] = dict(python=True, technique=TECH_PY, bounds='spawner: up to three controllers, every load answer, shutdown requested after any load, every namespace form, timeout form, wait-for topic saying yes at once or after no, any one service missing; up to three arguments, each a configuration file given by a relative or absolute path or a name (one that is also a directory in the working directory, one with a slash, one that looks like a file but is none); unspawner: every subset of two names over three controllers in any state, two rounds, either refused by the manager, with one in between in which the manager or its switch service cannot be reached', assumptions=['configuration files are well-formed YAML mappings of controllers'], units=[py('files',['file','directory','two files','file and name']), py('spawner',['unavailable','told','shut down','stopped','started','unreachable','cleaned up'],100), py('unspawner',['some','none','usage','not stopped','lost'])])
P['C34'] = dict(python=True, technique=TECH_PY, bounds='up to two controller managers, up to two loaded controllers in any state and up to two configured ones, one change of any of them, three rounds of managers coming and going and selections, every menu action on every row while the list changes under the open menu, every menu action after the manager was replaced by another one between two updates, session restore', assumptions=['Qt, qt_gui and rospkg are stand-ins (combo box signals and menus as documented by Qt); painting and the .ui files are outside'], units=[py('table',['shown','gone'],100), py('managers',['selected','restored','shut down'],100), py('menu',['no row','nothing','running','stopped','initialized','uninitialized'],100), py('details',['shown']), py('restart',['running','stopped','initialized','uninitialized'])])
NOT_APPLICABLE = {}
