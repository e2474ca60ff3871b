BUG = {'id': 'c05-reset-after',
 'property': 'C05',
 'needs': 'a reset is requested while two controllers run',
 'breaks': 'on a reset the controllers are updated before they are restarted',
 'edits': [('controller_manager/src/controller_manager.cpp',
            '        controller.c->stopRequest(time);\n        controller.c->startRequest(time);\n',
            '        controller.c->updateRequest(time, period);\n        controller.c->stopRequest(time);\n        controller.c->startRequest(time);\n')],
 'demo': '#include "demo_cm.h"\n'
         'int main() {\n'
         '  Sys s; REQUIRE(s.load("a")); REQUIRE(s.sw({"a"}, {})); int u = s.c["a"]->updates; s.cycle(true); REQUIRE(s.c["a"]->updates == u + 1);\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['controller_manager/src/controller_manager.cpp'],
 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
