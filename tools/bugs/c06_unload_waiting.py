BUG = {'id': 'c06-unload-break',
 'property': 'C06',
 'needs': 'three loaded controllers, the middle one aborted, and unloading it',
 'breaks': 'unloading an aborted controller also drops the controllers loaded after it',
 'edits': [('controller_manager/src/controller_manager.cpp',
            '      removed = true;\n    }\n    else',
            '      removed = true;\n      if (controller.c->isAborted()) break;\n    }\n    else')],
 'demo': '#include "demo_cm.h"\n'
         'int main() {\n'
         '  Sys s; s.load("a", {"x"}); s.load("b", {"y"}); s.load("c", {"z"}); s.hw.all = 2; s.sw({"b"}, {}); s.hw.all = 0; REQUIRE(s.c["b"]->isAborted()); '
         's.run(); bool ok = s.cm.unloadController("b"); s.halt(); REQUIRE(ok); REQUIRE(s.cm.getControllerByName("a") && !s.cm.getControllerByName("b") && '
         's.cm.getControllerByName("c"));\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['controller_manager/src/controller_manager.cpp'],
 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
