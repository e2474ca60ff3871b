BUG = {'id': 'c04-aborted-left',
 'property': 'C04',
 'needs': 'a controller aborted by an earlier request and started again in as-soon-as-possible mode',
 'breaks': 'a controller that was aborted once is never started again in as-soon-as-possible mode',
 'edits': [('controller_manager/src/controller_manager.cpp',
            '    if (!request->isRunning())\n    {\n      // find the info',
            '    if (!request->isRunning() && !request->isAborted())\n    {\n      // find the info')],
 'demo': '#include "demo_cm.h"\n'
         'int main() {\n'
         '  Sys s; s.load("a", {"x"}); s.hw.each["a"] = 2; s.sw({"a"}, {}, 2, true); REQUIRE(s.c["a"]->isAborted()); s.hw.each["a"] = 0; REQUIRE(s.sw({"a"}, '
         '{}, 2, true)); REQUIRE(s.c["a"]->isRunning());\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['controller_manager/src/controller_manager.cpp'],
 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
