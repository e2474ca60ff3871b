BUG = {'id': 'c07-early-stop',
 'property': 'C07',
 'needs': 'a request that stops and starts controllers, with the hardware looking at the running ones while it switches',
 'breaks': 'running controllers are stopped before the hardware performs the switch when others are started',
 'edits': [('controller_manager/src/controller_manager.cpp',
            '  // switch hardware interfaces (if any)\n  if (!switch_params_.started)\n  {\n',
            '  // switch hardware interfaces (if any)\n'
            '  if (!switch_params_.started)\n'
            '  {\n'
            '    if (!switch_start_list_.empty())\n'
            '      stopControllers(time);\n')],
 'demo': '#include "demo_cm.h"\n'
         'int main() {\n'
         '  static Sys s; s.load("a", {"x"}); s.load("b", {"x"}); REQUIRE(s.sw({"a"}, {})); static bool running; s.hw.onSwitch = [] { running = '
         's.c["a"]->isRunning(); }; REQUIRE(s.sw({"b"}, {"a"})); REQUIRE(running); REQUIRE(!s.c["a"]->isRunning() && s.c["b"]->isRunning());\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['controller_manager/src/controller_manager.cpp'],
 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
