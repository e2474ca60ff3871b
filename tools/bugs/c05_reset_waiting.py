BUG = {'id': 'c05-reset-waiting',
 'property': 'C05',
 'needs': 'a reset in a cycle in which a controller is waiting for the hardware',
 'breaks': 'a reset starts controllers that are still waiting for their hardware',
 'edits': [('controller_manager/src/controller_manager.cpp',
            '      if (controller.c->isRunning()){\n        controller.c->stopRequest(time);',
            '      if (controller.c->isRunning() || controller.c->isWaiting()){\n        controller.c->stopRequest(time);')],
 'demo': '#include "demo_cm.h"\n'
         'int main() {\n'
         '  Sys s; s.load("a", {"x"}); s.hw.all = 1; std::thread t([&] { s.cm.switchController({"a"}, {}, 2, false, 0.0); }); while (!s.c["a"]->isWaiting()) { '
         's.cycle(); std::this_thread::sleep_for(std::chrono::milliseconds(1)); }\n'
         '  s.cycle(true); bool ok = s.c["a"]->stops == 0 && s.c["a"]->starts == 0; s.hw.all = 0; std::atomic<bool> done{false}; std::thread r([&] { while '
         '(!done) { s.cycle(); std::this_thread::sleep_for(std::chrono::milliseconds(1)); } }); t.join(); done = true; r.join(); REQUIRE(ok);\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['controller_manager/src/controller_manager.cpp'],
 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
