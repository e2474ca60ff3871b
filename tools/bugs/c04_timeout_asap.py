BUG = {'id': 'c04-asap-timeout-start',
 'property': 'C04',
 'needs': 'as-soon-as-possible mode with a timeout, where a controller becomes ready only after another was aborted',
 'breaks': 'in as-soon-as-possible mode the request ends once one controller is aborted, leaving another waiting',
 'edits': [('controller_manager/src/controller_manager.cpp',
            '            request->abortRequest(time);\n          }\n          // controller is waiting',
            '            request->abortRequest(time);\n            switch_params_.do_switch = false;\n          }\n          // controller is waiting')],
 'demo': '#include "demo_cm.h"\n'
         'int main() {\n'
         '  Sys s; s.load("a", {"x"}); s.load("b", {"y"}); s.hw.each["a"] = 2; s.hw.each["b"] = 1; static HW* h; static int n; h = &s.hw; n = 0; std::thread '
         't([&] { std::this_thread::sleep_for(std::chrono::milliseconds(300)); s.hw.each["b"] = 0; }); s.sw({"a", "b"}, {}, 2, true); t.join(); '
         'REQUIRE(s.c["a"]->isAborted()); REQUIRE(s.c["b"]->isRunning());\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['controller_manager/src/controller_manager.cpp'],
 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
