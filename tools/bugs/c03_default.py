BUG = {'id': 'c03-restart-skipped',
 'property': 'C03',
 'needs': 'a best-effort request that lists a controller for stopping that is not running, together with starting it',
 'breaks': 'a best-effort request that stops and starts a stopped controller is refused as conflicting',
 'edits': [('controller_manager/src/controller_manager.cpp', '        in_stop_list = false;\n        stop_request_.erase(', '        stop_request_.erase(')],
 'demo': '#include "demo_cm.h"\n'
         'int main() {\n'
         '  Sys s; s.load("a", {"x"}); s.load("b", {"y"}); REQUIRE(s.sw({"a", "b"}, {"a"}, 1)); REQUIRE(s.c["a"]->isRunning() && s.c["b"]->isRunning() && '
         's.c["a"]->starts == 1 && s.c["a"]->stops == 0);\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['controller_manager/src/controller_manager.cpp'],
 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
