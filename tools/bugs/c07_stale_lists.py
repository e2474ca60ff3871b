BUG = {'id': 'c07-stale-lists',
 'property': 'C07',
 'needs': 'a request refused after its lists were built, followed by an accepted one',
 'breaks': 'controllers of a refused request are passed to the hardware with the next one',
 'edits': [('controller_manager/src/controller_manager.cpp', '  switch_start_list_.clear();\n  switch_stop_list_.clear();\n', ''),
           ('controller_manager/src/controller_manager.cpp',
            '  start_request_.clear();\n  stop_request_.clear();\n  if(timed_out){',
            '  start_request_.clear();\n  stop_request_.clear();\n  switch_start_list_.clear();\n  switch_stop_list_.clear();\n  if(timed_out){')],
 'demo': '#include "demo_cm.h"\n'
         'int main() {\n'
         '  Sys s; s.load("a", {"x"}); s.load("b", {"y"}); s.load("c", {"x"}); REQUIRE(s.sw({"a"}, {})); REQUIRE((s.hw.dStart == L{"a"})); '
         'REQUIRE(!s.sw({"c"}, {})); REQUIRE(s.sw({"b"}, {})); REQUIRE((s.hw.pStart == L{"b"} && s.hw.dStart == L{"b"} && s.hw.pStop.empty()));\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['controller_manager/src/controller_manager.cpp'],
 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
