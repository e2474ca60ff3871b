BUG = {'id': 'c02-stale-stop',
 'property': 'C02',
 'needs': 'a refused strict request with a valid stop entry and an unknown start entry, followed by an accepted request',
 'breaks': 'the controller listed for stopping in a refused request is stopped by the next accepted one',
 'edits': [('controller_manager/src/controller_manager.cpp',
            '        ROS_ERROR("Could not start controller with name \'%s\' because no controller with this name exists",\n'
            '                  controller.c_str());\n'
            '        stop_request_.clear();\n'
            '        start_request_.clear();\n',
            '        ROS_ERROR("Could not start controller with name \'%s\' because no controller with this name exists",\n'
            '                  controller.c_str());\n'
            '        start_request_.clear();\n')],
 'demo': '#include "demo_cm.h"\n'
         'int main() {\n'
         '  Sys s; s.load("a", {"x"}); s.load("b", {"y"}); REQUIRE(s.sw({"a"}, {})); REQUIRE(!s.sw({"q"}, {"a"})); REQUIRE(s.c["a"]->isRunning()); '
         'REQUIRE(s.sw({"b"}, {})); REQUIRE(s.c["a"]->isRunning() && s.c["a"]->stops == 0 && s.c["b"]->isRunning());\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['controller_manager/src/controller_manager.cpp'],
 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
