BUG = {'id': 'c09-timeout-dropped',
 'property': 'C09',
 'needs': 'a switch service call in as-soon-as-possible mode without hardware trouble',
 'breaks': 'the as-soon-as-possible flag of a switch service call is ignored when no timeout is given',
 'edits': [('controller_manager/src/controller_manager.cpp',
            '                             req.start_asap, req.timeout);',
            '                             req.start_asap && req.timeout > 0.0, req.timeout);')],
 'demo': '#include "demo_cm.h"\n'
         'int main() {\n'
         '  Sys s; s.load("a", {"x"}); s.hw.all = 2; s.hw.each["a"] = 0; controller_manager_msgs::SwitchController q; q.request.start_controllers = {"a"}; '
         'q.request.strictness = 2; q.request.start_asap = true; q.request.timeout = 0; s.run(); ros_stub::call("/controller_manager/switch_controller", q); '
         's.halt(); REQUIRE(q.response.ok && s.c["a"]->isRunning());\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['controller_manager/src/controller_manager.cpp'],
 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
