BUG = {'id': 'c03-default-strict',
 'property': 'C03',
 'needs': 'a request without strictness that names an unknown controller to stop',
 'breaks': 'a request without strictness is treated as strict when an unknown controller is to be stopped',
 'edits': [('controller_manager/src/controller_manager.cpp',
            '    ct = getControllerByName(controller);\n'
            '    if (ct == nullptr){\n'
            '      if (strictness ==  controller_manager_msgs::SwitchController::Request::STRICT){\n'
            '        ROS_ERROR("Could not stop',
            '    ct = getControllerByName(controller);\n'
            '    if (ct == nullptr){\n'
            '      if (strictness !=  controller_manager_msgs::SwitchController::Request::BEST_EFFORT || start_controllers.empty()){\n'
            '        ROS_ERROR("Could not stop')],
 'demo': '#include "demo_cm.h"\n'
         'int main() {\n'
         '  Sys s; s.load("a", {"x"}); s.load("b", {"y"}); REQUIRE(s.sw({"a", "b"}, {}, 1)); REQUIRE(s.sw({}, {"q", "a"}, 0)); REQUIRE(!s.c["a"]->isRunning() '
         '&& s.c["b"]->isRunning());\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['controller_manager/src/controller_manager.cpp'],
 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
