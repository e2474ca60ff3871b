BUG = {'id': 'c17-same-controller',
 'property': 'C17',
 'needs': 'a controller that claims one resource through two interfaces',
 'breaks': 'a controller that claims a resource twice is not a conflict any more',
 'edits': [('hardware_interface/include/hardware_interface/robot_hw.h',
            '          resource_map[iface_resource].push_back(controller_info);',
            '          if (resource_map[iface_resource].empty() || resource_map[iface_resource].back().name != controller_info.name) '
            '{resource_map[iface_resource].push_back(controller_info);}')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <hardware_interface/robot_hw.h>\n'
         'using namespace hardware_interface;\n'
         'int main() {\n'
         '  RobotHW hw; ControllerInfo c; c.name = "c"; InterfaceResources r; r.hardware_interface = "I"; r.resources.insert("x"); '
         'c.claimed_resources.push_back(r); r.hardware_interface = "J"; c.claimed_resources.push_back(r); REQUIRE(hw.checkForConflict({c}));\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
