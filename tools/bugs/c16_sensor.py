BUG = {'id': 'c16-sensor-swapped',
 'property': 'C16',
 'needs': 'a joint with a torque sensor but no absolute encoder',
 'breaks': 'reading a torque sensor requires an absolute encoder',
 'edits': [('hardware_interface/include/hardware_interface/joint_state_interface.h',
            '  bool hasTorqueSensor()      const {return torque_sensor_;}\n',
            '  bool hasTorqueSensor()      const {return torque_sensor_ && absolute_pos_;}\n')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <hardware_interface/joint_state_interface.h>\n'
         'using namespace hardware_interface;\n'
         'int main() {\n'
         '  double a = 0, t = 3; JointStateHandle h("x", &a, &a, &a, &t, true); REQUIRE(h.hasTorqueSensor() && !h.hasAbsolutePosition()); double v = 0; try { '
         'v = h.getTorqueSensor(); } catch (const std::exception&) {} REQUIRE(v == 3);\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
