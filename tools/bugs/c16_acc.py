BUG = {'id': 'c16-null-acceleration',
 'property': 'C16',
 'needs': 'a combined handle whose acceleration storage is missing',
 'breaks': 'a position, velocity and acceleration handle accepts a missing acceleration storage',
 'edits': [('hardware_interface/include/hardware_interface/posvelacc_command_interface.h', '    if (!cmd_acc)\n', '    if (!cmd_vel)\n')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <hardware_interface/posvelacc_command_interface.h>\n'
         'using namespace hardware_interface;\n'
         'int main() {\n'
         '  double a = 0; bool threw = false; try { PosVelAccJointHandle(JointStateHandle("x", &a, &a, &a), &a, &a, nullptr); } catch (const '
         'HardwareInterfaceException&) { threw = true; } REQUIRE(threw);\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
