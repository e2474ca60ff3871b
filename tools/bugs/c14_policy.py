BUG = {'id': 'c14-posvel-shared',
 'property': 'C14',
 'needs': 'a controller that uses the combined position and velocity interface',
 'breaks': 'getting a handle from the combined position and velocity interface does not claim the joint',
 'edits': [('hardware_interface/include/hardware_interface/posvel_command_interface.h',
            'HardwareResourceManager<PosVelJointHandle, ClaimResources>',
            'HardwareResourceManager<PosVelJointHandle>')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <hardware_interface/posvel_command_interface.h>\n'
         'using namespace hardware_interface;\n'
         'int main() {\n'
         '  double a = 0; PosVelJointInterface p; p.registerHandle(PosVelJointHandle(JointStateHandle("x", &a, &a, &a), &a, &a)); p.getHandle("x"); '
         'REQUIRE(p.getClaims() == std::set<std::string>{"x"});\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
