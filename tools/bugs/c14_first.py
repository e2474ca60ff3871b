BUG = {'id': 'c14-claim-unknown',
 'property': 'C14',
 'needs': 'a lookup of an unknown resource, and a look at the claims afterwards',
 'breaks': 'a failed lookup claims the resource that does not exist',
 'edits': [('hardware_interface/include/hardware_interface/internal/hardware_resource_manager.h',
            '      ResourceHandle out = this->ResourceManager<ResourceHandle>::getHandle(name);\n'
            '\n'
            "      // If ClaimPolicy type is ClaimResources, the below method claims resources, for DontClaimResources it's a no-op\n"
            '      ClaimPolicy::claim(this, name);\n'
            '\n'
            '      return out;\n',
            "      // If ClaimPolicy type is ClaimResources, the below method claims resources, for DontClaimResources it's a no-op\n"
            '      ClaimPolicy::claim(this, name);\n'
            '\n'
            '      return this->ResourceManager<ResourceHandle>::getHandle(name);\n')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <hardware_interface/joint_command_interface.h>\n'
         'using namespace hardware_interface;\n'
         'int main() {\n'
         '  double a = 0; PositionJointInterface p; p.registerHandle(JointHandle(JointStateHandle("x", &a, &a, &a), &a)); try { p.getHandle("q"); return 1; } '
         'catch (const HardwareInterfaceException&) {} REQUIRE(p.getClaims().empty()); p.getHandle("x"); REQUIRE(p.getClaims() == '
         'std::set<std::string>{"x"});\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
