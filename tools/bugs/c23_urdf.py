BUG = {'id': 'c23-acceleration-kept',
 'property': 'C23',
 'needs': 'a URDF joint that is not revolute or prismatic, given limits that had position limits',
 'breaks': 'position limits loaded earlier stay in force for a continuous joint',
 'edits': [('joint_limits_interface/include/joint_limits_interface/joint_limits_urdf.h',
            '  limits.has_position_limits = urdf_joint->type == urdf::Joint::REVOLUTE || urdf_joint->type == urdf::Joint::PRISMATIC;\n'
            '  if (limits.has_position_limits)\n'
            '  {\n',
            '  if (urdf_joint->type == urdf::Joint::REVOLUTE || urdf_joint->type == urdf::Joint::PRISMATIC)\n  {\n    limits.has_position_limits = true;\n')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <joint_limits_interface/joint_limits_urdf.h>\n'
         'using namespace joint_limits_interface;\n'
         'int main() {\n'
         '  auto u = std::make_shared<urdf::Joint>(); u->type = urdf::Joint::CONTINUOUS; u->limits = std::make_shared<urdf::JointLimits>(); JointLimits l; '
         'l.has_position_limits = true; REQUIRE(getJointLimits(u, l)); REQUIRE(!l.has_position_limits);\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
