BUG = {'id': 'c20-soft-min-zero',
 'property': 'C20',
 'needs': 'a velocity joint with soft limits that is below its lower soft limit',
 'breaks': 'below the lower soft limit the joint may stay where it is instead of having to return',
 'edits': [('joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h',
            '      min_vel = saturate(-soft_limits_.k_position * (pos - soft_limits_.min_position),\n'
            '                         -max_vel_limit_, max_vel_limit_);',
            '      min_vel = saturate(-soft_limits_.k_position * (pos - soft_limits_.min_position),\n                         -max_vel_limit_, 0.0);')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <joint_limits_interface/joint_limits_interface.h>\n'
         'using namespace hardware_interface; using namespace joint_limits_interface;\n'
         'int main() {\n'
         '  double pos = 0, vel = 0, eff = 0, cmd = 0; JointHandle j(JointStateHandle("j", &pos, &vel, &eff), &cmd); JointLimits l; SoftJointLimits s; '
         'l.has_position_limits = l.has_velocity_limits = true; l.min_position = -2; l.max_position = 2; l.max_velocity = 5; s.min_position = -1; '
         's.max_position = 1; s.k_position = 1; VelocityJointSoftLimitsHandle h(j, l, s); pos = -1.5; cmd = -3; h.enforceLimits(ros::Duration(0.1)); '
         'REQUIRE(std::abs(cmd - 0.5) < 1e-9);\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
