BUG = {'id': 'c20-acceleration-overrides',
 'property': 'C20',
 'needs': 'a velocity joint with soft and acceleration limits measured faster than its velocity limit',
 'breaks': 'the acceleration limit gives way before the velocity limit only on one side',
 'edits': [('joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h',
            '      min_vel = std::max(vel - limits_.max_acceleration * delta_t, min_vel);\n',
            '      min_vel = vel - limits_.max_acceleration * delta_t;\n')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <joint_limits_interface/joint_limits_interface.h>\n'
         'using namespace hardware_interface; using namespace joint_limits_interface;\n'
         'int main() {\n'
         '  double pos = 0, vel = 0, eff = 0, cmd = 0; JointHandle j(JointStateHandle("j", &pos, &vel, &eff), &cmd); JointLimits l; SoftJointLimits s; '
         'l.has_acceleration_limits = l.has_velocity_limits = true; l.max_velocity = 1; l.max_acceleration = 1; VelocityJointSoftLimitsHandle h(j, l, s); vel '
         '= -0.95; cmd = -3; h.enforceLimits(ros::Duration(0.1)); REQUIRE(std::abs(cmd + 1) < 1e-9);\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
