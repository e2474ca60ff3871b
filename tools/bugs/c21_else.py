BUG = {'id': 'c21-position-hides-velocity',
 'property': 'C21',
 'needs': 'an effort joint that is beyond a position limit and beyond the velocity limit in the other direction',
 'breaks': 'the velocity limit is not enforced while a position limit is violated',
 'edits': [('joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h',
            '    const double vel = jh_.getVelocity();\n'
            '    if (vel < -limits_.max_velocity)\n'
            '      min_eff = 0.0;\n'
            '    else if (vel > limits_.max_velocity)\n'
            '      max_eff = 0.0;\n',
            '    const double vel = jh_.getVelocity();\n'
            '    if (vel < -limits_.max_velocity)\n'
            '      min_eff = 0.0;\n'
            '    else if (vel > limits_.max_velocity && min_eff < 0.0)\n'
            '      max_eff = 0.0;\n')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <joint_limits_interface/joint_limits_interface.h>\n'
         'using namespace hardware_interface; using namespace joint_limits_interface;\n'
         'int main() {\n'
         '  double pos = 0, vel = 0, eff = 0, cmd = 0; JointHandle j(JointStateHandle("j", &pos, &vel, &eff), &cmd); JointLimits l; SoftJointLimits s; '
         'l.has_velocity_limits = l.has_effort_limits = l.has_position_limits = true; l.max_velocity = 1; l.max_effort = 10; l.min_position = -1; '
         'l.max_position = 1; EffortJointSaturationHandle h(j, l); pos = -2; vel = 3; cmd = 5; h.enforceLimits(ros::Duration(1)); REQUIRE(cmd == 0);\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
