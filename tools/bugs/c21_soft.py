BUG = {'id': 'c21-soft-no-return',
 'property': 'C21',
 'needs': 'an effort joint with soft limits that is beyond its upper soft limit',
 'breaks': 'beyond a soft position limit the joint is not driven back',
 'edits': [('joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h',
            '      soft_max_vel = saturate(-soft_limits_.k_position * (pos - soft_limits_.max_position),\n'
            '                              -limits_.max_velocity,\n'
            '                               limits_.max_velocity);\n'
            '    }\n'
            '    else\n'
            '    {\n'
            '      // No position limits, eg. continuous joints\n'
            '      soft_min_vel = -limits_.max_velocity;\n'
            '      soft_max_vel =  limits_.max_velocity;\n'
            '    }\n'
            '\n'
            '    // Effort bounds',
            '      soft_max_vel = saturate(-soft_limits_.k_position * (pos - soft_limits_.max_position),\n'
            '                               0.0,\n'
            '                               limits_.max_velocity);\n'
            '    }\n'
            '    else\n'
            '    {\n'
            '      // No position limits, eg. continuous joints\n'
            '      soft_min_vel = -limits_.max_velocity;\n'
            '      soft_max_vel =  limits_.max_velocity;\n'
            '    }\n'
            '\n'
            '    // Effort bounds')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <joint_limits_interface/joint_limits_interface.h>\n'
         'using namespace hardware_interface; using namespace joint_limits_interface;\n'
         'int main() {\n'
         '  double pos = 0, vel = 0, eff = 0, cmd = 0; JointHandle j(JointStateHandle("j", &pos, &vel, &eff), &cmd); JointLimits l; SoftJointLimits s; '
         'l.has_velocity_limits = l.has_effort_limits = l.has_position_limits = true; l.max_velocity = 4; l.max_effort = 100; l.min_position = -3; '
         'l.max_position = 3; s.min_position = -1; s.max_position = 1; s.k_position = 2; s.k_velocity = 5; EffortJointSoftLimitsHandle h(j, l, s); pos = 2; '
         'vel = 0; cmd = 5; h.enforceLimits(ros::Duration(1)); REQUIRE(cmd == -10);\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
