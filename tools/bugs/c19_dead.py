BUG = {'id': 'c19-cached-late',
 'property': 'C19',
 'needs': 'a command that needs no saturation follows one that does',
 'breaks': 'the reference for the velocity bound is only updated when a command was saturated',
 'edits': [('joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h',
            '    const double cmd = internal::saturate(jh_.getCommand(), min_pos, max_pos);\n    jh_.setCommand(cmd);\n    prev_cmd_ = cmd;\n',
            '    const double raw_cmd = jh_.getCommand();\n'
            '    const double cmd = internal::saturate(raw_cmd, min_pos, max_pos);\n'
            '    if (cmd != raw_cmd)\n'
            '    {\n'
            '      jh_.setCommand(cmd);\n'
            '      prev_cmd_ = cmd;\n'
            '    }\n')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <joint_limits_interface/joint_limits_interface.h>\n'
         'using namespace hardware_interface; using namespace joint_limits_interface;\n'
         'int main() {\n'
         '  double pos = 0, vel = 0, eff = 0, cmd = 0; JointHandle j(JointStateHandle("j", &pos, &vel, &eff), &cmd); JointLimits l; SoftJointLimits s; '
         'l.has_velocity_limits = true; l.max_velocity = 1; PositionJointSaturationHandle h(j, l); cmd = 5; h.enforceLimits(ros::Duration(1)); REQUIRE(cmd == '
         '1); cmd = 0.5; h.enforceLimits(ros::Duration(1)); REQUIRE(cmd == 0.5); cmd = 5; h.enforceLimits(ros::Duration(1)); REQUIRE(cmd == 1.5);\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
