BUG = {'id': 'c19-first-step',
 'property': 'C19',
 'needs': 'the first step after construction or a reset',
 'breaks': 'the first command is not bounded by the velocity limit from the measured position',
 'edits': [('joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h',
            '    if (std::isnan(prev_cmd_)) {prev_cmd_ = jh_.getPosition();} // Happens only once at initialization\n',
            '    if (std::isnan(prev_cmd_)) {prev_cmd_ = std::isnan(jh_.getCommand()) ? jh_.getPosition() : jh_.getCommand();} // Happens only once at '
            'initialization\n')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <joint_limits_interface/joint_limits_interface.h>\n'
         'using namespace hardware_interface; using namespace joint_limits_interface;\n'
         'int main() {\n'
         '  double pos = 0, vel = 0, eff = 0, cmd = 0; JointHandle j(JointStateHandle("j", &pos, &vel, &eff), &cmd); JointLimits l; SoftJointLimits s; '
         'l.has_velocity_limits = true; l.max_velocity = 1; PositionJointSoftLimitsHandle h(j, l, s); cmd = 5; h.enforceLimits(ros::Duration(0.1)); '
         'REQUIRE(std::abs(cmd - 0.1) < 1e-9);\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
