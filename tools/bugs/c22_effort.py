BUG = {'id': 'c22-effort-unchecked',
 'property': 'C22',
 'needs': 'an effort handle with soft limits for a joint without effort limits',
 'breaks': 'an effort handle with soft limits accepts a joint without effort limits',
 'edits': [('joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h',
            '    if (!limits.has_effort_limits)\n'
            '    {\n'
            '      throw JointLimitsInterfaceException("Cannot enforce limits for joint \'" + getName() +\n'
            '                                           "\'. It has no effort limits',
            '    if (!limits.has_velocity_limits)\n'
            '    {\n'
            '      throw JointLimitsInterfaceException("Cannot enforce limits for joint \'" + getName() +\n'
            '                                           "\'. It has no effort limits')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <joint_limits_interface/joint_limits_interface.h>\n'
         'using namespace hardware_interface; using namespace joint_limits_interface;\n'
         'int main() {\n'
         '  double pos = 0, vel = 0, eff = 0, cmd = 0; JointHandle j(JointStateHandle("j", &pos, &vel, &eff), &cmd); JointLimits l; SoftJointLimits s; '
         'l.has_velocity_limits = true; bool threw = false; try { EffortJointSoftLimitsHandle h(j, l, s); } catch (const JointLimitsInterfaceException&) { '
         'threw = true; } REQUIRE(threw);\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
