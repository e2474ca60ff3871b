BUG = {'id': 'c22-copied-handle',
 'property': 'C22',
 'needs': 'several consecutive enforcements through a limits interface',
 'breaks': 'every enforcement works on a fresh copy of the registered handles, so their history is lost',
 'edits': [('joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h',
            '  void enforceLimits(const ros::Duration& period)\n  {\n    for (auto&& resource_name_and_handle : this->resource_map_)',
            '  void enforceLimits(const ros::Duration& period)\n  {\n    for (auto resource_name_and_handle : this->resource_map_)')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <joint_limits_interface/joint_limits_interface.h>\n'
         'using namespace hardware_interface; using namespace joint_limits_interface;\n'
         'int main() {\n'
         '  double pos = 0, vel = 0, eff = 0, cmd = 0; JointHandle j(JointStateHandle("j", &pos, &vel, &eff), &cmd); JointLimits l; SoftJointLimits s; '
         'l.has_velocity_limits = true; l.max_velocity = 1; PositionJointSaturationInterface i; i.registerHandle(PositionJointSaturationHandle(j, l)); for '
         '(int k = 1; k < 4; ++k) { cmd = 5; i.enforceLimits(ros::Duration(1)); REQUIRE(cmd == k); }\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
