BUG = dict(id='c20-prev-raw', property='C20', needs='acceleration limits and two consecutive steps: the first with a command beyond its bounds', breaks='the unsaturated command becomes the reference of the next step, so a joint can jump by more than the acceleration limit allows',
 edits=[('joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h', """    jh_.setCommand(vel_cmd);

    // Cache variables
    prev_cmd_ = jh_.getCommand();
""", """    // Cache variables
    prev_cmd_ = jh_.getCommand();

    jh_.setCommand(vel_cmd);
""")],
 demo=r'''#include <joint_limits_interface/joint_limits_interface.h>
#include <cstdio>
using namespace joint_limits_interface; using namespace hardware_interface;
int main() {
  double p = 0, v = 0, e = 0, c = 0; JointHandle jh(JointStateHandle("j", &p, &v, &e), &c);
  JointLimits l; l.has_velocity_limits = l.has_acceleration_limits = true; l.max_velocity = 10; l.max_acceleration = 1;
  VelocityJointSaturationHandle h(jh, l); double prev = 0;
  for (int i = 0; i < 5; ++i) { c = i % 2 ? -8 : 8; h.enforceLimits(ros::Duration(0.5)); if (std::abs(c - prev) > 0.5 + 1e-9) { printf("step %d: %g -> %g\n", i, prev, c); return 1; } prev = c; }
  return 0;
}
''')
