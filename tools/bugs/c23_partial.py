BUG = dict(id='c23-partial-position', property='C23', needs='has_position_limits true, min_position given, max_position missing, and previous limits', breaks='an incomplete position specification overwrites the previous minimum',
 edits=[('joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h', """    double min_pos, max_pos;
    if (has_position_limits && limits_nh.getParam("min_position", min_pos) && limits_nh.getParam("max_position", max_pos))
    {
      limits.has_position_limits = true;
      limits.min_position = min_pos;
      limits.max_position = max_pos;
    }
""", """    if (has_position_limits && limits_nh.getParam("min_position", limits.min_position) && limits_nh.getParam("max_position", limits.max_position))
    {
      limits.has_position_limits = true;
    }
""")],
 demo=r'''#include <joint_limits_interface/joint_limits.h>
#include <joint_limits_interface/joint_limits_rosparam.h>
int main() {
  ros_stub::setBool("/r/joint_limits/j/has_position_limits", true); ros_stub::setDouble("/r/joint_limits/j/min_position", -9);
  joint_limits_interface::JointLimits l; l.has_position_limits = true; l.min_position = -1; l.max_position = 1;
  joint_limits_interface::getJointLimits("j", ros::NodeHandle("/r"), l); return l.has_position_limits && l.min_position == -1 && l.max_position == 1 ? 0 : 1;
}
''')
