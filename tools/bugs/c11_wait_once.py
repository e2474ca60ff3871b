BUG = dict(id='c11-wait-once', property='C11', needs='a wait request for a controller that is already waiting', breaks='a repeated wait request does not call the waiting callback',
 edits=[('controller_interface/include/controller_interface/controller_base.h', """    if (state_ != ControllerState::CONSTRUCTED)
    {
      waiting(time);
""", """    if (state_ == ControllerState::WAITING)
    {
      return true;
    }
    else if (state_ != ControllerState::CONSTRUCTED)
    {
      waiting(time);
""")],
 demo=r'''#include <controller_interface/controller.h>
#include <hardware_interface/joint_command_interface.h>
struct C : controller_interface::Controller<hardware_interface::EffortJointInterface> { int n = 0; void update(const ros::Time&, const ros::Duration&) {} void waiting(const ros::Time&) { ++n; } using controller_interface::Controller<hardware_interface::EffortJointInterface>::initRequest; };
int main() {
  hardware_interface::RobotHW r; hardware_interface::EffortJointInterface e; r.registerInterface(&e); C c; ros::NodeHandle n; controller_interface::ControllerBase::ClaimedResources cl; if (!c.initRequest(&r, n, n, cl)) return 4;
  c.waitRequest(ros::Time(1)); c.waitRequest(ros::Time(2)); return c.n == 2 ? 0 : 1;
}
''')
