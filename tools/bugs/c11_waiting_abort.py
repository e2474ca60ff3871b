BUG = dict(id='c11-abort-state', property='C11', needs='an abort request for a controller that is waiting', breaks='a waiting controller that is aborted reports itself as stopped',
 edits=[('controller_interface/include/controller_interface/controller_base.h', """      aborting(time);
      state_ = ControllerState::ABORTED;
""", """      aborting(time);
      state_ = state_ == ControllerState::WAITING ? ControllerState::STOPPED : ControllerState::ABORTED;
""")],
 demo=r'''#include <controller_interface/controller.h>
#include <hardware_interface/joint_command_interface.h>
struct C : controller_interface::Controller<hardware_interface::EffortJointInterface> { void update(const ros::Time&, const ros::Duration&) {} using controller_interface::Controller<hardware_interface::EffortJointInterface>::initRequest; };
int main() {
  hardware_interface::RobotHW r; hardware_interface::EffortJointInterface e; r.registerInterface(&e); C c; ros::NodeHandle n; controller_interface::ControllerBase::ClaimedResources cl; if (!c.initRequest(&r, n, n, cl)) return 4;
  c.waitRequest(ros::Time(1)); c.abortRequest(ros::Time(2)); return c.isAborted() && !c.isStopped() ? 0 : 1;
}
''')
