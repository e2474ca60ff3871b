// C11: controller life cycle.
#include "vp.h"
#include <cstring>
#include <memory>
#include <controller_interface/controller.h>
#include <controller_interface/multi_interface_controller.h>
#include <hardware_interface/joint_command_interface.h>
using namespace controller_interface; using namespace hardware_interface;
#ifdef VP_THOROUGH
enum { K = 5 };
#else
enum { K = 4 };
#endif
static bool same(double a, double b) { return !memcmp(&a, &b, 8); }
enum { START, STOP, WAIT, ABORT, UPDATE, NCB };
struct Rec { int n[NCB]; double t[NCB], p; bool ok1, ok2; Rec() { memset(this, 0, sizeof *this); } };
template <class B> struct Ctrl : B, Rec {
  void starting(const ros::Time& t) override { n[START]++; this->t[START] = t.toSec(); } void stopping(const ros::Time& t) override { n[STOP]++; this->t[STOP] = t.toSec(); } void waiting(const ros::Time& t) override { n[WAIT]++; this->t[WAIT] = t.toSec(); } void aborting(const ros::Time& t) override { n[ABORT]++; this->t[ABORT] = t.toSec(); }
  void update(const ros::Time& t, const ros::Duration& d) override { n[UPDATE]++; this->t[UPDATE] = t.toSec(); p = d.toSec(); }
};
struct Single : Ctrl<Controller<EffortJointInterface> > { bool init(EffortJointInterface*, ros::NodeHandle&) override { return ok1; } bool init(EffortJointInterface*, ros::NodeHandle&, ros::NodeHandle&) override { return ok2; } };
struct Multi : Ctrl<MultiInterfaceController<EffortJointInterface, PositionJointInterface> > { bool init(RobotHW*, ros::NodeHandle&) override { return ok1; } bool init(RobotHW*, ros::NodeHandle&, ros::NodeHandle&) override { return ok2; } };
enum { CONSTRUCTED = -1, INIT = 4 }; // otherwise START RUNNING, STOP stopped, ...
static void predicates(ControllerBase& c, int st) {
  VP_CHECK(c.isRunning() == (st == START), "isRunning is wrong"); VP_CHECK(c.isStopped() == (st == STOP), "isStopped is wrong"); VP_CHECK(c.isWaiting() == (st == WAIT), "isWaiting is wrong"); VP_CHECK(c.isAborted() == (st == ABORT), "isAborted is wrong"); VP_CHECK(c.isInitialized() == (st == INIT), "isInitialized is wrong");
}
template <class C> static void run() {
  C own; ControllerBase& c = own; Rec& r = own; RobotHW hw; EffortJointInterface e; PositionJointInterface p; hw.registerInterface(&e); hw.registerInterface(&p); ros::NodeHandle a, b("x"); ControllerBase::ClaimedResources claims;
  r.ok1 = vp_bool("init1"); r.ok2 = vp_bool("init2"); int st = CONSTRUCTED, n = 1 + vp_pick("operations", K);
  predicates(c, st);
  for (int i = 0; i < n; ++i) {
    int op = (int)vp_int("op", 0, 5); Rec before = r; double t = vp_double("time"), d = vp_double("period"); bool res = false; ros::Time time; time.t = t; ros::Duration per; per.d = d;
    if (op == 5) { bool ok = c.initRequest(&hw, a, b, claims); VP_CHECK(ok == (st == CONSTRUCTED && r.ok1 && r.ok2), "initialization must succeed exactly for a freshly constructed controller whose hooks succeed"); if (ok) { st = INIT; vp_reach("initialized"); } }
    else if (op == UPDATE) c.updateRequest(time, per);
    else res = op == START ? c.startRequest(time) : op == STOP ? c.stopRequest(time) : op == WAIT ? c.waitRequest(time) : c.abortRequest(time);
    for (int k = 0; k < NCB; ++k) { bool called = k == op && (k == UPDATE ? st == START : st != CONSTRUCTED); VP_CHECK(r.n[k] == before.n[k] + (called ? 1 : 0), called ? "the callback is not called exactly once" : "a callback is called that was not requested or must not be called");
      if (called) { VP_CHECK(same(r.t[k], t), "the callback gets another time"); if (k == UPDATE) { VP_CHECK(same(r.p, d), "the update callback gets another period"); vp_reach("updated"); } } }
    if (op < UPDATE) { VP_CHECK(res == (st != CONSTRUCTED), "a request must be accepted exactly by an initialized controller"); if (st != CONSTRUCTED) st = op; else vp_reach("refused"); }
    predicates(c, st);
  }
  if (st == ABORT) vp_reach("aborted"); if (st == WAIT) vp_reach("waiting");
}
extern "C" void vp_main() { if (vp_bool("multi")) run<Multi>(); else run<Single>(); }
