// C08: the update thread runs concurrently with service calls; the scheduler's decisions are symbolic.
#define NC 3
#ifndef RESET
#define RESET 0
#endif
#ifndef ROUNDS
#define ROUNDS 5
#endif
#include "cm.h"
#include "vp_sched.h"
enum { INITIALIZED, RUNNING, STOPPED, WAITING, ABORTED };
static MockHW* hw; static ControllerManager* cm; static bool alive[NC + 1], resetting;
struct ConcController : MockController { ~ConcController() override { if (id >= 0 && id < NC) alive[id] = false; } void update(const ros::Time& t, const ros::Duration& d) override { VP_CHECK(id >= 0 && id < NC && alive[id], "a destroyed controller is updated"); MockController::update(t, d); sched::callback(); }
  void starting(const ros::Time& t) override { MockController::starting(t); VP_CHECK(id >= 0 && id < NC && alive[id], "a destroyed controller is started"); if (SCENARIO == 7 || resetting) sched::callback(); } };
static MockController* ct[NC]; static int reloads;
struct Loader : controller_manager::ControllerLoaderInterface { int next; Loader() : ControllerLoaderInterface("L"), next(0) {}
  ControllerBaseSharedPtr createInstance(const std::string&) override { MockController* c = new ConcController(); c->id = next; c->claims = claim('I', (char)('x' + next)); alive[next] = true; ct[next++] = c; return ControllerBaseSharedPtr(c); }
  std::vector<std::string> getDeclaredClasses() override { return std::vector<std::string>(1, "T"); } void reload() override { ++reloads; for (int i = 0; i < NC; ++i) VP_CHECK(!alive[i], "a library is reloaded while a controller from it exists"); } };
static int servicesLeft, cycles;
static void cycle() {
  bool was[NC]; int mark = ev.n, pos = -1; for (int i = 0; i < NC; ++i) was[i] = alive[i] && ct[i]->isRunning();
  resetting = RESET && cycles <= 1 && vp_bool("reset"); cm->update(ros::Time(100 + cycles), ros::Duration(0.5), resetting); resetting = false; ++cycles;
  for (int i = 0; i < NC; ++i) { int n = ev.count(UPDATE, i, mark); VP_CHECK(n == (was[i] ? 1 : 0), n ? "a controller that is not running, or was already updated, is updated" : "a running controller is not updated in a cycle that runs during a service call"); int f = ev.first(UPDATE, mark); (void)f; for (int j = mark; j < ev.n; ++j) if (ev.e[j].kind == UPDATE && ev.e[j].who == i) { VP_CHECK(j > pos, "controllers are updated out of order"); pos = j; } }
}
static bool down; // ROS is shutting down
#ifdef SHUTDOWN
static bool rosOk() { if (!down && sched::on && sched::current != sched::rt && vp_bool("shutdown")) down = true; return !down; }
static void rtThread() { int n = 0; while (servicesLeft > 0 && !down && n < 30) { cycle(); vp_co_yield(); ++n; } if (vp_bool("last_cycle")) cycle(); } // the robot's main loop ends with ROS
#else
static bool rosOk() { return true; }
static void rtThread() { int n = 0; while (servicesLeft > 0 && n < 30) { cycle(); vp_co_yield(); ++n; } cycle(); }
#endif
static void onSleep() { vp_co_yield(); }
static double wallClock() { return 1000 + 500.0 * sched::stalls; } // a pause of the update thread may be arbitrarily long
static int scenario; static bool ok1, ok2, gaveUp;
static bool sw(const char* start, const char* stop, bool service) { std::vector<std::string> a, b; if (*start) a.push_back(start); if (*stop) b.push_back(stop);
  if (!service) return cm->switchController(a, b, 2); controller_manager_msgs::SwitchController s; s.request.start_controllers = a; s.request.stop_controllers = b; s.request.strictness = 2; s.request.start_asap = false; s.request.timeout = 0; ros_stub::call("/controller_manager/switch_controller", s); return s.response.ok; }
static void service1() {
  switch (scenario) {
    case 0: ok1 = cm->unloadController(nm(1)); break;
    case 1: ok1 = cm->loadController(nm(2)); break;
    case 2: ok1 = sw(NM[1], NM[0], true); break;
    case 3: { controller_manager_msgs::ListControllers s; ros_stub::call("/controller_manager/list_controllers", s); ok1 = s.response.controller.size() == 2 && s.response.controller[0].name == nm(0) && s.response.controller[0].state == "running"; break; }
    case 4: ok1 = cm->unloadController(nm(1)) && cm->loadController(nm(2)); break;
    case 5: ok1 = sw(NM[1], "", true); break; // with a second caller
    case 6: ok1 = cm->unloadController(nm(1)); break;
    case 7: { gaveUp = !cm->switchController(std::vector<std::string>(1, nm(1)), std::vector<std::string>(), 2, vp_bool("asap"), 5.0); ok1 = cm->switchController(std::vector<std::string>(1, nm(0)), std::vector<std::string>(), 2); break; } // the first may give up
    case 8: case 9: { controller_manager_msgs::ReloadControllerLibraries s; s.request.force_kill = true; s.response.ok = false; ros_stub::call("/controller_manager/reload_controller_libraries", s); ok1 = s.response.ok; break; }
  }
  --servicesLeft;
}
static void service2() { if (scenario == 5) ok2 = sw("", NM[0], false); if (scenario == 6 || scenario == 9) ok2 = cm->loadController(nm(2)); --servicesLeft; }
extern "C" void vp_main() {
  vp_sleep_hook = onSleep; vp_clock_hook = wallClock; ros_stub::okHook() = rosOk; sched::rounds = ROUNDS; ros_stub::now() = 100; MockHW h; hw = &h; for (int i = 0; i < NC; ++i) { ros_stub::setString("/" + nm(i) + "/type", "T"); h.claims[i] = claim('I', (char)('x' + i)); }
  ControllerManager m(&h, ros::NodeHandle("")); cm = &m; Loader* l = new Loader(); m.registerControllerLoader(controller_manager::ControllerLoaderInterfaceSharedPtr(l));
  if (!m.loadController(nm(0)) || !m.loadController(nm(1))) vp_end(); scenario = SCENARIO; bool ran = vp_bool("update_before");
  if ((ran && scenario != 7) || scenario == 2 || scenario == 3 || scenario == 5) ct[0]->startRequest(ros::Time(50)); if (ran) cycle(); ev.n = 0;
  sched::lo = (const char*)&m; sched::hi = sched::lo + sizeof m; sched::budget = BUDGET; bool two = scenario == 5 || scenario == 6 || scenario == 9; servicesLeft = two ? 2 : 1; sched::rt = sched::add(rtThread); sched::add(service1); if (two) sched::add(service2);
  sched::run(vp_pick("first", sched::nth));
#ifdef SHUTDOWN
  if (down) { bool a1 = m.getControllerByName(nm(1)) != 0, a2 = m.getControllerByName(nm(2)) != 0; // calls may fail, but must not claim what they did not do
    VP_CHECK(m.getControllerByName(nm(0)) == ct[0], "a controller is lost when ROS shuts down during a call");
    if (scenario == 0 && ok1) VP_CHECK(!a1 && !alive[1], "an unloaded controller is not destroyed when the call returns"); if (scenario == 1 && ok1) VP_CHECK(a2, "the loaded controllers are wrong after concurrent calls");
    if (scenario == 2 && ok1) VP_CHECK(ct[1]->isRunning() && !ct[0]->isRunning(), "a switch that was reported as successful is not carried out exactly once");
    vp_reach("shut down"); vp_end(); }
#endif
  VP_CHECK(ok1, "a service call fails because an update cycle runs at the same time"); if (two) VP_CHECK(ok2, "a service call fails because another one runs at the same time");
  if (scenario >= 8) { VP_CHECK(reloads == 1, "a loader is not reloaded exactly once"); for (int i = 0; i < NC; ++i) VP_CHECK((m.getControllerByName(nm(i)) != 0) == alive[i] && (i == 2 || !alive[i]), i == 2 ? "a controller loaded during a reload is lost" : "a controller survives a forced reload"); vp_reach("done"); if (alive[2]) vp_reach("loaded after"); vp_end(); }
  bool b = scenario == 0 || scenario == 4 || scenario == 6, c = scenario == 1 || scenario == 4 || scenario == 6; VP_CHECK(m.getControllerByName(nm(0)) == ct[0] && (m.getControllerByName(nm(1)) != 0) == !b && (m.getControllerByName(nm(2)) != 0) == c, "the loaded controllers are wrong after concurrent calls"); VP_CHECK(alive[1] == !b, "an unloaded controller is not destroyed when the call returns");
  if (scenario == 2 || scenario == 5) { VP_CHECK(ct[1]->isRunning() && !ct[0]->isRunning() && ev.count(START, 1) == 1 && ev.count(STOP, 0) == 1 && !ev.count(START, 0) && !ev.count(STOP, 1), "a switch that was reported as successful is not carried out exactly once"); VP_CHECK(ev.total(DOSWITCH) == (scenario == 5 ? 2 : 1), "the hardware does not switch exactly once per request"); }
  if (scenario == 7) { VP_CHECK(ct[0]->isRunning() && ev.count(START, 0) == 1, "a switch that was reported as successful is not carried out exactly once"); VP_CHECK(ev.count(START, 1) <= 1 && (gaveUp || ct[1]->isRunning()), "a switch that was reported as successful is not carried out exactly once"); VP_CHECK(ev.total(DOSWITCH) <= 2 && ev.total(DOSWITCH) >= (gaveUp ? 1 : 2), "the hardware does not switch exactly once per request"); vp_reach(gaveUp ? "gave up" : "in time"); }
  vp_log("points %d cycles %d", sched::points, cycles); vp_reach("done"); if (cycles > 2) vp_reach("overlap");
}
