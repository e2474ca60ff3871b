// C07: a request that gives up waiting for the update thread is not carried out later, and the next request is served.
#define NC 2
#include "cm.h"
static MockHW* hw; static ControllerManager* cm; static MockController* ct[NC];
struct Loader : controller_manager::ControllerLoaderInterface { int next; Loader() : ControllerLoaderInterface("L"), next(0) {}
  ControllerBaseSharedPtr createInstance(const std::string&) override { MockController* c = new MockController(); c->id = next; c->claims = claim('I', (char)('x' + next)); ct[next++] = c; return ControllerBaseSharedPtr(c); }
  std::vector<std::string> getDeclaredClasses() override { return std::vector<std::string>(1, "T"); } void reload() override {} };
static double wall; static double wallClock() { return wall; } static int cyclesLeft, done, sleeps; static bool stuck;
static void onSleep() {
  if (++sleeps > 12) { VP_CHECK(!stuck, "a request with a timeout waits forever although no update cycle runs"); VP_CHECK(false, "a request is not completed although update cycles run"); vp_end(); }
  if (cyclesLeft > 0) { --cyclesLeft; ++done; cm->update(ros::Time(100 + done), ros::Duration(0.5)); return; }
  if (stuck) wall += 30; else cm->update(ros::Time(200 + sleeps), ros::Duration(0.5));
}
extern "C" void vp_main() {
  vp_sleep_hook = onSleep; vp_clock_hook = wallClock; wall = 1000; ros_stub::now() = 100; MockHW h; hw = &h; for (int i = 0; i < NC; ++i) { ros_stub::setString("/" + nm(i) + "/type", "T"); h.claims[i] = claim('I', (char)('x' + i)); }
  ControllerManager m(&h, ros::NodeHandle("")); cm = &m; m.registerControllerLoader(controller_manager::ControllerLoaderInterfaceSharedPtr(new Loader())); for (int i = 0; i < NC; ++i) if (!m.loadController(nm(i))) vp_end();
  ct[0]->startRequest(ros::Time(50)); if (vp_bool("cycle_before")) m.update(ros::Time(99), ros::Duration(0.5)); ev.n = 0;
  // the update thread runs a few cycles (the hardware is still switching), then stops
  stuck = true; cyclesLeft = vp_pick("cycles", 3); h.all = 1; h.each[0] = h.each[1] = 1; bool asap = vp_bool("asap"), stop = vp_bool("stop"); std::vector<std::string> a(1, nm(1)), b; if (stop) b.push_back(nm(0));
  bool ok = m.switchController(a, b, (int)vp_int("strictness", 0, 2), asap, 5.0); VP_CHECK(!ok, "a request that could not be completed is reported as successful"); if (ok) vp_end();
  bool began = done > 0; VP_CHECK(ev.total(DOSWITCH) == (began ? 1 : 0), "the hardware is not told exactly once to switch"); VP_CHECK(!ct[1]->isRunning(), "a controller is started although the hardware is still switching"); VP_CHECK(ct[0]->isRunning() == !(stop && began), "a controller is in the wrong state after the request gave up");
  // the update thread runs again: nothing of the abandoned request happens any more
  int mark = ev.n; bool r0 = ct[0]->isRunning(); h.all = vp_pick("later", 3); h.each[0] = h.each[1] = h.all; m.update(ros::Time(150), ros::Duration(0.5)); m.update(ros::Time(151), ros::Duration(0.5));
  VP_CHECK(ev.total(DOSWITCH, mark) == 0, "the hardware performs the switch of a request that was reported as failed"); VP_CHECK(!ct[1]->isRunning() && ct[0]->isRunning() == r0 && !ev.total(START, mark) && !ev.total(STOP, mark), "an abandoned request is carried out later");
  vp_reach(began ? "gave up while waiting" : "gave up before");
  // the next request is served normally
  stuck = false; sleeps = 0; h.all = 0; h.each[0] = h.each[1] = 0; mark = ev.n; bool ok2 = m.switchController(a, std::vector<std::string>(), 2, vp_bool("asap"), vp_bool("timeout") ? 5.0 : 0.0);
  VP_CHECK(ok2 && ct[1]->isRunning() && ev.count(START, 1, mark) == 1 && ev.total(DOSWITCH, mark) == 1 && ct[0]->isRunning() == r0 && !ev.count(START, 0, mark), "the request after an abandoned one is not served"); vp_reach("next");
}
