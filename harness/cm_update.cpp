// C05: the update cycle drives exactly the running controllers.
#define NC 4
#include "cm.h"
enum { INITIALIZED, RUNNING, STOPPED, WAITING, ABORTED };
static MockHW* hw; static ControllerManager* cm; static MockController* ct[NC]; static int gone = -1;
struct Loader : controller_manager::ControllerLoaderInterface {
  int next; Loader() : ControllerLoaderInterface("L"), next(0) {}
  ControllerBaseSharedPtr createInstance(const std::string&) override { MockController* c = new MockController(); c->id = next; ct[next++] = c; return ControllerBaseSharedPtr(c); }
  std::vector<std::string> getDeclaredClasses() override { return std::vector<std::string>(1, "T"); } void reload() override {}
};
static bool same(double a, double b) { return !memcmp(&a, &b, 8); }
static void cycle(bool pending) {
  double t = vp_double("time"), p = vp_double("period"); bool reset = vp_bool("reset"); int mark = ev.n, pos = -1; bool running[NC]; for (int i = 0; i < NC; ++i) running[i] = ct[i] && i != gone && ct[i]->isRunning();
  ros::Time time; time.t = t; ros::Duration per; per.d = p; cm->update(time, per, reset);
  for (int i = 0; i < NC; ++i) { if (!ct[i] || i == gone) { for (int j = mark; j < ev.n; ++j) VP_CHECK(ev.e[j].who != i || ev.e[j].kind > UPDATE, "a controller that is not loaded is called"); continue; }
    Event own[8]; int n = 0, at = -1; for (int j = mark; j < ev.n && n < 8; ++j) if (ev.e[j].who == i && ev.e[j].kind <= UPDATE) { if (ev.e[j].kind == UPDATE) at = j; own[n++] = ev.e[j]; }
    VP_CHECK(ev.count(UPDATE, i, mark) == (running[i] ? 1 : 0), running[i] ? "a running controller is not updated exactly once" : "a controller that is not running is updated");
    if (running[i]) {
      int base = reset ? 2 : 0; VP_CHECK(n > base && own[base].kind == UPDATE, reset ? "a running controller is not restarted exactly once before its update on a reset" : "a running controller is called before its update");
      if (reset) VP_CHECK(n > 1 && own[0].kind == STOP && own[1].kind == START && same(own[0].time, t) && same(own[1].time, t), "a reset does not stop and then start a running controller");
      if (n > base) VP_CHECK(same(own[base].time, t) && same(own[base].period, p), "an update gets another time or period"); VP_CHECK(at > pos, "controllers are updated out of loading order"); pos = at;
      if (!pending) VP_CHECK(n == base + 1 && ct[i]->isRunning(), "a running controller is called again after its update, or stopped"); vp_reach(reset ? "reset" : "updated");
    } else if (!pending) VP_CHECK(n == 0, "a controller that is not running is called");
  }
}
static bool pendingCall; static void onSleep() { cycle(pendingCall); }
extern "C" void vp_main() {
  vp_sleep_hook = onSleep; ros_stub::now() = 100; MockHW h; hw = &h; for (int i = 0; i < NC; ++i) ros_stub::setString("/" + nm(i) + "/type", "T");
  ControllerManager m(&h, ros::NodeHandle("")); cm = &m; m.registerControllerLoader(controller_manager::ControllerLoaderInterfaceSharedPtr(new Loader()));
  int n = vp_pick("controllers", NC); for (int i = 0; i < n; ++i) if (!m.loadController(nm(i))) vp_end();
  for (int i = 0; i < n; ++i) { int s = vp_pick("state", 5); ros::Time t(50); if (s == RUNNING) ct[i]->startRequest(t); if (s == STOPPED) ct[i]->stopRequest(t); if (s == WAITING) ct[i]->waitRequest(t); if (s == ABORTED) ct[i]->abortRequest(t); }
  ev.n = 0; cycle(false);
  int what = vp_pick("change", 4), who = n ? vp_pick("who", n) : 0;
  if (what == 1 && n && !ct[who]->isRunning()) { if (!m.unloadController(nm(who))) vp_end(); gone = who; vp_reach("unloaded"); }
  if (what == 2 && n < NC) { if (!m.loadController(nm(n))) vp_end(); ct[n]->startRequest(ros::Time(60)); vp_reach("loaded"); }
  if (what == 3 && n) { pendingCall = true; std::vector<std::string> a, b; (ct[who]->isRunning() ? b : a).push_back(nm(who)); m.switchController(a, b, 2, vp_bool("asap"), 0.0); pendingCall = false; vp_reach("switched"); }
  ev.n = 0; cycle(false);
}
