// C10: reloading the controller libraries.  C09: listing the controller types; the switch service.
#define NC 3
#include "cm.h"
static MockHW* hw; static ControllerManager* cm; static MockController* ct[NC];
struct Loader : controller_manager::ControllerLoaderInterface {
  int id; static int next; std::vector<std::string> types; Loader(const std::string& n, int i) : ControllerLoaderInterface(n), id(i) {}
  ControllerBaseSharedPtr createInstance(const std::string&) override { MockController* c = new MockController(); c->id = next; c->claims = claim('I', 'x' + next); ct[next++] = c; return ControllerBaseSharedPtr(c); }
  std::vector<std::string> getDeclaredClasses() override { return types; } void reload() override { ev.add(RELOAD, id); }
};
int Loader::next = 0;
static int sleeps; static void onSleep() { if (++sleeps > 20) { VP_CHECK(false, "an operation does not complete although update cycles run"); vp_end(); } if (sleeps > 2) hw->all = 0; cm->update(ros::Time(100 + sleeps), ros::Duration(0.5)); }
extern "C" void vp_main() {
  vp_sleep_hook = onSleep; ros_stub::now() = 100; MockHW h; hw = &h; for (int i = 0; i < NC; ++i) { ros_stub::setString("/" + nm(i) + "/type", "T"); h.claims[i] = claim('I', 'x' + i); }
  int before = pluginlib_stub::loadersCreated(); ControllerManager m(&h, ros::NodeHandle("")); cm = &m; int nl = 1 + vp_pick("loaders", 2); std::vector<Loader*> ls;
  for (int i = 0; i < nl; ++i) { Loader* l = new Loader(std::string(1, (char)('L' + i)), i); if (i == 0) l->types.push_back("T"); ls.push_back(l); m.registerControllerLoader(controller_manager::ControllerLoaderInterfaceSharedPtr(l)); }
  int n = vp_pick("controllers", NC + 1); bool running[NC] = {false, false, false}; for (int i = 0; i < n; ++i) { if (!m.loadController(nm(i))) vp_end(); running[i] = vp_bool("running"); if (running[i]) ct[i]->startRequest(ros::Time(50)); else { int s = vp_pick("state", 3); if (s == 1) ct[i]->waitRequest(ros::Time(50)); if (s == 2) ct[i]->abortRequest(ros::Time(50)); } }
  if (vp_bool("cycle_before")) m.update(ros::Time(99), ros::Duration(0.5));
  int created = pluginlib_stub::loadersCreated() - before; ev.n = 0; bool force = vp_bool("force"); h.prepareOk = n == 0 || vp_bool("prepare"); h.all = vp_pick("result", 3); 
  controller_manager_msgs::ReloadControllerLibraries s; s.request.force_kill = force; s.response.ok = 2; bool called = ros_stub::call("/controller_manager/reload_controller_libraries", s), ok = s.response.ok;
  VP_CHECK(called, "the reload service fails"); int reloads = pluginlib_stub::loadersCreated() - before - created; bool done = n == 0 || (force && h.prepareOk);
  VP_CHECK(ok == done, done ? "a reload that is possible is refused" : "a reload that must be refused is reported as done");
  if (done) {
    for (int i = 0; i < nl; ++i) VP_CHECK(ev.count(RELOAD, i) == 1, "a loader is not reloaded exactly once"); VP_CHECK(reloads == 1, "the default loader is not reloaded exactly once"); int f = ev.first(RELOAD);
    for (int i = 0; i < n; ++i) { int d = -1, st = 0; for (int j = 0; j < ev.n; ++j) if (ev.e[j].who == i) { if (ev.e[j].kind == DESTROY) { VP_CHECK(d < 0, "destroyed twice"); d = j; } if (ev.e[j].kind == STOP) { ++st; VP_CHECK(d < 0, "a controller is stopped after it was destroyed"); } VP_CHECK(ev.e[j].kind != START, "a reload starts a controller"); }
      VP_CHECK(d >= 0 && (f < 0 || d < f), "a controller is not unloaded before the libraries are reloaded"); VP_CHECK(running[i] ? st == 1 : st == 0, running[i] ? "a running controller is not stopped exactly once before it is killed" : "a controller that is not running is stopped"); VP_CHECK(m.getControllerByName(nm(i)) == 0, "a controller is still loaded after the reload"); }
    vp_reach(n ? "killed" : "reloaded");
    // still works afterwards
    for (int i = 0; i < NC; ++i) ct[i] = 0; Loader::next = 0; VP_CHECK(m.loadController(nm(0)) && ct[0] && m.getControllerByName(nm(0)) == ct[0], "no controller can be loaded after the reload");
  } else {
    VP_CHECK(ev.total(RELOAD) == 0 && reloads == 0, "a refused or failed reload reloads a library"); for (int i = 0; i < n; ++i) VP_CHECK(m.getControllerByName(nm(i)) == ct[i] && ct[i]->isRunning() == running[i] && !ev.count(STOP, i) && !ev.count(DESTROY, i), "a refused reload changes a controller"); vp_reach(force ? "kill failed" : "refused");
  }
}
