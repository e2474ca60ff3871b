// C09: listing the controller types, the default loader, and the switch service.
#define NC 2
#include "cm.h"
static MockHW* hw; static ControllerManager* cm;
struct Loader : controller_manager::ControllerLoaderInterface { std::vector<std::string> types; Loader(const std::string& n) : ControllerLoaderInterface(n) {} ControllerBaseSharedPtr createInstance(const std::string&) override { return ControllerBaseSharedPtr(); } std::vector<std::string> getDeclaredClasses() override { return types; } void reload() override {} };
static MockController* made[2]; static int nmade; static ControllerBase* make() { MockController* c = new MockController(); c->id = nmade; c->claims = claim('I', 'x' + nmade); made[nmade++] = c; return c; }
static int sleeps, later; static bool switching, elapse; static double late; static void onSleep() { if (++sleeps > 20) { VP_CHECK(false, "an operation does not complete although update cycles run"); vp_end(); } if (switching && sleeps == 2) { if (elapse) late = 100; else { if (hw->all == 1) hw->all = later; if (hw->each[0] == 1) hw->each[0] = later; } } cm->update(ros::Time(100 + sleeps + late), ros::Duration(0.5)); }
extern "C" void vp_main() {
  vp_sleep_hook = onSleep; ros_stub::now() = 100; MockHW h; hw = &h; std::vector<std::string> types, bases; int nd = vp_pick("default_types", 3); std::string base = "controller_interface::ControllerBase";
  for (int i = 0; i < nd; ++i) { std::string t(1, (char)vp_int("type", 'P', 'R')); if (i && t == types[0]) vp_end(); pluginlib_stub::add<ControllerBase>(t, base, make); types.push_back(t); bases.push_back(base); }
  pluginlib_stub::add<ControllerBase>("Z", "other::Base", make);
  ControllerManager m(&h, ros::NodeHandle("")); cm = &m; int nl = vp_pick("loaders", 3);
  for (int i = 0; i < nl; ++i) { Loader* l = new Loader(std::string(1, (char)vp_int("base", 'K', 'L'))); int n = vp_pick("types", 3); for (int k = 0; k < n; ++k) { l->types.push_back(std::string(1, (char)vp_int("type", 'P', 'R'))); types.push_back(l->types.back()); bases.push_back(l->getName()); } m.registerControllerLoader(controller_manager::ControllerLoaderInterfaceSharedPtr(l)); }
  controller_manager_msgs::ListControllerTypes s; VP_CHECK(ros_stub::call("/controller_manager/list_controller_types", s), "the type listing fails");
  VP_CHECK(s.response.types.size() == types.size() && s.response.base_classes.size() == bases.size(), "the type listing does not have exactly the declared types"); if (s.response.types.size() != types.size() || s.response.base_classes.size() != bases.size()) vp_end();
  for (size_t i = 0; i < types.size(); ++i) { VP_CHECK(s.response.types[i] == types[i], "a listed type was not declared at that place"); VP_CHECK(s.response.base_classes[i] == bases[i], "a listed type has another base class"); }
  vp_reach("types"); if (nd == 0 || nl > 0) vp_end();
  // load through the default loader, switch through the service
  ros_stub::setString("/" + nm(0) + "/type", types[0]); controller_manager_msgs::LoadController l; l.request.name = nm(0); VP_CHECK(ros_stub::call("/controller_manager/load_controller", l) && l.response.ok && nmade == 1 && m.getControllerByName(nm(0)) == made[0], "a controller of a plugin type cannot be loaded"); if (nmade != 1) vp_end();
  h.claims[0] = claim('I', 'x'); h.prepareOk = vp_bool("prepare"); bool start = vp_bool("start"), known = vp_bool("known"), asap = vp_bool("asap"), timeout = vp_bool("timeout"); h.all = vp_pick("result", 3); h.each[0] = vp_pick("result", 3); later = vp_pick("later", 3); if (later == 1) later = 0; elapse = timeout && vp_bool("elapse"); if (!start) made[0]->startRequest(ros::Time(50));
  int all = h.all, r = asap ? h.each[0] : h.all; if (r == 1) { if (elapse) r = 2; else r = later; } ev.n = 0; sleeps = 0; switching = true; ros_stub::now() = 100;
  controller_manager_msgs::SwitchController w; (start ? w.request.start_controllers : w.request.stop_controllers).push_back(known ? nm(0) : nm(1)); int strict = (int)vp_int("strictness", 0, 2); w.request.strictness = strict; w.request.start_asap = asap; w.request.timeout = timeout ? 50 : 0; w.response.ok = 2;
  bool called = ros_stub::call("/controller_manager/switch_controller", w); VP_CHECK(called, "the switch service fails"); bool expect = h.prepareOk && (known || strict != 2); if (expect && !(start && known) && !asap && all) vp_end(); VP_CHECK((w.response.ok != 0) == expect, "the switch service does not answer with the result of the switch");
  VP_CHECK(made[0]->isRunning() == (start ? known && expect && r == 0 : !(known && expect)), "the switch service does not perform the switch"); VP_CHECK(!(start && known && expect) || r != 2 || made[0]->isAborted(), "the switch service does not abort the switch"); vp_reach(expect ? "switched" : "not switched");
  if (expect && start && known && elapse && (asap ? h.each[0] : h.all) == 1) vp_reach("elapsed");
}
