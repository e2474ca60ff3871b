// C06, C09: loading, unloading and listing controllers.
#define NC 3
#include "cm.h"
#ifdef LIST
#define SRV 1
#else
#define SRV 0
#endif
#ifndef PRELOAD
#define PRELOAD 0 // controllers loaded before the history begins
#endif
#ifdef VP_THOROUGH
enum { K = PRELOAD ? 4 : 5 - SRV };
#else
enum { K = PRELOAD ? 3 : 4 - SRV };
#endif
enum { INITIALIZED, RUNNING, STOPPED, WAITING, ABORTED };
static const char* ST[] = {"initialized", "running", "stopped", "waiting", "aborted"};
static MockHW* hw; static ControllerManager* cm; static int made; static MockController* last; static int nextInit, createMode; static std::vector<InterfaceResources> nextClaims;
struct Loader : controller_manager::ControllerLoaderInterface {
  std::vector<std::string> types; Loader(const char* n, const char* a, const char* b) : ControllerLoaderInterface(n) { types.push_back(a); types.push_back(b); }
  ControllerBaseSharedPtr createInstance(const std::string& t) override {
    bool known = false; for (size_t i = 0; i < types.size(); ++i) known = known || types[i] == t; VP_CHECK(known, "a loader is asked for a type it does not declare");
    if (createMode == 1) throw std::runtime_error("create"); if (createMode == 2) return ControllerBaseSharedPtr(); MockController* c = new MockController(); c->id = made++; c->initResult = nextInit; c->claims = nextClaims; last = c; return ControllerBaseSharedPtr(c); }
  std::vector<std::string> getDeclaredClasses() override { return types; } void reload() override {}
};
struct Entry { std::string name, type; MockController* c; int id, state; std::vector<InterfaceResources> claims; };
static std::vector<Entry> model;
static int find(const std::string& n) { for (size_t i = 0; i < model.size(); ++i) if (model[i].name == n) return (int)i; return -1; }
enum { GOOD = PRELOAD ? 3 : 2 }; // valid names
static const char* const NAMES[] = {"ab", "a", PRELOAD ? "aba" : "!", "!"};
static void compare() {
  for (int k = 0; k <= GOOD; ++k) { int i = find(NAMES[k]); VP_CHECK(cm->getControllerByName(NAMES[k]) == (i < 0 ? (ControllerBase*)0 : model[i].c), "a lookup by name does not give the loaded controller"); }
  controller_manager_msgs::ListControllers s; bool ok = ros_stub::call("/controller_manager/list_controllers", s); VP_CHECK(ok && s.response.controller.size() == model.size(), "the listing does not have exactly the loaded controllers"); if (s.response.controller.size() != model.size()) vp_end();
  for (size_t i = 0; i < model.size(); ++i) {
    const controller_manager_msgs::ControllerState& c = s.response.controller[i]; VP_CHECK(c.name == model[i].name, "the listing is not in loading order"); VP_CHECK(c.type == model[i].type, "a listed controller has another type"); VP_CHECK(c.state == ST[model[i].state], "a listed controller has another state");
    VP_CHECK(c.claimed_resources.size() == model[i].claims.size(), "a listed controller has other claims");
    for (size_t k = 0; k < model[i].claims.size() && k < c.claimed_resources.size(); ++k) { VP_CHECK(c.claimed_resources[k].hardware_interface == model[i].claims[k].hardware_interface && c.claimed_resources[k].resources.size() == model[i].claims[k].resources.size(), "a listed controller has other claims"); for (size_t r = 0; r < c.claimed_resources[k].resources.size(); ++r) VP_CHECK(model[i].claims[k].resources.count(c.claimed_resources[k].resources[r]), "a listed controller has other claims"); }
  }
}
static int failures; static bool service; static int sleeps; static void onSleep() { if (++sleeps > 20) { VP_CHECK(false, "an operation does not complete although update cycles run"); vp_end(); } cm->update(ros::Time(100), ros::Duration(0.5)); }
static void load() {
  static const char* T[] = {"T", "TT", "TTT", 0}; // outcomes: T or TT fine; unknown type; no type; creation throws or gives nothing; initialization fails or throws
  int k = made < PRELOAD ? made : vp_pick("name", GOOD + 1), o = k || made < PRELOAD ? 0 : vp_pick("outcome", SRV ? 2 : 9), t = o < 4 ? o : 0; std::string n = NAMES[k]; bool present = T[t] != 0; createMode = o == 4 ? 1 : o == 5 ? 2 : 0; nextInit = o == 6 ? 0 : o == 7 ? 2 : o == 8 ? 3 : 1; nextClaims.clear();
  int nc = SRV && !PRELOAD ? vp_pick("claims", 3) : 1; for (int i = 0; i < nc; ++i) { InterfaceResources r; r.hardware_interface = i ? "J" : "I"; r.resources.insert(std::string(1, (char)('x' + made % 3))); if (i) r.resources.insert("w"); nextClaims.push_back(r); }
  ros_stub::params().clear(); if (present) ros_stub::setString("/" + n + "/type", T[t]);
  bool expect = k < GOOD && find(n) < 0 && t < 2 && createMode == 0 && nextInit == 1; int before = made, mark = ev.n; last = 0; bool ok, threw = false;
  if (service) { controller_manager_msgs::LoadController s; s.request.name = n; s.response.ok = 2; bool called = false; try { called = ros_stub::call("/controller_manager/load_controller", s); } catch (...) { threw = true; } VP_CHECK(threw || called, "the load service fails"); ok = s.response.ok; }
  else { ok = false; try { ok = cm->loadController(n); } catch (...) { threw = true; } }
  VP_CHECK(!threw, "loading lets an exception escape"); VP_CHECK(ok == expect, expect ? "a controller that can be loaded is refused" : "a controller that cannot be loaded is reported as loaded");
  if (ok) { VP_CHECK(made == before + 1 && ev.count(INITREQ, before, mark) == 1, "the loaded controller is not created and initialized exactly once"); VP_CHECK(ev.total(DESTROY, mark) == 0, "loading destroys a controller"); Entry e = {n, T[t], last, before, INITIALIZED, nextClaims}; if (!last || !expect) vp_end(); model.push_back(e); vp_reach("loaded"); }
  else { if (k < GOOD && find(n) < 0 && ++failures > 1) vp_end(); for (int i = 0; i < before; ++i) VP_CHECK(!ev.count(INITREQ, i, mark) && !ev.count(DESTROY, i, mark), "a failed load touches another controller"); vp_reach(find(n) >= 0 ? "duplicate" : nextInit != 1 ? "init failed" : "not loaded"); }
}
static void unload() {
  int k = vp_pick("name", GOOD + 1); std::string n = NAMES[k]; int i = find(n); bool expect = i >= 0 && model[i].state != RUNNING; int mark = ev.n; bool ok;
  if (service) { controller_manager_msgs::UnloadController s; s.request.name = n; s.response.ok = 2; VP_CHECK(ros_stub::call("/controller_manager/unload_controller", s), "the unload service fails"); ok = s.response.ok; } else ok = cm->unloadController(n);
  VP_CHECK(ok == expect, expect ? "a controller that can be unloaded is refused" : "an unload that must be refused succeeds");
  if (ok && expect) { VP_CHECK(ev.count(DESTROY, model[i].id, mark) == 1 && ev.total(DESTROY, mark) == 1, "unloading does not destroy exactly the unloaded controller"); model.erase(model.begin() + i); vp_reach("unloaded"); }
  else { VP_CHECK(ev.total(DESTROY, mark) == 0, "a refused unload destroys a controller"); vp_reach(i >= 0 ? "still running" : "not there"); }
}
extern "C" void vp_main() {
  vp_sleep_hook = onSleep; MockHW h; hw = &h; ControllerManager m(&h, ros::NodeHandle("")); cm = &m;
  m.registerControllerLoader(controller_manager::ControllerLoaderInterfaceSharedPtr(new Loader("L1", "T", "Q"))); m.registerControllerLoader(controller_manager::ControllerLoaderInterfaceSharedPtr(new Loader("L2", "TQ", "TT")));
  service = SRV && vp_bool("service"); compare(); for (int i = 0; i < PRELOAD; ++i) { load(); compare(); }
  int n = K; // every shorter history is a prefix
  for (int s = 0; s < n; ++s) {
    sleeps = 0; int op = vp_pick("op", 4); ev.n = 0;
    if (op == 0) { if (made >= 3 + PRELOAD) vp_end(); load(); }
    else if (op == 1) unload();
    else if (op == 2) { cm->update(ros::Time(100), ros::Duration(0.5)); vp_reach("cycle"); }
    else { if (model.empty()) vp_end(); int i = vp_pick("which", (int)model.size()), st = SRV ? 1 + vp_pick("state", 4) : 1 + vp_pick("state", 3); ros::Time t(50); ControllerBase* c = model[i].c; if (st == RUNNING) c->startRequest(t); if (!SRV && st == WAITING) st = ABORTED; if (st == STOPPED) c->stopRequest(t); if (st == WAITING) c->waitRequest(t); if (st == ABORTED) c->abortRequest(t); model[i].state = st; }
    for (size_t i = 0; i < model.size(); ++i) VP_CHECK(ev.count(UPDATE, model[i].id) == 0 || model[i].state == RUNNING, "a controller is updated although it is not running");
    compare();
  }
}
