// C18: CombinedRobotHW over recording robot parts (INIT: loading, reading, writing; default: switching).
#include "vp.h"
#include <list>
#include <algorithm>
#include <hardware_interface/joint_command_interface.h>
#include <combined_robot_hw/combined_robot_hw.h>
using namespace hardware_interface; typedef RobotHW::SwitchState SwitchState; typedef std::list<ControllerInfo> CL;
#ifndef NP
#define NP 2 // parts
#endif
 static const char* iname[3] = {"hardware_interface::PositionJointInterface", "hardware_interface::EffortJointInterface", "foreign::Interface"};
// names of which one begins or contains another
static const char* const RN[] = {"j1", "j", "j11"}; static const char* const PN[] = {"part", "par", "part2"};
static bool has(const std::vector<std::string>& v, int r) { return std::find(v.begin(), v.end(), RN[r]) != v.end(); }
static bool prov[NP][3][3];      // part, interface, resource
struct Call { int kind, who; double t, p; }; static Call calls[24]; static int ncalls; static void call(int kind, int who, double t = 0, double p = 0) { if (ncalls < 24) { Call c = {kind, who, t, p}; calls[ncalls++] = c; } }
enum { PREPARE, DOSWITCH, READ, WRITE, INIT };
struct Part : RobotHW {
  int id, outcome; bool ok; int all, each[2]; PositionJointInterface pi; EffortJointInterface ei; double v; CL st, sp; std::string rootNs, ns;
  Part() : id(0), outcome(1), ok(true), all(0), v(0) { each[0] = each[1] = 0; }
  void build() { JointStateHandle s("s", &v, &v, &v); bool any[3] = {false, false, false};
    for (int r = 0; r < 3; ++r) { JointStateHandle h(RN[r], &v, &v, &v); if (prov[id][0][r]) { pi.registerHandle(JointHandle(h, &v)); any[0] = true; } if (prov[id][1][r]) { ei.registerHandle(JointHandle(h, &v)); any[1] = true; } }
    if (any[0]) registerInterface(&pi); if (any[1]) registerInterface(&ei); }
  bool init(ros::NodeHandle& r, ros::NodeHandle& n) override { call(INIT, id); rootNs = r.getNamespace(); ns = n.getNamespace(); if (outcome == 2) throw std::runtime_error("x"); if (outcome == 3) throw 1; if (outcome == 1) build(); return outcome == 1; }
  bool prepareSwitch(const CL& a, const CL& b) override { call(PREPARE, id); st = a; sp = b; return ok; }
  void doSwitch(const CL& a, const CL& b) override { call(DOSWITCH, id); st = a; sp = b; }
  static SwitchState sst(int i) { return i == 0 ? SwitchState::DONE : i == 1 ? SwitchState::ONGOING : SwitchState::ERROR; }
  SwitchState switchResult() const override { return sst(all); } SwitchState switchResult(const ControllerInfo& c) const override { return sst(c.name == "c" ? each[0] : c.name == "d" ? each[1] : 2); }
  void read(const ros::Time& t, const ros::Duration& p) override { call(READ, id, t.toSec(), p.toSec()); } void write(const ros::Time& t, const ros::Duration& p) override { call(WRITE, id, t.toSec(), p.toSec()); }
};
static Part* parts[NP]; static int made, outcomes[NP]; static bool createThrows[NP];
static RobotHW* make() { int i = made; if (i >= NP) vp_end(); made++; if (createThrows[i]) throw pluginlib::CreateClassException("x"); parts[i] = new Part; parts[i]->id = i; parts[i]->outcome = outcomes[i]; return parts[i]; }
static bool same(double a, double b) { return a == b; }
static combined_robot_hw::CombinedRobotHW* build(int n, bool& ok) {
  combined_robot_hw::CombinedRobotHW* hw = new combined_robot_hw::CombinedRobotHW; ros::NodeHandle root("/"), nh("/hw"); ok = hw->init(root, nh); return hw;
}
#ifdef INITIAL
extern "C" void vp_main() {
  pluginlib_stub::add<RobotHW>("other/W", "other::Base", make); pluginlib_stub::add<RobotHW>("pkg/V", "hardware_interface::RobotHW", make); pluginlib_stub::add<RobotHW>("pkg/W", "hardware_interface::RobotHW", make);
  prov[0][0][0] = prov[1][0][1] = prov[1][1][0] = true; if (NP > 2) prov[NP - 1][0][2] = prov[NP - 1][1][0] = true; int n = vp_pick("parts", NP + 1); std::vector<std::string> names; bool listed = vp_bool("listed"); if (!listed && n) vp_end();
  int bad = n; for (int i = 0; i < n; ++i) { std::string nm = PN[i]; names.push_back(nm); static const char* ty[5] = {"pkg/V", "pkg/W", "other/W", "pkg/U", ""}; int t = vp_pick("type", 6); if (t < 5) ros_stub::setString("/hw/" + nm + "/type", ty[t]); outcomes[i] = t < 2 ? vp_pick("outcome", 4) : 1; createThrows[i] = t < 2 && outcomes[i] == 1 && vp_bool("throws"); if (bad == n && (t >= 2 || outcomes[i] != 1 || createThrows[i])) bad = i; }
  if (listed) ros_stub::setList("/hw/robot_hardware", names);
  bool ok; combined_robot_hw::CombinedRobotHW* hw = build(n, ok); VP_CHECK(ok == (listed && bad == n), "the combined robot does not succeed exactly if every listed part can be loaded and initialized");
  if (!ok) { vp_reach("refused"); vp_end(); }
  if (!(listed && bad == n)) vp_end();
  VP_CHECK(ncalls == n && made == n, "a part is not initialized exactly once"); if (ncalls != n || made != n) vp_end();
  for (int i = 0; i < n; ++i) { VP_CHECK(calls[i].who == i, "the parts are not initialized in the listed order"); VP_CHECK(parts[i]->ns == "/hw/" + names[i], "a part is initialized with another namespace than its own"); VP_CHECK(parts[i]->rootNs == "/", "a part is initialized with another root namespace"); }
  if (n) { PositionJointInterface* p = hw->get<PositionJointInterface>(); VP_CHECK(p, "an interface of a part cannot be found"); if (!p) vp_end(); std::vector<std::string> rn = p->getNames(); std::sort(rn.begin(), rn.end()); VP_CHECK((int)rn.size() == n && has(rn, 0) && (n < 2 || has(rn, 1)) && (n < 3 || has(rn, 2)), "the combined interface does not have exactly the resources of the parts"); EffortJointInterface* e = hw->get<EffortJointInterface>(); VP_CHECK((e != nullptr) == (n >= 2), "an interface of a part cannot be found"); if (e && n == 2) VP_CHECK(e == &parts[1]->ei, "an interface only one part has is not that part's"); }
  for (int k = 0; k < 2; ++k) { bool w = vp_bool("write"); double t = vp_double("time"), p = vp_double("period"); vp_assume(t == t && p == p); ncalls = 0; if (w) hw->write(ros::Time(t), ros::Duration(p)); else hw->read(ros::Time(t), ros::Duration(p));
    VP_CHECK(ncalls == n, "reading or writing does not reach every part exactly once"); if (ncalls != n) vp_end();
    for (int i = 0; i < n; ++i) { VP_CHECK(calls[i].kind == (w ? WRITE : READ), "reading or writing reaches a part as the other"); VP_CHECK(calls[i].who == i, "the parts are not reached in order"); VP_CHECK(same(calls[i].t, t) && same(calls[i].p, p), "a part is given another time or period"); } }
  vp_reach("loaded");
}
#else
static ControllerInfo ctrl[2]; static int nct;
// the share of a controller: part i is concerned if it provides some claimed resource or the controller claims nothing
static bool claimed(const ControllerInfo& c, int f, int r) { for (size_t k = 0; k < c.claimed_resources.size(); ++k) if (c.claimed_resources[k].hardware_interface == iname[f] && c.claimed_resources[k].resources.count(RN[r])) return true; return false; }
static bool concerned(const ControllerInfo& c, int i) { if (c.claimed_resources.empty()) return true; for (int f = 0; f < 3; ++f) for (int r = 0; r < 3; ++r) if (prov[i][f][r] && claimed(c, f, r)) return true; return false; }
// a controller whose claimed interfaces all come without resources may be passed on or not
static bool hollow(const ControllerInfo& c) { if (c.claimed_resources.empty()) return false; for (size_t k = 0; k < c.claimed_resources.size(); ++k) if (!c.claimed_resources[k].resources.empty()) return false; return true; }
static void share(const CL& got, const CL& all, int i) {
  for (CL::const_iterator a = all.begin(); a != all.end(); ++a) { int n = 0; const ControllerInfo* g = 0; for (CL::const_iterator b = got.begin(); b != got.end(); ++b) if (b->name == a->name) { n++; g = &*b; }
    if (hollow(*a)) { VP_CHECK(n <= 1, "a part is given a controller twice"); continue; }
    VP_CHECK(n == (concerned(*a, i) ? 1 : 0), "a part is not given exactly the controllers that concern it"); if (n != 1 || !g) continue;
    VP_CHECK(g->type == a->type, "a part is given a controller with another type");
    for (size_t k = 0; k < g->claimed_resources.size(); ++k) { const InterfaceResources& x = g->claimed_resources[k]; bool known = false; for (int f = 0; f < 2; ++f) known = known || x.hardware_interface == iname[f]; VP_CHECK(known, "a part is given claims under an interface it does not have"); for (size_t l = 0; l < k; ++l) VP_CHECK(g->claimed_resources[l].hardware_interface != x.hardware_interface, "a part is given the same interface twice"); }
    for (int f = 0; f < 3; ++f) { size_t want = 0; for (int r = 0; r < 3; ++r) { bool w = prov[i][f][r] && claimed(*a, f, r); if (w) want++; VP_CHECK(claimed(*g, f, r) == w, "a part is not given exactly its share of the claimed resources"); }
      size_t have = 0; for (size_t k = 0; k < g->claimed_resources.size(); ++k) if (g->claimed_resources[k].hardware_interface == iname[f]) have += g->claimed_resources[k].resources.size(); VP_CHECK(have == want, "a part is given a resource that was not claimed"); } }
  for (CL::const_iterator b = got.begin(); b != got.end(); ++b) { bool known = false; for (CL::const_iterator a = all.begin(); a != all.end(); ++a) known = known || a->name == b->name; VP_CHECK(known, "a part is given a controller that was not listed"); }
}
static int level(const SwitchState& s) { return s == SwitchState::ERROR ? 2 : s == SwitchState::ONGOING ? 1 : 0; }
static void claims(int c, int f, int subset) { InterfaceResources x; x.hardware_interface = iname[f]; for (int r = 0; r < 3; ++r) if (subset >> r & 1) x.resources.insert(RN[r]); ctrl[c].claimed_resources.push_back(x); }
extern "C" void vp_main() {
  pluginlib_stub::add<RobotHW>("pkg/W", "hardware_interface::RobotHW", make); for (int i = 0; i < NP; ++i) outcomes[i] = 1;
#ifdef LISTS
  prov[0][0][0] = prov[1][0][1] = prov[1][1][0] = true; if (NP > 2) prov[NP - 1][0][0] = prov[NP - 1][1][2] = true; nct = NP > 2 ? 1 : 2;
#else
  // one controller, every distribution of two resources under two interfaces
  for (int i = 0; i < NP; ++i) for (int f = 0; f < 2; ++f) { int s = vp_pick("provided", 4); prov[i][f][0] = s & 1; prov[i][f][1] = s & 2; } nct = 1;
#endif
  std::vector<std::string> names; for (int i = 0; i < NP; ++i) { names.push_back(PN[i]); ros_stub::setString("/hw/" + names[i] + "/type", "pkg/W"); } ros_stub::setList("/hw/robot_hardware", names);
  bool built; combined_robot_hw::CombinedRobotHW* hw = build(NP, built); VP_CHECK(built && made == NP, "a combined robot cannot be loaded"); if (!built || made != NP) vp_end();
  CL st, sp;
  for (int c = 0; c < nct; ++c) { ctrl[c].name = std::string(1, 'c' + c); ctrl[c].type = c ? "U" : "T";
#ifdef LISTS
    int where = vp_pick("listed", 3); if (where == 0) continue; int f = vp_pick("interface", 4); if (f < 3) claims(c, f, 1 + vp_pick("resources", 4)); (where == 1 ? st : sp).push_back(ctrl[c]);   // {a}, {b}, {a,b}, {c}
#else
    int n = vp_pick("claims", 3), f0 = 0; for (int k = 0; k < n; ++k) { int f = vp_pick("interface", 3); if (k && f == f0) vp_end(); f0 = f; claims(c, f, f == 2 ? 1 : vp_pick("resources", 4)); } (vp_bool("stop") ? sp : st).push_back(ctrl[c]);
#endif
  }
#ifdef LISTS
  int reached = NP; for (int i = 0; i < reached; ++i) { parts[i]->ok = vp_bool("ok"); if (!parts[i]->ok) reached = i + 1; } bool allOk = parts[reached - 1]->ok;
#else
  int reached = NP; bool allOk = true;
#endif
  ncalls = 0; bool prepared = hw->prepareSwitch(st, sp); VP_CHECK(prepared == allOk, "preparing a switch does not fail exactly if a part refuses");
  VP_CHECK(ncalls == reached, "preparing a switch does not reach every part once, up to the first that refuses"); if (ncalls != reached) vp_end();
  for (int i = 0; i < reached; ++i) { VP_CHECK(calls[i].kind == PREPARE && calls[i].who == i, "the parts do not prepare the switch in order"); share(parts[i]->st, st, i); share(parts[i]->sp, sp, i); }
  if (!prepared) { vp_reach("refused"); vp_end(); }
  for (int i = 0; i < NP; ++i) { parts[i]->st.clear(); parts[i]->sp.clear(); } ncalls = 0; hw->doSwitch(st, sp); VP_CHECK(ncalls == NP, "a switch does not reach every part exactly once"); if (ncalls != NP) vp_end();
  for (int i = 0; i < NP; ++i) { VP_CHECK(calls[i].kind == DOSWITCH && calls[i].who == i, "the parts do not switch in order"); share(parts[i]->st, st, i); share(parts[i]->sp, sp, i); }
#ifdef LISTS
  bool per = vp_bool("per_controller");
  if (!per) { for (int i = 0; i < NP; ++i) parts[i]->all = vp_pick("result", 3); int worst = 0; for (int i = 0; i < NP; ++i) worst = std::max(worst, parts[i]->all); VP_CHECK(level(hw->switchResult()) == worst, "the state of a switch is not the worst of the parts"); }
  else for (int c = 0; c < nct; ++c) { const ControllerInfo* l = 0; for (CL::iterator a = st.begin(); a != st.end(); ++a) if (a->name == ctrl[c].name) l = &*a; for (CL::iterator a = sp.begin(); a != sp.end(); ++a) if (a->name == ctrl[c].name) l = &*a; if (!l) continue; int want = 0; for (int i = 0; i < NP; ++i) { bool cc = concerned(*l, i); parts[i]->each[c] = c == 0 || cc ? vp_pick("result", 3) : 2; if (cc) want = std::max(want, parts[i]->each[c]); } VP_CHECK(level(hw->switchResult(*l)) == want, "the state of a controller's switch is not the worst of the parts it concerns"); vp_reach("state"); break; }
#endif
  vp_reach("switched");
}
#endif
