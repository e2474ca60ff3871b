// C12: controller initialization and reported claims.
#include "vp.h"
#include <memory>
#include <algorithm>
#include <controller_interface/controller.h>
#include <controller_interface/multi_interface_controller.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/joint_state_interface.h>
using namespace controller_interface; using namespace hardware_interface;
typedef EffortJointInterface E; typedef PositionJointInterface P; typedef VelocityJointInterface V; typedef JointStateInterface S;
#ifndef NCLAIM
#define NCLAIM 2
#endif
#ifdef CLAIMS
static bool getClaimsFocus() { return true; }
#else
static bool getClaimsFocus() { return false; }
#endif
static const char* tn[4] = {"hardware_interface::EffortJointInterface", "hardware_interface::PositionJointInterface", "hardware_interface::VelocityJointInterface", "hardware_interface::JointStateInterface"};
static double cell; static RobotHW root, part; static bool twoParts;
static HardwareInterface* iface[4][2]; // of the root, of the part
static void* of(RobotHW* r, int t) { return t == 0 ? (void*)r->get<E>() : t == 1 ? (void*)r->get<P>() : t == 2 ? (void*)r->get<V>() : (void*)r->get<S>(); }
static HardwareInterface* hif(int t) { return t == 0 ? (HardwareInterface*)root.get<E>() : t == 1 ? (HardwareInterface*)root.get<P>() : t == 2 ? (HardwareInterface*)root.get<V>() : (HardwareInterface*)root.get<S>(); }
// what the controller's hooks do
static int nact; struct Act { int hook, type; std::string name; }; static Act act[3]; static bool hookRes[2]; static int calls[2]; static bool requested[4]; static bool single; static ros::NodeHandle *gRoot, *gCtrl;
static std::string expClaims[4]; // characters
template <class I> static void claimOn(I* i, const Act& a) { if (!i) return; try { i->getHandle(a.name); if (a.type != 3) expClaims[a.type] += a.name; } catch (const HardwareInterfaceException&) {} }
static void hook(int h, RobotHW* r, E* e) {
  calls[h]++;
  if (r) for (int t = 0; t < 4; ++t) { void* p = of(r, t); VP_CHECK(requested[t] ? p == of(&root, t) : p == nullptr, requested[t] ? "the controller does not see a requested interface as the robot has it" : "the controller sees an interface it did not ask for"); }
  else VP_CHECK(e == root.get<E>(), "the controller does not get the robot's interface");
  for (int i = 0; i < nact; ++i) if (act[i].hook == h) { if (r) { if (act[i].type == 0) claimOn(r->get<E>(), act[i]); else if (act[i].type == 1) claimOn(r->get<P>(), act[i]); else if (act[i].type == 2) claimOn(r->get<V>(), act[i]); else claimOn(r->get<S>(), act[i]); } else if (act[i].type == 0) claimOn(e, act[i]); }
}
struct C1 : Controller<E> { bool init(E* e, ros::NodeHandle& n) override { VP_CHECK(&n == gCtrl, "init gets another node handle"); hook(0, nullptr, e); return hookRes[0]; } bool init(E* e, ros::NodeHandle& r, ros::NodeHandle& n) override { VP_CHECK(&n == gCtrl && &r == gRoot, "init gets another node handle"); hook(1, nullptr, e); return hookRes[1]; } void update(const ros::Time&, const ros::Duration&) override {} };
template <class... T> struct CM : MultiInterfaceController<T...> { CM(bool o) : MultiInterfaceController<T...>(o) {} bool init(RobotHW* h, ros::NodeHandle& n) override { VP_CHECK(&n == gCtrl, "init gets another node handle"); hook(0, h, nullptr); return hookRes[0]; } bool init(RobotHW* h, ros::NodeHandle& r, ros::NodeHandle& n) override { VP_CHECK(&n == gCtrl && &r == gRoot, "init gets another node handle"); hook(1, h, nullptr); return hookRes[1]; } void update(const ros::Time&, const ros::Duration&) override {} };
template <class I, class H> static void mk(int t, int who, H h1, H h2) { I* i = new I; i->registerHandle(h1); i->registerHandle(h2); iface[t][who] = i; (who ? part : root).registerInterface(i); }
static JointStateHandle js(const char* n) { return JointStateHandle(n, &cell, &cell, &cell); }
static void add(int t, int who) { const char *a = who ? "c" : "a", *b = who ? "d" : "b"; JointHandle h1(js(a), &cell), h2(js(b), &cell); if (t == 0) mk<E>(t, who, h1, h2); else if (t == 1) mk<P>(t, who, h1, h2); else if (t == 2) mk<V>(t, who, h1, h2); else mk<S>(t, who, js(a), js(b)); }
extern "C" void vp_main() {
  twoParts = vp_bool("two_parts"); if (twoParts) root.registerInterfaceManager(&part);
  
#ifdef CLAIMS
  int kind = 2 * vp_pick("controller", 3);
#else
  int kind = vp_pick("controller", 5);
#endif
  bool optional = false; ros::NodeHandle rn, cn("c"); gRoot = &rn; gCtrl = &cn; std::unique_ptr<ControllerBase> c; single = kind == 0;
  for (int t = 0; t < 4; ++t) { requested[t] = kind == 0 || kind == 1 ? t == 0 : kind == 2 ? t < 2 : kind == 3 ? t < 3 : t == 3 || t == 1; bool vary = requested[t] || t == 1;
#ifdef CLAIMS
    add(t, 0); if (twoParts) add(t, 1); continue;
#endif
    int where = vary ? vp_pick("where", twoParts ? 4 : 2) : 1; if (where & 1) add(t, 0); if (where & 2) add(t, 1); }
  if (kind && !getClaimsFocus()) optional = vp_bool("optional");
  switch (kind) { case 0: c.reset(new C1); break; case 1: c.reset(new CM<E>(optional)); break; case 2: c.reset(new CM<E, P>(optional)); break; case 3: c.reset(new CM<E, P, V>(optional)); break; default: c.reset(new CM<P, S>(optional)); }
  bool all = true; int have = 0; for (int t = 0; t < 4; ++t) { if (requested[t] && !hif(t)) all = false; if (requested[t] && hif(t)) ++have; }
  // claims left over by others
  int left = vp_bool("left_over"); if (left) for (int t = 0; t < 4; ++t) if (hif(t)) hif(t)->claim("b");
  hookRes[0] = vp_bool("init1"); hookRes[1] = vp_bool("init2"); int lo = 0; nact = vp_pick("acquired", NCLAIM + 1);
  for (int i = 0; i < nact; ++i) { act[i].hook = (int)vp_int("hook", lo, 1); act[i].type = single ? 0 : vp_pick("type", kind == 4 ? 2 : kind); if (kind == 4) act[i].type = act[i].type ? 3 : 1; act[i].name = std::string(1, (char)vp_int("name", 'a', twoParts ? 'e' : 'c')); }
  ControllerBase::ClaimedResources out; if (vp_bool("used_list")) { InterfaceResources x; x.hardware_interface = "old"; x.resources.insert("z"); out.push_back(x); }
  bool ok = c->initRequest(&root, rn, cn, out);
  VP_CHECK(ok == ((all || optional) && hookRes[0] && hookRes[1]), "initialization must succeed exactly if every required interface exists and both hooks succeed");
  VP_CHECK(c->isInitialized() == ok && !c->isRunning() && !c->isStopped(), "the controller must be initialized exactly after a successful initialization");
  if (!ok) { vp_reach("failed"); return; }
  VP_CHECK(calls[0] == 1 && calls[1] == 1, "both hooks must run exactly once"); VP_CHECK((int)out.size() == have, "exactly one entry of claims per requested and existing interface is required");
  for (int t = 0; t < 4; ++t) if (requested[t] && hif(t)) {
    int found = 0; for (size_t i = 0; i < out.size(); ++i) if (out[i].hardware_interface == tn[t]) { ++found; const std::set<std::string>& r = out[i].resources; std::string& e = expClaims[t];
      for (size_t k = 0; k < e.size(); ++k) VP_CHECK(r.count(std::string(1, e[k])) == 1, "an acquired resource is not reported"); for (std::set<std::string>::const_iterator k = r.begin(); k != r.end(); ++k) VP_CHECK(k->size() == 1 && e.find((*k)[0]) != std::string::npos, "a resource is reported that the controller did not acquire"); if (r.size() > 1) vp_reach("two claims"); }
    VP_CHECK(found == 1, "a requested interface is reported not exactly once"); VP_CHECK(hif(t)->getClaims().empty(), "claims stay behind in the robot's interfaces");
  }
  vp_reach(all ? "initialized" : "initialized without optional interface"); if (twoParts && iface[0][0] && iface[0][1]) vp_reach("combined");
  ControllerBase::ClaimedResources out2; int c0 = calls[0], c1 = calls[1]; bool again = c->initRequest(&root, rn, cn, out2); VP_CHECK(!again && c->isInitialized() && calls[0] == c0 && calls[1] == c1, "a controller can be initialized only once");
}
