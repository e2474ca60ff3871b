// C30: TransmissionInterfaceLoader and the requisite providers: from transmission infos to wired handles.
#include "vp.h"
#include <cstring>
#include <algorithm>
#include <transmission_interface/transmission_interface_loader.h>
#include "vp_plugins.h"
using namespace transmission_interface; using namespace hardware_interface;
static bool same(double a, double b) { return !memcmp(&a, &b, 8); }
// joint i of a transmission belongs to its actuator n-1-i; every map copies its own quantity
struct Fake : Transmission {
  size_t n; explicit Fake(size_t k) : n(k) {}
  void cp(const std::vector<double*>& f, const std::vector<double*>& t) { if (f.size() != n || t.size() != n) throw std::logic_error("data"); for (size_t i = 0; i < n; ++i) *t[i] = *f[n - 1 - i]; }
  void actuatorToJointEffort(const ActuatorData& a, JointData& j) override { cp(a.effort, j.effort); } void actuatorToJointVelocity(const ActuatorData& a, JointData& j) override { cp(a.velocity, j.velocity); } void actuatorToJointPosition(const ActuatorData& a, JointData& j) override { cp(a.position, j.position); }
  void jointToActuatorEffort(const JointData& j, ActuatorData& a) override { cp(j.effort, a.effort); } void jointToActuatorVelocity(const JointData& j, ActuatorData& a) override { cp(j.velocity, a.velocity); } void jointToActuatorPosition(const JointData& j, ActuatorData& a) override { cp(j.position, a.position); }
  bool hasActuatorToJointAbsolutePosition() const override { return true; } bool hasActuatorToJointTorqueSensor() const override { return true; }
  void actuatorToJointAbsolutePosition(const ActuatorData& a, JointData& j) override { cp(a.absolute_position, j.absolute_position); } void actuatorToJointTorqueSensor(const ActuatorData& a, JointData& j) override { cp(a.torque_sensor, j.torque_sensor); }
  size_t numActuators() const override { return n; } size_t numJoints() const override { return n; }
};
static int givesNothing; // the transmission the loader refuses
struct FakeLoader : TransmissionLoader { TransmissionSharedPtr load(const TransmissionInfo& i) override { if (i.name_ == std::string(1, (char)('t' + givesNothing)) || i.joints_.size() != i.actuators_.size()) return TransmissionSharedPtr(); return TransmissionSharedPtr(new Fake(i.joints_.size())); } };
static TransmissionLoader* makeLoader() { return new FakeLoader; }
static const char* lookup[8] = {"hardware_interface/JointStateInterface", "hardware_interface/PositionJointInterface", "hardware_interface/VelocityJointInterface", "hardware_interface/EffortJointInterface", "hardware_interface/BiDirectionalPositionJointInterface", "hardware_interface/BiDirectionalVelocityJointInterface", "hardware_interface/BiDirectionalEffortJointInterface", "hardware_interface/UnknownInterface"};
static int quantity(int k) { return k == 0 || k == 7 ? 0 : (k - 1) % 3 + 1; } // 1 position 2 velocity 3 effort
enum { NA = 3 }; // actuators x, y, z; joints j, k, l
static double state[NA][5], cmd[NA][4], ownState[4], ownCmd;
struct Robot : RobotHW { ActuatorStateInterface as; PositionActuatorInterface ap; VelocityActuatorInterface av; EffortActuatorInterface ae; JointStateInterface js; PositionJointInterface jp; VelocityJointInterface jv; EffortJointInterface je; };
static Robot* robot; static RobotTransmissions* rt;
static std::string an(int i) { return std::string(1, (char)('x' + i)); } static std::string jn(int i) { return std::string(1, (char)('j' + i)); }
static bool in(ResourceManagerBase*, const std::vector<std::string>& v, const std::string& n) { return std::count(v.begin(), v.end(), n) == 1; }
template <class I> static bool has(const std::string& n) { I* i = robot->get<I>(); if (!i) return false; std::vector<std::string> v = i->getNames(); return std::count(v.begin(), v.end(), n) == 1; }
template <class I> static size_t count() { I* i = robot->get<I>(); return i ? i->getNames().size() : 0; }
template <class I> static bool hasT(const std::string& n) { I* i = rt->get<I>(); if (!i) return false; std::vector<std::string> v = i->getNames(); return std::count(v.begin(), v.end(), n) == 1; }
static bool hasQ(int q, const std::string& n) { return q == 0 ? has<JointStateInterface>(n) : q == 1 ? has<PositionJointInterface>(n) : q == 2 ? has<VelocityJointInterface>(n) : has<EffortJointInterface>(n); }
static size_t countQ(int q) { return q == 0 ? count<JointStateInterface>() : q == 1 ? count<PositionJointInterface>() : q == 2 ? count<VelocityJointInterface>() : count<EffortJointInterface>(); }
static JointHandle handleQ(int q, const std::string& n) { return q == 1 ? robot->get<PositionJointInterface>()->getHandle(n) : q == 2 ? robot->get<VelocityJointInterface>()->getHandle(n) : robot->get<EffortJointInterface>()->getHandle(n); }
template <class I> static void run() { I* i = rt->get<I>(); if (i) i->propagate(); }
static void setup(int sensors, int stateMissing, const int* cmdMissing /* per quantity: -2 complete, -1 interface missing, else that actuator is missing */, int stateHole) {
  robot = new Robot; rt = new RobotTransmissions; bool ab = sensors & 1, tq = sensors & 2;
  for (int i = 0; i < NA; ++i) { double* s = state[i]; ActuatorStateHandle h = ab && tq ? ActuatorStateHandle(an(i), s, s + 1, s + 2, s + 3, s + 4) : ab ? ActuatorStateHandle(an(i), s, s + 1, s + 2, s + 3) : tq ? ActuatorStateHandle(an(i), s, s + 1, s + 2, s + 4, true) : ActuatorStateHandle(an(i), s, s + 1, s + 2);
    if (i != stateHole) robot->as.registerHandle(h); if (cmdMissing[1] != i) robot->ap.registerHandle(ActuatorHandle(h, &cmd[i][1])); if (cmdMissing[2] != i) robot->av.registerHandle(ActuatorHandle(h, &cmd[i][2])); if (cmdMissing[3] != i) robot->ae.registerHandle(ActuatorHandle(h, &cmd[i][3])); }
  if (!stateMissing) robot->registerInterface(&robot->as); if (cmdMissing[1] != -1) robot->registerInterface(&robot->ap); if (cmdMissing[2] != -1) robot->registerInterface(&robot->av); if (cmdMissing[3] != -1) robot->registerInterface(&robot->ae);
}
struct Trans { TransmissionInfo info; int n, act[2], jnt[2]; bool q[4], bi[4], any; }; // what a loaded transmission has to provide
static Trans tr[2]; static int nt; static TransmissionInterfaceLoader* ldr;
static void fill(int t, int n, const int* act, const int* jnt) { Trans& x = tr[t]; x.n = n; x.info.name_ = std::string(1, (char)('t' + t)); x.info.type_ = "Fake"; for (int i = 0; i < n; ++i) { x.act[i] = act[i]; x.jnt[i] = jnt[i]; ActuatorInfo a; a.name_ = an(act[i]); x.info.actuators_.push_back(a); JointInfo j; j.name_ = jn(jnt[i]); x.info.joints_.push_back(j); } }
static int sensorsOf;
// the values seen through the handles of all loaded transmissions
static void values(int own) {
  double in[NA][5], c[NA][4]; for (int i = 0; i < NA; ++i) { for (int k = 0; k < 5; ++k) { in[i][k] = vp_double("state"); state[i][k] = in[i][k]; } for (int q = 1; q < 4; ++q) cmd[i][q] = c[i][q] = q + 10 * i; }
  bool any = false; for (int t = 0; t < nt; ++t) any = any || tr[t].any; if (!any) return;
  VP_CHECK(rt->get<ActuatorToJointStateInterface>() != nullptr, "a loaded transmission is not in the robot's transmission interfaces"); run<ActuatorToJointStateInterface>();
  for (int t = 0; t < nt; ++t) if (tr[t].any) { Trans& x = tr[t]; VP_CHECK(hasT<ActuatorToJointStateInterface>(x.info.name_), "a loaded transmission is not in the robot's transmission interfaces");
    for (int i = 0; i < x.n; ++i) { bool mine = own == 2 && x.jnt[i] == 0; if (!hasQ(0, jn(x.jnt[i]))) { VP_CHECK(false, "a loaded transmission's joint has no state handle"); continue; }
      JointStateHandle h = robot->get<JointStateInterface>()->getHandle(jn(x.jnt[i])); const double* s = in[x.act[x.n - 1 - i]]; if (mine) { VP_CHECK(h.getPositionPtr() == ownState, "a joint that existed already was replaced"); continue; }
      bool shared = false; for (int o = 0; o < nt; ++o) if (o != t && tr[o].any) for (int k = 0; k < tr[o].n; ++k) shared = shared || tr[o].jnt[k] == x.jnt[i]; if (shared) continue;
      VP_CHECK(same(h.getPosition(), s[0]) && same(h.getVelocity(), s[1]) && same(h.getEffort(), s[2]), "actuator state does not reach the right joint");
      if (sensorsOf & 1) VP_CHECK(h.hasAbsolutePosition() && same(h.getAbsolutePosition(), s[3]), "the absolute position of an actuator does not reach the right joint"); if (sensorsOf & 2) VP_CHECK(h.hasTorqueSensor() && same(h.getTorqueSensor(), s[4]), "the torque sensor of an actuator does not reach the right joint");
      for (int q = 1; q < 4; ++q) if (x.q[q]) { if (!hasQ(q, jn(x.jnt[i]))) { VP_CHECK(false, "a loaded transmission's joint has no command handle"); vp_end(); } JointHandle g = handleQ(q, jn(x.jnt[i])); if (own == 4 + q && x.jnt[i] == 0) VP_CHECK(g.getCommandPtr() == &ownCmd, "a joint that existed already was replaced"); else VP_CHECK(same(g.getPosition(), s[0]) && same(g.getVelocity(), s[1]) && same(g.getEffort(), s[2]), "a joint's command handle does not read the joint's state"); } } }
  double w[4][NA]; for (int q = 1; q < 4; ++q) for (int j = 0; j < NA; ++j) { bool used = false; for (int t = 0; t < nt; ++t) if (tr[t].any && tr[t].q[q]) for (int i = 0; i < tr[t].n; ++i) used = used || tr[t].jnt[i] == j; if (used && !(own == 4 + q && j == 0)) { w[q][j] = vp_double("command"); handleQ(q, jn(j)).setCommand(w[q][j]); } }
  run<JointToActuatorPositionInterface>(); run<JointToActuatorVelocityInterface>(); run<JointToActuatorEffortInterface>();
  for (int q = 1; q < 4; ++q) for (int a = 0; a < NA; ++a) { bool driven = false; for (int t = 0; t < nt; ++t) if (tr[t].any && tr[t].q[q]) for (int i = 0; i < tr[t].n; ++i) if (tr[t].act[tr[t].n - 1 - i] == a) { driven = true; int j = tr[t].jnt[i]; if (own == 4 + q && j == 0) continue; VP_CHECK(same(cmd[a][q], w[q][j]), "a joint command does not reach the right actuator command"); }
    if (!driven) VP_CHECK(same(cmd[a][q], c[a][q]), "an actuator command no transmission drives was changed"); }
  for (int i = 0; i < NA; ++i) for (int k = 0; k < 5; ++k) VP_CHECK(same(state[i][k], in[i][k]), "propagating commands and state to joints changed an actuator's state");
  // backwards, for the bidirectional interfaces
  for (int t = 0; t < nt; ++t) { Trans& x = tr[t]; bool b = x.any && (x.bi[1] || x.bi[2] || x.bi[3]); VP_CHECK(hasT<JointToActuatorStateInterface>(x.info.name_) == b, "joint state is not propagated backwards exactly for bidirectional interfaces");
    VP_CHECK(hasT<ActuatorToJointPositionInterface>(x.info.name_) == (x.any && x.bi[1]) && hasT<ActuatorToJointVelocityInterface>(x.info.name_) == (x.any && x.bi[2]) && hasT<ActuatorToJointEffortInterface>(x.info.name_) == (x.any && x.bi[3]), "commands are not propagated backwards exactly for bidirectional interfaces"); }
  RawJointDataMap& raw = ldr->getData()->raw_joint_data_map; double r[NA][3]; for (int j = 0; j < NA; ++j) if (raw.count(jn(j))) { RawJointData& d = raw[jn(j)]; d.position = r[j][0] = vp_double("raw"); d.velocity = r[j][1] = vp_double("raw"); d.effort = r[j][2] = vp_double("raw"); }
  run<JointToActuatorStateInterface>();
  for (int t = 0; t < nt; ++t) { Trans& x = tr[t]; if (x.any && (x.bi[1] || x.bi[2] || x.bi[3])) for (int i = 0; i < x.n; ++i) { if (own == 2 && x.jnt[i] == 0) continue; for (int k = 0; k < 3; ++k) VP_CHECK(same(state[x.act[x.n - 1 - i]][k], r[x.jnt[i]][k]), "joint state does not reach the right actuator backwards"); vp_reach("backwards"); } }
  double m[NA][4]; for (int a = 0; a < NA; ++a) for (int q = 1; q < 4; ++q) cmd[a][q] = m[a][q] = vp_double("actuator_command");
  run<ActuatorToJointPositionInterface>(); run<ActuatorToJointVelocityInterface>(); run<ActuatorToJointEffortInterface>();
  for (int t = 0; t < nt; ++t) { Trans& x = tr[t]; if (!x.any) continue; for (int q = 1; q < 4; ++q) if (x.bi[q]) for (int i = 0; i < x.n; ++i) { int j = x.jnt[i]; if (own == 4 + q && j == 0) continue; bool shared = false; for (int o = 0; o < nt; ++o) if (o != t && tr[o].any && tr[o].q[q]) for (int k = 0; k < tr[o].n; ++k) shared = shared || tr[o].jnt[k] == j; if (!shared) VP_CHECK(same(handleQ(q, jn(j)).getCommand(), m[x.act[x.n - 1 - i]][q]), "an actuator command does not reach the right joint backwards"); } }
}
static bool stateOk(const Trans& x, bool stateMissing, int hole) { if (stateMissing) return false; for (int i = 0; i < x.n; ++i) if (x.act[i] == hole) return false; return true; }
static bool cmdOk(const Trans& x, int miss) { if (miss == -1) return false; for (int i = 0; i < x.n; ++i) if (x.act[i] == miss) return false; return true; }
// exactly the joints of the loaded transmissions (and the robot's own) are in the joint interfaces
static void joints(int own) {
  for (int q = 0; q < 4; ++q) { size_t n = 0; for (int j = 0; j < NA; ++j) { bool want = (own == 2 && q == 0 && j == 0) || (own == 4 + q && q && j == 0); for (int t = 0; t < nt; ++t) if (tr[t].any && (q == 0 || tr[t].q[q])) for (int i = 0; i < tr[t].n; ++i) want = want || tr[t].jnt[i] == j; if (want) n++; VP_CHECK(hasQ(q, jn(j)) == want, want ? "a joint of a loaded transmission is missing from a joint interface" : "a joint was added although its transmission was refused or does not have the interface"); } VP_CHECK(countQ(q) == n, "a joint interface has unknown joints"); }
}
static bool attempt(int how) { bool ok = false, threw = false; try { if (how == 0 && nt == 1) ok = ldr->load(tr[0].info); else { std::vector<TransmissionInfo> v; for (int t = 0; t < nt; ++t) v.push_back(tr[t].info); ok = ldr->load(v); } } catch (...) { threw = true; } VP_CHECK(!threw, "loading a transmission lets an exception escape"); if (threw) vp_end(); return ok; }
static void begin() { vp_declare_plugins(); pluginlib_stub::add<TransmissionLoader>("Fake", "transmission_interface::TransmissionLoader", makeLoader); givesNothing = -1; }
#ifdef PLUGINS
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission_loader.h>
#include "../src/four_bar_linkage_transmission_loader.cpp"
// the real transmission types, by the names the plugin description gives them; and the loader's constructor and text entry point
extern "C" void vp_main() {
  begin(); const int none[4] = {-2, -2, -2, -2}; setup(0, 0, none, -1); int what = vp_pick("case", 6);
  if (what < 2) { bool inv = false; try { TransmissionInterfaceLoader l(what ? robot : nullptr, what ? nullptr : rt); } catch (const std::invalid_argument&) { inv = true; } catch (...) {} VP_CHECK(inv, "a loader without robot or transmissions is not refused"); vp_reach("constructor"); return; }
  int type = what < 5 ? what - 2 : 0; ldr = new TransmissionInterfaceLoader(robot, rt); static const char* tn[3] = {"transmission_interface/SimpleTransmission", "transmission_interface/DifferentialTransmission", "transmission_interface/FourBarLinkageTransmission"};
  if (what < 5) { nt = 1; int act[2] = {0, 1}, jnt[2] = {0, 1}; fill(0, type ? 2 : 1, act, jnt); tr[0].info.type_ = tn[type];
    for (int i = 0; i < tr[0].n; ++i) { TiXmlElement* a = new TiXmlElement("actuator"); a->add("mechanicalReduction")->setText("2"); a->add("role")->setText(i ? "actuator2" : "actuator1"); TiXmlElement* j = new TiXmlElement("joint"); j->add("role")->setText(i ? "joint2" : "joint1"); tr[0].info.joints_[i].role_ = i ? "joint2" : "joint1"; std::stringstream s, u; s << *a; u << *j; tr[0].info.actuators_[i].xml_element_ = s.str(); tr[0].info.joints_[i].xml_element_ = u.str(); tr[0].info.joints_[i].hardware_interfaces_.push_back(lookup[0]); }
    bool ok = attempt(vp_bool("list")); VP_CHECK(ok, "a transmission of a known type is refused"); if (!ok) vp_end(); const std::vector<TransmissionSharedPtr>& d = ldr->getData()->transmission_data; VP_CHECK(d.size() == 1, "a loaded transmission is not kept"); if (d.size() != 1) vp_end();
    Transmission* t = d[0].get(); VP_CHECK(type == 0 ? dynamic_cast<SimpleTransmission*>(t) != nullptr : type == 1 ? dynamic_cast<DifferentialTransmission*>(t) != nullptr : dynamic_cast<FourBarLinkageTransmission*>(t) != nullptr, "a transmission is loaded as another type"); vp_reach("type"); return; }
  TiXmlElement* r = new TiXmlElement("robot"); int n = vp_pick("transmissions", 3), bad = vp_pick("bad", 4);
  for (int t = 0; t < n; ++t) { TiXmlElement* e = r->add("transmission"); e->setAttr("name", std::string(1, (char)('t' + t))); e->add("type")->setText(bad == 1 + t ? "Nothing" : "Fake"); TiXmlElement* j = e->add("joint"); j->setAttr("name", jn(t)); j->add("hardwareInterface")->setText(lookup[1]); e->add("actuator")->setAttr("name", an(t)); }
  xml_stub::add("document", r, bad == 3); bool ok = false; try { ok = ldr->load(std::string("document")); } catch (...) { VP_CHECK(false, "loading a document lets an exception escape"); vp_end(); }
  VP_CHECK(ok == (n > 0 && bad != 3 && !(bad && bad <= n)), "loading a document does not succeed exactly if it has transmissions and all load"); int loaded = bad == 3 ? 0 : bad && bad <= n ? bad - 1 : n;
  for (int t = 0; t < 2; ++t) VP_CHECK(hasQ(1, jn(t)) == (t < loaded), "loading a document does not stop at the first transmission that fails"); vp_reach(ok ? "document" : "refused document");
}
#elif defined(TWO)
extern "C" void vp_main() {
  begin(); int none[4] = {-2, -2, -2, -2}; nt = 2; int k[2]; bool two = vp_bool("dimension");
  { int a0[2] = {0, 2}, a1[2] = {1, 1}, j0[2] = {0, 2}, j1[2] = {1, 1}; if (vp_bool("shared")) j1[0] = 0; fill(0, two ? 2 : 1, a0, j0); fill(1, 1, a1, j1); }
  for (int t = 0; t < nt; ++t) { k[t] = vp_pick("interface", 8); for (int i = 0; i < tr[t].n; ++i) tr[t].info.joints_[i].hardware_interfaces_.push_back(lookup[k[t]]); }
  int problem = vp_pick("problem", 7); int q0 = quantity(k[0]), q1 = quantity(k[1]); int hole = -1; bool nocmd = false; // fails: first gives nothing, second unknown type, first's or second's actuator missing in state or command
  if (problem == 1) givesNothing = 0; if (problem == 2) tr[1].info.type_ = "Other"; if (problem == 3) hole = 0; if (problem == 4) hole = 1; if (problem == 5) { if (!q0) vp_end(); none[q0] = 0; } if (problem == 6) { if (!q1) vp_end(); none[q1] = 1; } (void)nocmd;
  setup(0, 0, none, hole); ldr = new TransmissionInterfaceLoader(robot, rt);
  bool all = true; for (int t = 0; t < nt; ++t) { Trans& x = tr[t]; bool ok = all && k[t] != 7 && !(problem == 1 && t == 0) && !(problem == 2 && t == 1) && stateOk(x, false, hole) && cmdOk(x, none[quantity(k[t])] == -2 || !quantity(k[t]) ? -2 : none[quantity(k[t])]); x.any = ok; if (ok && quantity(k[t])) { x.q[quantity(k[t])] = true; x.bi[quantity(k[t])] = k[t] > 3; } all = all && ok; }
  bool separate = vp_bool("separate"), ok; if (!separate) ok = attempt(1); else { ok = true; for (int t = 0; t < nt && ok; ++t) { try { ok = ldr->load(tr[t].info); } catch (...) { VP_CHECK(false, "loading a transmission lets an exception escape"); vp_end(); } } }
  VP_CHECK(ok == all, "loading a list does not succeed exactly if every transmission loads"); joints(0); values(0); vp_reach(all ? "loaded" : tr[0].any ? "stopped at the second" : "stopped at the first");
}
#else
extern "C" void vp_main() {
  begin(); int n = 1 + vp_pick("dimension", 2), nk = 1 + vp_pick("interfaces", 2), k[2]; for (int i = 0; i < nk; ++i) k[i] = vp_pick("interface", 8); if (nk == 2 && k[0] == k[1]) vp_end();
  int problem = vp_pick("problem", 9), own = problem ? 0 : vp_pick("own", 8), miss[4] = {-2, -2, -2, -2}, q0 = quantity(k[0]), hole = -1; bool noState = false, differ = false, perm = false;
  if (own > 4 && own - 4 != q0) vp_end(); if ((own == 3 || own == 4) && (!q0 || own == 4)) vp_end();
  int act[2] = {n == 2 ? 2 : 0, 0}, jnt[2] = {0, 1}; nt = 1; fill(0, n, act, jnt);
  switch (problem) { case 1: tr[0].info.type_ = "Other"; break; case 2: givesNothing = 0; break; case 3: hole = act[n - 1]; break; case 4: noState = true; break; case 5: if (!q0) vp_end(); miss[q0] = -1; break; case 6: if (!q0) vp_end(); miss[q0] = act[n - 1]; break; case 7: if (n < 2) vp_end(); differ = true; break; case 8: if (n < 2 || nk < 2) vp_end(); perm = true; break; }
  for (int i = 0; i < n; ++i) for (int c = 0; c < nk; ++c) tr[0].info.joints_[i].hardware_interfaces_.push_back(lookup[k[perm && i ? nk - 1 - c : c]]);
  if (differ) { std::vector<std::string>& v = tr[0].info.joints_[1].hardware_interfaces_; int d = vp_pick("difference", 4); if (d == 0) v.clear(); else if (d == 1) v.back() = lookup[k[0] == 0 ? 1 : 0] + std::string("2"); else if (d == 2) { if (nk < 2) vp_end(); v.pop_back(); } else v.push_back(lookup[k[0] == 3 ? 2 : 3]); }
  sensorsOf = !problem && !own ? vp_pick("sensors", 4) : 0; setup(sensorsOf, noState, miss, hole);
  for (int i = 0; i < 4; ++i) ownState[i] = i; ownCmd = 7; JointStateHandle oh(jn(0), ownState, ownState + 1, ownState + 2);
  if (own == 1 || own == 2) { if (own == 2) robot->js.registerHandle(oh); robot->registerInterface(&robot->js); }
  if (own == 3 || own > 4) { bool w = own > 4; if (q0 == 1) { if (w) robot->jp.registerHandle(JointHandle(oh, &ownCmd)); robot->registerInterface(&robot->jp); } if (q0 == 2) { if (w) robot->jv.registerHandle(JointHandle(oh, &ownCmd)); robot->registerInterface(&robot->jv); } if (q0 == 3) { if (w) robot->je.registerHandle(JointHandle(oh, &ownCmd)); robot->registerInterface(&robot->je); } }
  ldr = new TransmissionInterfaceLoader(robot, rt); Trans& x = tr[0]; bool known = problem != 1 && problem != 2 && !differ; x.any = false;
  for (int c = 0; c < nk; ++c) { bool ok = known && k[c] != 7 && stateOk(x, noState, hole) && cmdOk(x, quantity(k[c]) ? miss[quantity(k[c])] : -2); if (!ok) continue; x.any = true; if (quantity(k[c])) { x.q[quantity(k[c])] = true; x.bi[quantity(k[c])] = x.bi[quantity(k[c])] || k[c] > 3; } }
  bool ok = attempt(vp_bool("list"));
  if (own == 2 && (k[0] == 0 || (nk == 2 && k[1] == 0))) { VP_CHECK(has<JointStateInterface>(jn(0)) && robot->get<JointStateInterface>()->getHandle(jn(0)).getPositionPtr() == ownState, "a joint that existed already was replaced"); vp_reach("own joint state"); vp_end(); } // whether its state can be provided is left open
  VP_CHECK(ok == x.any, "a transmission is not loaded exactly if its type, actuators and interfaces are there"); joints(own);
  if (own == 1) VP_CHECK(robot->get<JointStateInterface>() == &robot->js, "the robot's own joint interface was replaced");
  if (own == 3 || own > 4) VP_CHECK(q0 == 1 ? robot->get<PositionJointInterface>() == &robot->jp : q0 == 2 ? robot->get<VelocityJointInterface>() == &robot->jv : robot->get<EffortJointInterface>() == &robot->je, "the robot's own joint interface was replaced");
  values(own); vp_reach(own ? "own" : x.any ? "loaded" : "refused");
}
#endif
