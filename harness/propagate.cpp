// C28: propagate() of every transmission interface type.
#include "vp.h"
#include <cstring>
#include <transmission_interface/transmission_interface.h>
using namespace transmission_interface;
static bool same(double a, double b) { return !memcmp(&a, &b, 8); }
enum { POS, VEL, EFF, ABS, TRQ, NQ };
static const int MAXT = 3;
struct Cells { double a[NQ][2], j[NQ][2]; };
// every map copies its own quantity, so the effect of each map is visible in the raw data
struct Fake : Transmission {
  size_t n; bool abs, trq; Fake() : n(1), abs(false), trq(false) {}
  static void cp(const std::vector<double*>& f, const std::vector<double*>& t) { for (size_t i = 0; i < t.size() && i < f.size(); ++i) *t[i] = *f[i]; }
  void actuatorToJointEffort(const ActuatorData& a, JointData& j) override { cp(a.effort, j.effort); } void actuatorToJointVelocity(const ActuatorData& a, JointData& j) override { cp(a.velocity, j.velocity); } void actuatorToJointPosition(const ActuatorData& a, JointData& j) override { cp(a.position, j.position); }
  void jointToActuatorEffort(const JointData& j, ActuatorData& a) override { cp(j.effort, a.effort); } void jointToActuatorVelocity(const JointData& j, ActuatorData& a) override { cp(j.velocity, a.velocity); } void jointToActuatorPosition(const JointData& j, ActuatorData& a) override { cp(j.position, a.position); }
  bool hasActuatorToJointAbsolutePosition() const override { return abs; } bool hasActuatorToJointTorqueSensor() const override { return trq; }
  void actuatorToJointAbsolutePosition(const ActuatorData& a, JointData& j) override { if (!abs) throw std::runtime_error("unsupported"); cp(a.absolute_position, j.absolute_position); } void actuatorToJointTorqueSensor(const ActuatorData& a, JointData& j) override { if (!trq) throw std::runtime_error("unsupported"); cp(a.torque_sensor, j.torque_sensor); }
  size_t numActuators() const override { return n; } size_t numJoints() const override { return n; }
};
static Cells cells[MAXT], before[MAXT]; static Fake tr[MAXT]; static ActuatorData ad[MAXT]; static JointData jd[MAXT]; static bool bound[MAXT][NQ]; static int nt, q; static bool a2j;
static void fresh(int t) { for (int k = 0; k < NQ; ++k) for (size_t i = 0; i < tr[t].n; ++i) { cells[t].a[k][i] = vp_double("actuator"); cells[t].j[k][i] = vp_double("joint"); } }
static void compare();
template <class I, class H> static void go() {
  I iface; for (int t = 0; t < nt; ++t) iface.registerHandle(H(std::string(1, (char)('a' + t)), &tr[t], ad[t], jd[t]));
  for (int round = 0; round < 2; ++round) { for (int t = 0; t < nt; ++t) { if (round) fresh(t); before[t] = cells[t]; } iface.propagate(); compare(); }
}
static void compare() {
  for (int t = 0; t < nt; ++t) for (int k = 0; k < NQ; ++k) {
    bool moved = k <= EFF ? bound[t][k] && (q == 0 || q == k + 1) : q == 0 && a2j && bound[t][k] && (k == ABS ? tr[t].abs : tr[t].trq);
    for (size_t i = 0; i < tr[t].n; ++i) {
      double ja = cells[t].j[k][i], aa = cells[t].a[k][i]; Cells& b = before[t];
      VP_CHECK(same(ja, moved && a2j ? b.a[k][i] : b.j[k][i]), moved && a2j ? "a quantity was not propagated to the joint side" : "joint data that are not an output of this interface were modified");
      VP_CHECK(same(aa, moved && !a2j ? b.j[k][i] : b.a[k][i]), moved && !a2j ? "a quantity was not propagated to the actuator side" : "actuator data that are not an output of this interface were modified");
    }
    if (k == ABS && moved) vp_reach("absolute"); if (k == TRQ && moved) vp_reach("torque");
  }
}
extern "C" void vp_main() {
  int type = (int)vp_choice("interface", 8); a2j = type < 4; q = type % 4; // 0 state, else position, velocity, effort
  nt = 1 + (int)vp_choice("transmissions", 3);
  for (int t = 0; t < nt; ++t) {
    tr[t].n = t == 1 ? 2 : 1; tr[t].abs = vp_bool("has_absolute"); tr[t].trq = vp_bool("has_torque");
    fresh(t); bool s = q == 0; int extra = s ? (int)vp_choice("sensors_bound", 4) : 0; // regular quantities: all, or only the needed one
    bool all = s || vp_choice("all_bound", 2);
    bound[t][POS] = all || q == 1; bound[t][VEL] = all || q == 2; bound[t][EFF] = all || q == 3; bound[t][ABS] = (extra & 1) || (!s && all); bound[t][TRQ] = (extra & 2) || (!s && all);
    std::vector<double*>*av[NQ] = {&ad[t].position, &ad[t].velocity, &ad[t].effort, &ad[t].absolute_position, &ad[t].torque_sensor}, *jv[NQ] = {&jd[t].position, &jd[t].velocity, &jd[t].effort, &jd[t].absolute_position, &jd[t].torque_sensor};
    for (int k = 0; k < NQ; ++k) for (size_t i = 0; i < tr[t].n; ++i) { if (bound[t][k]) { av[k]->push_back(&cells[t].a[k][i]); jv[k]->push_back(&cells[t].j[k][i]); } }
  }
  switch (type) {
    case 0: go<ActuatorToJointStateInterface, ActuatorToJointStateHandle>(); break; case 1: go<ActuatorToJointPositionInterface, ActuatorToJointPositionHandle>(); break; case 2: go<ActuatorToJointVelocityInterface, ActuatorToJointVelocityHandle>(); break; case 3: go<ActuatorToJointEffortInterface, ActuatorToJointEffortHandle>(); break;
    case 4: go<JointToActuatorStateInterface, JointToActuatorStateHandle>(); break; case 5: go<JointToActuatorPositionInterface, JointToActuatorPositionHandle>(); break; case 6: go<JointToActuatorVelocityInterface, JointToActuatorVelocityHandle>(); break; default: go<JointToActuatorEffortInterface, JointToActuatorEffortHandle>();
  }
  vp_reach(a2j ? (q ? "a2j single" : "a2j state") : (q ? "j2a single" : "j2a state"));
}
