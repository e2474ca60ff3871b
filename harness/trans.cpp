// C24 C25 C26: transmission maps over all (real) values, for every transmission type.
#include "vp.h"
#include <cstring>
#include <memory>
#include <transmission_interface/transmission.h>
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
using namespace transmission_interface;
#ifndef TR
#define TR 0
#endif
static const int N = TR == 0 ? 1 : 2;
struct Space { // one space's cells; kinds: 0 position 1 velocity 2 effort 3 absolute position 4 torque sensor
  double v[5][2]; double before[5][2];
  std::vector<double*>& vec(ActuatorData& d, int k) { return k == 0 ? d.position : k == 1 ? d.velocity : k == 2 ? d.effort : k == 3 ? d.absolute_position : d.torque_sensor; }
  std::vector<double*>& vec(JointData& d, int k) { return k == 0 ? d.position : k == 1 ? d.velocity : k == 2 ? d.effort : k == 3 ? d.absolute_position : d.torque_sensor; }
  template <class D> void bind(D& d, int k) { vec(d, k).clear(); for (int i = 0; i < N; ++i) vec(d, k).push_back(&v[k][i]); }
};
static double in(const char* n) { return vp_double(n); }
static std::unique_ptr<Transmission> tr;
static double off[2];
static void make(bool ignoreAbs = false) {
  try {
#if TR == 0
    double r = in("reduction"); off[0] = in("offset"); tr.reset(new SimpleTransmission(r, off[0]));
#else
    std::vector<double> a{in("ar0"), in("ar1")}, j{in("jr0"), in("jr1")}, o{in("off0"), in("off1")}; off[0] = o[0]; off[1] = o[1];
# if TR == 1
    if (ignoreAbs) tr.reset(new DifferentialTransmission(a, j, true, o)); else if (vp_choice("ctor", 2)) tr.reset(new DifferentialTransmission(a, j, o)); else tr.reset(new DifferentialTransmission(a, j, false, o));
# else
    tr.reset(new FourBarLinkageTransmission(a, j, o));
# endif
#endif
  } catch (const TransmissionInterfaceException&) { vp_end(); } // zero reduction: C27
}
static Space A, J; static ActuatorData ad; static JointData jd;
static void fill(Space& s, const char* nm) { static char b[64]; for (int k = 0; k < 5; ++k) for (int i = 0; i < 2; ++i) s.v[k][i] = 1000 + 10 * k + i + (&s == &J ? 100 : 0); }
static void setIn(Space& s, int k, const char* n0, const char* n1) { s.v[k][0] = in(n0); if (N > 1) s.v[k][1] = in(n1); }
static void snap() { memcpy(A.before, A.v, sizeof A.v); memcpy(J.before, J.v, sizeof J.v); }
// every cell except (space,k) keeps its bits
static void onlyWrote(Space& s, int k, const char* msg) {
  for (int q = 0; q < 5; ++q) for (int i = 0; i < N; ++i) {
    if (&s != &A || q != k) VP_CHECK(!memcmp(&A.v[q][i], &A.before[q][i], 8), msg);
    if (&s != &J || q != k) VP_CHECK(!memcmp(&J.v[q][i], &J.before[q][i], 8), msg);
  }
}
static void a2j(int k) { switch (k) { case 0: tr->actuatorToJointPosition(ad, jd); break; case 1: tr->actuatorToJointVelocity(ad, jd); break; case 2: tr->actuatorToJointEffort(ad, jd); break; case 3: tr->actuatorToJointAbsolutePosition(ad, jd); break; default: tr->actuatorToJointTorqueSensor(ad, jd); } }
static void j2a(int k) { switch (k) { case 0: tr->jointToActuatorPosition(jd, ad); break; case 1: tr->jointToActuatorVelocity(jd, ad); break; default: tr->jointToActuatorEffort(jd, ad); } }
static void bindAll() { for (int k = 0; k < 5; ++k) { A.bind(ad, k); J.bind(jd, k); } }
// other transmissions of the type and earlier calls must not matter: a transmission keeps no state
static void history() {
  bindAll(); std::unique_ptr<Transmission> mine = std::move(tr);
#if TR == 0
  tr.reset(new SimpleTransmission(3, 5));
#elif TR == 1
  tr.reset(new DifferentialTransmission({3, -7}, {5, 11}, {13, 17}));
#else
  tr.reset(new FourBarLinkageTransmission({3, -7}, {5, 11}, {13, 17}));
#endif
  for (int use = 0; use < 2; ++use) {
    for (int k = 0; k < 5; ++k) for (int i = 0; i < 2; ++i) { A.v[k][i] = 19 + k + i + use; J.v[k][i] = 23 - k - i + use; }
    for (int k = 0; k < 5; ++k) a2j(k);
    for (int k = 0; k < 5; ++k) for (int i = 0; i < 2; ++i) { A.v[k][i] = 19 + k + i + use; J.v[k][i] = 23 - k - i + use; }
    for (int k = 0; k < 3; ++k) j2a(k);
    if (!use) tr = std::move(mine);
  }
  ad = ActuatorData(); jd = JointData();
}

#if defined(INVERSE)   // C24
extern "C" void vp_main() {
  make(); history(); fill(A, "a"); fill(J, "j");
  int k = (int)vp_choice("kind", 3); bool dir = vp_choice("direction", 2); bool all = vp_choice("bind_all", 2);
  if (all) bindAll(); else { A.bind(ad, k); J.bind(jd, k); } // other data vectors may stay empty
  if (dir == 0) {
    setIn(A, k, "x0", "x1"); double x0 = A.v[k][0], x1 = A.v[k][1]; snap();
    a2j(k); onlyWrote(J, k, "an actuator-to-joint map wrote something other than its joint values");
    A.v[k][0] = 555; A.v[k][1] = 666; snap();
    j2a(k); onlyWrote(A, k, "a joint-to-actuator map wrote something other than its actuator values");
    vp_real_eq(A.v[k][0], x0, x0, "actuator to joint and back does not return the first actuator value"); if (N > 1) vp_real_eq(A.v[k][1], x1, x1, "actuator to joint and back does not return the second actuator value");
    vp_reach(k == 0 ? "position" : k == 1 ? "velocity" : "effort");
  } else {
    setIn(J, k, "x0", "x1"); double x0 = J.v[k][0], x1 = J.v[k][1]; snap();
    j2a(k); onlyWrote(A, k, "a joint-to-actuator map wrote something other than its actuator values");
    J.v[k][0] = 555; J.v[k][1] = 666; snap();
    a2j(k); onlyWrote(J, k, "an actuator-to-joint map wrote something other than its joint values");
    vp_real_eq(J.v[k][0], x0, x0, "joint to actuator and back does not return the first joint value"); if (N > 1) vp_real_eq(J.v[k][1], x1, x1, "joint to actuator and back does not return the second joint value");
    vp_reach("back");
  }
}
#elif defined(POWER)   // C25
// The recorded finding: the four-bar linkage's documented effort formulas add exactly this much power. Any other deviation is a new violation.
static void fourBar() {
#if TR == 2
  auto* f = static_cast<FourBarLinkageTransmission*>(tr.get()); double a0 = f->getActuatorReduction()[0] * f->getJointReduction()[0], a1 = f->getActuatorReduction()[1];
  double *v = A.v[1], *e = A.v[2]; double pa = v[0] * e[0] + v[1] * e[1], pj = J.v[1][0] * J.v[2][0] + J.v[1][1] * J.v[2][1];
  vp_real_eq(pj, pa + v[0] * e[0] - a1 / a0 * e[1] * v[0] - a0 / a1 * e[0] * v[1], std::abs(pa) + std::abs(v[0] * e[0]) + std::abs(a1 / a0 * e[1] * v[0]) + std::abs(a0 / a1 * e[0] * v[1]), "four-bar linkage: joint power differs from actuator power by something other than the documented formulas give");
#endif
}
extern "C" void vp_main() {
  make(); history(); fill(A, "a"); fill(J, "j"); bindAll();
  int what = (int)vp_choice("what", 5);
  auto power = [](Space& s) { double p = s.v[1][0] * s.v[2][0]; if (N > 1) p += s.v[1][1] * s.v[2][1]; return p; };
  if (what == 0) { setIn(A, 1, "v0", "v1"); setIn(A, 2, "e0", "e1"); a2j(1); a2j(2); fourBar(); vp_reach("power a2j"); vp_real_eq(power(A), power(J), power(A), "power changes from actuator to joint space"); }
  else if (what == 1) { setIn(J, 1, "v0", "v1"); setIn(J, 2, "e0", "e1"); j2a(1); j2a(2); fourBar(); vp_reach("power j2a"); vp_real_eq(power(A), power(J), power(J), "power changes from joint to actuator space"); }
  else if (what == 2) { // velocity map = derivative of the (affine) position map
    double p0[2], p1[2]; setIn(A, 0, "p0", "p1"); p0[0] = A.v[0][0]; p0[1] = A.v[0][1]; a2j(0); double j0[2] = {J.v[0][0], J.v[0][1]};
    setIn(A, 0, "q0", "q1"); p1[0] = A.v[0][0]; p1[1] = A.v[0][1]; a2j(0); double j1[2] = {J.v[0][0], J.v[0][1]};
    for (int i = 0; i < N; ++i) A.v[1][i] = p1[i] - p0[i]; a2j(1);
    for (int i = 0; i < N; ++i) vp_real_eq(J.v[1][i], j1[i] - j0[i], std::abs(j1[i]) + std::abs(j0[i]), "joint velocities are not the derivative of joint positions");
    vp_reach("derivative a2j");
  } else if (what == 3) {
    double p0[2], p1[2]; setIn(J, 0, "p0", "p1"); p0[0] = J.v[0][0]; p0[1] = J.v[0][1]; j2a(0); double j0[2] = {A.v[0][0], A.v[0][1]};
    setIn(J, 0, "q0", "q1"); p1[0] = J.v[0][0]; p1[1] = J.v[0][1]; j2a(0); double j1[2] = {A.v[0][0], A.v[0][1]};
    for (int i = 0; i < N; ++i) J.v[1][i] = p1[i] - p0[i]; j2a(1);
    for (int i = 0; i < N; ++i) vp_real_eq(A.v[1][i], j1[i] - j0[i], std::abs(j1[i]) + std::abs(j0[i]), "actuator velocities are not the derivative of actuator positions");
    vp_reach("derivative j2a");
  } else {
    for (int i = 0; i < N; ++i) J.v[0][i] = off[i];
    j2a(0); for (int i = 0; i < N; ++i) vp_real_eq(A.v[0][i], 0.0, off[i], "actuators are not at zero when the joints are at their offset");
    for (int i = 0; i < N; ++i) A.v[0][i] = 0.0;
    a2j(0); for (int i = 0; i < N; ++i) vp_real_eq(J.v[0][i], off[i], off[i], "joints are not at their offset when the actuators are at zero");
    vp_reach("offset");
  }
}
#else                  // SENSORS: C26
extern "C" void vp_main() {
  bool ign = TR == 1 && vp_choice("ignore", 2); make(ign); history(); fill(A, "a"); fill(J, "j");
  bool abs = vp_choice("absolute", 2); int k = abs ? 3 : 4, ref = abs ? 0 : 2; bool all = vp_choice("bind_all", 2);
  VP_CHECK(tr->hasActuatorToJointAbsolutePosition(), "absolute encoder support is not announced"); VP_CHECK(tr->hasActuatorToJointTorqueSensor(), "torque sensor support is not announced");
  if (all) bindAll(); else { A.bind(ad, k); J.bind(jd, k); }
  setIn(A, k, "x0", "x1"); double x[2] = {A.v[k][0], A.v[k][1]}; snap();
  a2j(k); onlyWrote(J, k, "a sensor map wrote something other than its joint values");
  double y[2] = {J.v[k][0], J.v[k][1]};
  if (ign && abs) { VP_CHECK(!memcmp(&y[0], &x[1], 8) && !memcmp(&y[1], &x[0], 8), "encoder values are not passed through (first from second, second from first)"); vp_reach("pass through"); return; }
  A.bind(ad, ref); J.bind(jd, ref); A.v[ref][0] = x[0]; A.v[ref][1] = x[1];
  a2j(ref);
  for (int i = 0; i < N; ++i) vp_real_eq(y[i], J.v[ref][i], y[i], abs ? "joint absolute position does not follow the position map" : "joint torque sensor does not follow the effort map");
  vp_reach(abs ? "absolute" : "torque");
}
#endif
