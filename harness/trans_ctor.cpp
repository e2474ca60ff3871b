// C27: constructor validation of transmissions and transmission handles.
#include "vp.h"
#include <cstring>
#include <transmission_interface/transmission_interface.h>
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
using namespace transmission_interface;
static bool same(double a, double b) { return !memcmp(&a, &b, 8); }
#if defined(CTOR)
static std::vector<double> list(const char* n, int size) { std::vector<double> v; for (int i = 0; i < size; ++i) v.push_back(vp_double(n)); return v; }
static bool sameV(const std::vector<double>& a, const std::vector<double>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
template <class T> static void accessors(const T& t, const std::vector<double>& a, const std::vector<double>& j, const std::vector<double>& o) {
  VP_CHECK(sameV(t.getActuatorReduction(), a), "getActuatorReduction does not return the given reductions"); VP_CHECK(sameV(t.getJointReduction(), j), "getJointReduction does not return the given reductions"); VP_CHECK(sameV(t.getJointOffset(), o), "getJointOffset does not return the given offsets");
  VP_CHECK(t.numActuators() == 2 && t.numJoints() == 2, "wrong dimensions");
}
extern "C" void vp_main() {
  int kind = (int)vp_choice("kind", 5);
  if (kind == 0) {
    double r = vp_double("reduction"), o = vp_double("offset"); bool threw = false; bool dflt = vp_choice("default_offset", 2);
    try { SimpleTransmission t = dflt ? SimpleTransmission(r) : SimpleTransmission(r, o); VP_CHECK(same(t.getActuatorReduction(), r) && same(t.getJointOffset(), dflt ? 0.0 : o), "accessors do not return the given parameters"); VP_CHECK(t.numActuators() == 1 && t.numJoints() == 1, "wrong dimensions"); }
    catch (const TransmissionInterfaceException&) { threw = true; }
    VP_CHECK(threw == (r == 0.0), "a simple transmission must be rejected exactly when its reduction is zero"); vp_reach(threw ? "simple rejected" : "simple accepted"); return;
  }
  int na = (int)vp_choice("na", 4), nj = (int)vp_choice("nj", 4), no = (int)vp_choice("no", 4);
  std::vector<double> a = list("a", na), j = list("j", nj), o = list("o", no); bool threw = false; bool dflt = kind == 4;
  std::vector<double> zero(2, 0.0);
  try {
    if (kind == 1) accessors(DifferentialTransmission(a, j, o), a, j, o);
    else if (kind == 2) accessors(DifferentialTransmission(a, j, vp_choice("ignore", 2), o), a, j, o);
    else if (kind == 3) accessors(FourBarLinkageTransmission(a, j, o), a, j, o);
    else if (vp_choice("which", 2)) accessors(DifferentialTransmission(a, j), a, j, zero); else accessors(FourBarLinkageTransmission(a, j), a, j, zero);
  } catch (const TransmissionInterfaceException&) { threw = true; }
  bool bad = na != 2 || nj != 2 || (!dflt && no != 2);
  if (!bad) bad = (a[0] == 0.0) | (a[1] == 0.0) | (j[0] == 0.0) | (j[1] == 0.0);
  VP_CHECK(threw == bad, "a two-joint transmission must be rejected exactly when a list has the wrong length or a reduction is zero");
  vp_reach(threw ? "rejected" : "accepted");
}
#else
struct Fake : Transmission {
  size_t a, j; Fake(size_t a_, size_t j_) : a(a_), j(j_) {}
  void actuatorToJointEffort(const ActuatorData&, JointData&) override {} void actuatorToJointVelocity(const ActuatorData&, JointData&) override {} void actuatorToJointPosition(const ActuatorData&, JointData&) override {}
  void jointToActuatorEffort(const JointData&, ActuatorData&) override {} void jointToActuatorVelocity(const JointData&, ActuatorData&) override {} void jointToActuatorPosition(const JointData&, ActuatorData&) override {}
  size_t numActuators() const override { return a; } size_t numJoints() const override { return j; }
};
template <class H> static bool construct(Transmission* t, const ActuatorData& a, const JointData& j) {
  try { H h("name", t, a, j); VP_CHECK(h.getName() == "name", "the handle does not have the given name"); return true; } catch (const TransmissionInterfaceException&) { return false; }
}
static double cell;
extern "C" void vp_main() {
  static const int dims[3][2] = {{1, 1}, {2, 2}, {2, 1}}; int d = (int)vp_choice("dims", 3); Fake f(dims[d][0], dims[d][1]);
    int base = (int)vp_choice("base", 3);        // 0: all empty, 1: all right, 2: only the positions right
  ActuatorData A; JointData J; std::vector<double*>* v[10] = {&A.position, &A.velocity, &A.effort, &A.absolute_position, &A.torque_sensor, &J.position, &J.velocity, &J.effort, &J.absolute_position, &J.torque_sensor};
  int x = (int)vp_choice("first", 10), y = x + (int)vp_choice("second", 10 - x); // two lists vary, the others are as in base
  bool missing = y == x && base == 1 && vp_choice("missing", 2);
  bool bad = missing, regular = false;
  for (int k = 0; k < 10; ++k) {
    size_t want = k < 5 ? f.a : f.j; size_t n = base == 1 || (base == 2 && k % 5 == 0) ? want : 0; bool vary = k == x || k == y;
    if (vary) n = vp_choice("size", 4);
    int null = vary ? (int)vp_int("null_at", -1, n - 1) : -1;
    for (size_t i = 0; i < n; ++i) v[k]->push_back((int)i == null ? nullptr : &cell);
    if (n && n != want) bad = true; bad = bad | (null >= 0); if (k % 5 < 3 && n) regular = true;
  }
  if (!regular) bad = true;
  bool ok; Transmission* t = missing ? nullptr : &f;
  switch ((x + 3 * y + d) % 8) { // the handle type is tied to the other choices
    case 0: ok = construct<ActuatorToJointStateHandle>(t, A, J); break; case 1: ok = construct<ActuatorToJointPositionHandle>(t, A, J); break; case 2: ok = construct<ActuatorToJointVelocityHandle>(t, A, J); break; case 3: ok = construct<ActuatorToJointEffortHandle>(t, A, J); break;
    case 4: ok = construct<JointToActuatorStateHandle>(t, A, J); break; case 5: ok = construct<JointToActuatorPositionHandle>(t, A, J); break; case 6: ok = construct<JointToActuatorVelocityHandle>(t, A, J); break; default: ok = construct<JointToActuatorEffortHandle>(t, A, J);
  }
  VP_CHECK(ok == !bad, "a handle must be rejected exactly for a missing transmission, no data, a list of the wrong length or a null pointer");
  vp_reach(ok ? "accepted" : "rejected");
}
#endif
