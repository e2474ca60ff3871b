// C14: claims of every hardware interface of the repository.
#include "vp.h"
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/posvel_command_interface.h>
#include <hardware_interface/posvelacc_command_interface.h>
#include <hardware_interface/position_velocity_torque_gains_command_interface.h>
#include <hardware_interface/joint_state_interface.h>
#include <hardware_interface/joint_mode_interface.h>
#include <hardware_interface/imu_sensor_interface.h>
#include <hardware_interface/force_torque_sensor_interface.h>
#include <hardware_interface/actuator_state_interface.h>
#include <hardware_interface/actuator_command_interface.h>
using namespace hardware_interface;
#ifdef VP_THOROUGH
enum { K = 4 };
#else
enum { K = 3 };
#endif
static double c; static JointCommandModes mode;
template <class H> struct Mk;
template <> struct Mk<JointStateHandle> { static JointStateHandle m(const std::string& n) { return JointStateHandle(n, &c, &c, &c); } };
template <> struct Mk<JointHandle> { static JointHandle m(const std::string& n) { return JointHandle(Mk<JointStateHandle>::m(n), &c); } };
template <> struct Mk<PosVelJointHandle> { static PosVelJointHandle m(const std::string& n) { return PosVelJointHandle(Mk<JointStateHandle>::m(n), &c, &c); } };
template <> struct Mk<PosVelAccJointHandle> { static PosVelAccJointHandle m(const std::string& n) { return PosVelAccJointHandle(Mk<JointStateHandle>::m(n), &c, &c, &c); } };
template <> struct Mk<PositionVelocityTorqueGainsJointHandle> { static PositionVelocityTorqueGainsJointHandle m(const std::string& n) { return PositionVelocityTorqueGainsJointHandle(Mk<JointStateHandle>::m(n), &c, &c, &c, &c, &c); } };
template <> struct Mk<ActuatorStateHandle> { static ActuatorStateHandle m(const std::string& n) { return ActuatorStateHandle(n, &c, &c, &c); } };
template <> struct Mk<ActuatorHandle> { static ActuatorHandle m(const std::string& n) { return ActuatorHandle(Mk<ActuatorStateHandle>::m(n), &c); } };
template <> struct Mk<JointModeHandle> { static JointModeHandle m(const std::string& n) { return JointModeHandle(n, &mode); } };
template <> struct Mk<ImuSensorHandle> { static ImuSensorHandle m(const std::string& n) { ImuSensorHandle::Data d; d.name = n; return ImuSensorHandle(d); } };
template <> struct Mk<ForceTorqueSensorHandle> { static ForceTorqueSensorHandle m(const std::string& n) { return ForceTorqueSensorHandle(n, "f", &c, &c); } };
static bool has(const std::vector<std::string>& v, const std::string& s) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == s) return true; return false; }
static void same(const std::set<std::string>& got, const std::vector<std::string>& exp) {
  for (std::set<std::string>::const_iterator i = got.begin(); i != got.end(); ++i) VP_CHECK(has(exp, *i), "a resource is claimed that was not acquired");
  for (size_t i = 0; i < exp.size(); ++i) VP_CHECK(got.count(exp[i]) == 1, "an acquired exclusive resource is not claimed");
  size_t n = 0; for (size_t i = 0; i < exp.size(); ++i) { bool dup = false; for (size_t k = 0; k < i; ++k) if (exp[k] == exp[i]) dup = true; if (!dup) ++n; }
  VP_CHECK(got.size() == n, "the claims contain duplicates or too few entries");
}
template <class I> static void run(bool exclusive) {
  typedef typename I::ResourceHandleType H; I iface, other; const char* names[2] = {"b", "d"};
  for (int i = 0; i < 2; ++i) { iface.registerHandle(Mk<H>::m(names[i])); other.registerHandle(Mk<H>::m(names[i])); }
  std::vector<std::string> exp; VP_CHECK(iface.getClaims().empty(), "registering a handle claims it"); int n = 1 + (int)vp_choice("operations", K); bool cl = false;
  for (int i = 0; i < n; ++i) {
    int op = (int)vp_choice("op", 4);
    if (op == 3) { iface.clearClaims(); exp.clear(); cl = true; vp_reach("cleared"); }
    else if (op == 2) { std::string q(1, (char)vp_int("claim", 'a', 'e')); iface.claim(q); exp.push_back(q); }
    else {
      std::string q(1, (char)vp_int("name", 'a', 'e')); bool threw = false, wrong = false;
      try { if (op == 1) { try { H h = static_cast<ResourceManager<H>&>(iface).getHandle(q); } catch (const std::logic_error&) {} } else { H h = iface.getHandle(q); VP_CHECK(h.getName() == q, "getHandle returns another resource"); } }
      catch (const HardwareInterfaceException&) { threw = true; } catch (...) { wrong = true; }
      VP_CHECK(!wrong, "a failed lookup must throw the hardware interface exception");
      bool known = q == "b" || q == "d"; if (op == 0) { VP_CHECK(threw == !known, "a lookup must fail exactly for unknown names"); if (exclusive && known) exp.push_back(q); vp_reach(known ? "acquired" : "failed lookup"); }
    }
    same(iface.getClaims(), exp);
  }
  VP_CHECK(other.getClaims().empty(), "claims leak into another interface"); if (!exp.empty() && cl) vp_reach("claimed after clear");
  std::vector<std::string> names_ = iface.getNames(); VP_CHECK(names_.size() == 2, "claiming changes the registered resources");
}
extern "C" void vp_main() {
  switch (vp_choice("interface", 16)) {
    case 0: run<JointCommandInterface>(true); break; case 1: run<EffortJointInterface>(true); break; case 2: run<VelocityJointInterface>(true); break; case 3: run<PositionJointInterface>(true); break;
    case 4: run<PosVelJointInterface>(true); break; case 5: run<PosVelAccJointInterface>(true); break; case 6: run<PositionVelocityTorqueGainsJointInterface>(true); break;
    case 7: run<JointStateInterface>(false); break; case 8: run<JointModeInterface>(false); break; case 9: run<ImuSensorInterface>(false); break; case 10: run<ForceTorqueSensorInterface>(false); break;
    case 11: run<ActuatorStateInterface>(false); break; case 12: run<ActuatorCommandInterface>(false); break; case 13: run<EffortActuatorInterface>(false); break; case 14: run<VelocityActuatorInterface>(false); break; default: run<PositionActuatorInterface>(false);
  }
}
