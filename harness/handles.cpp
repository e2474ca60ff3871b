// C16: handles: null checks at construction, and which storage each accessor touches.
#include "vp.h"
#include <cstring>
#include <vector>
#include <hardware_interface/posvel_command_interface.h>
#include <hardware_interface/posvelacc_command_interface.h>
#include <hardware_interface/position_velocity_torque_gains_command_interface.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/joint_mode_interface.h>
#include <hardware_interface/imu_sensor_interface.h>
#include <hardware_interface/force_torque_sensor_interface.h>
#include <hardware_interface/actuator_command_interface.h>
using namespace hardware_interface;
static bool same(double a, double b) { return !memcmp(&a, &b, 8); }
enum { POS, VEL, EFF, ABS, TRQ, CMD, NC = 12 };
static double cell[NC], before[NC]; static bool null_[NC];
static double* ptr(int k) { null_[k] = vp_bool("null"); return null_[k] ? nullptr : &cell[k]; }
static void randomise() { for (int i = 0; i < NC; ++i) before[i] = cell[i] = vp_double("cell"); }
static void untouched(int except, double v, const char* msg) { for (int i = 0; i < NC; ++i) VP_CHECK(same(cell[i], i == except ? v : before[i]), msg); }
static bool anyNull(int a, int b) { for (int i = a; i < b; ++i) if (null_[i]) return true; return false; }
template <class S> static bool makeState(int kind, const std::string& n, S& out, bool& abs, bool& trq, bool& bad) {
  double *p = ptr(POS), *v = ptr(VEL), *e = ptr(EFF); abs = kind == 1 || kind == 2; trq = kind == 1 || kind == 3; double* a = abs ? ptr(ABS) : nullptr; double* t = trq ? ptr(TRQ) : nullptr;
  bad = anyNull(0, 5);
  try { if (kind == 0) out = S(n, p, v, e); else if (kind == 1) out = S(n, p, v, e, a, t); else if (kind == 2) out = S(n, p, v, e, a); else out = S(n, p, v, e, t, true); return true; }
  catch (const HardwareInterfaceException&) { return false; }
}
template <class H> static void readState(const H& h, const std::string& n, bool abs, bool trq) {
  VP_CHECK(h.getName() == n, "a handle reports another name"); randomise();
  VP_CHECK(same(h.getPosition(), cell[POS]) && same(h.getVelocity(), cell[VEL]) && same(h.getEffort(), cell[EFF]), "a getter does not return the current value of its own storage");
  VP_CHECK(h.getPositionPtr() == &cell[POS] && h.getVelocityPtr() == &cell[VEL] && h.getEffortPtr() == &cell[EFF], "a pointer getter does not return its own storage");
  VP_CHECK(h.hasAbsolutePosition() == abs && h.hasTorqueSensor() == trq, "the handle does not know which sensors it has");
  bool threw = false, t2 = false; try { VP_CHECK(same(h.getAbsolutePosition(), cell[ABS]), "the absolute position is not that of its storage"); } catch (const std::runtime_error&) { threw = true; } try { VP_CHECK(h.getAbsolutePositionPtr() == &cell[ABS], "the absolute position storage is wrong"); } catch (const std::runtime_error&) { t2 = true; }
  VP_CHECK(threw == !abs && t2 == !abs, "reading the absolute position must fail exactly when there is none");
  threw = t2 = false; try { VP_CHECK(same(h.getTorqueSensor(), cell[TRQ]), "the torque sensor value is not that of its storage"); } catch (const std::runtime_error&) { threw = true; } try { VP_CHECK(h.getTorqueSensorPtr() == &cell[TRQ], "the torque sensor storage is wrong"); } catch (const std::runtime_error&) { t2 = true; }
  VP_CHECK(threw == !trq && t2 == !trq, "reading the torque sensor must fail exactly when there is none");
  untouched(-1, 0, "a getter changed data");
}
#define SETTER(call, k) do { randomise(); double v = vp_double("command"); h.call(v); untouched(k, v, "a setter does not change exactly its own command"); } while (0)
#define GETTER(call, k) do { randomise(); VP_CHECK(same(h.call(), cell[k]), "a command getter does not return its own command"); untouched(-1, 0, "a getter changed data"); } while (0)
static void done(bool ok) { vp_reach(ok ? "constructed" : "rejected"); }
template <class S> static void stateHandle() { S s; bool a, t, bad; std::string n(1, (char)vp_int("name", 'a', 'z')); bool ok = makeState(vp_pick("sensors", 4), n, s, a, t, bad); VP_CHECK(ok == !bad, "a state handle must be rejected exactly when a data pointer is null"); done(ok); if (!ok) return; S copy(s); readState(copy, n, a, t); }
template <class S> static S goodState(const std::string& n, bool& a, bool& t) { int kind = vp_pick("sensors", 4); a = kind == 1 || kind == 2; t = kind == 1 || kind == 3; return kind == 0 ? S(n, &cell[POS], &cell[VEL], &cell[EFF]) : kind == 1 ? S(n, &cell[POS], &cell[VEL], &cell[EFF], &cell[ABS], &cell[TRQ]) : kind == 2 ? S(n, &cell[POS], &cell[VEL], &cell[EFF], &cell[ABS]) : S(n, &cell[POS], &cell[VEL], &cell[EFF], &cell[TRQ], true); }
#define BUILD(T, NCMD, ...) T h; bool ok = true, bad, a, t; std::string n(1, (char)vp_int("name", 'a', 'z')); JS s = goodState<JS>(n, a, t); double* c[6]; for (int i = 0; i < NCMD; ++i) c[i] = ptr(CMD + i); bad = anyNull(CMD, CMD + NCMD); \
  try { h = T(s, __VA_ARGS__); } catch (const HardwareInterfaceException&) { ok = false; } VP_CHECK(ok == !bad, "a command handle must be rejected exactly when a data pointer is null"); done(ok); if (!ok) return; readState(h, n, a, t);
extern "C" void vp_main() {
  int kind = vp_pick("handle", 11);
  if (kind == 0) { stateHandle<JointStateHandle>(); return; }
  if (kind == 1) { stateHandle<ActuatorStateHandle>(); return; }
  typedef JointStateHandle JS;
  if (kind == 2) { BUILD(JointHandle, 1, c[0]) SETTER(setCommand, CMD); GETTER(getCommand, CMD); VP_CHECK(h.getCommandPtr() == &cell[CMD], "the command storage is wrong"); return; }
  if (kind == 3) { typedef ActuatorStateHandle JS; BUILD(ActuatorHandle, 1, c[0]) SETTER(setCommand, CMD); GETTER(getCommand, CMD); VP_CHECK(h.getCommandPtr() == &cell[CMD], "the command storage is wrong"); return; }
  if (kind == 4 || kind == 5 || kind == 6) {
    double v[5];
    #define ALLSET(...) randomise(); for (int i = 0; i < 5; ++i) v[i] = vp_double("command"); h.setCommand(__VA_ARGS__); for (int i = 0; i < NC; ++i) VP_CHECK(same(cell[i], i >= CMD && i < CMD + N ? v[i - CMD] : before[i]), "setCommand does not change exactly the commands of the handle");
    if (kind == 4) { const int N = 2; BUILD(PosVelJointHandle, N, c[0], c[1]) SETTER(setCommandPosition, CMD); SETTER(setCommandVelocity, CMD + 1); GETTER(getCommandPosition, CMD); GETTER(getCommandVelocity, CMD + 1); ALLSET(v[0], v[1]) return; }
    if (kind == 5) { const int N = 3; BUILD(PosVelAccJointHandle, N, c[0], c[1], c[2]) SETTER(setCommandPosition, CMD); SETTER(setCommandVelocity, CMD + 1); SETTER(setCommandAcceleration, CMD + 2); GETTER(getCommandPosition, CMD); GETTER(getCommandVelocity, CMD + 1); GETTER(getCommandAcceleration, CMD + 2); ALLSET(v[0], v[1], v[2]) return; }
    const int N = 5; BUILD(PositionVelocityTorqueGainsJointHandle, N, c[0], c[1], c[2], c[3], c[4]) SETTER(setCommandPosition, CMD); SETTER(setCommandVelocity, CMD + 1); SETTER(setCommandEffort, CMD + 2); SETTER(setCommandKp, CMD + 3); SETTER(setCommandKd, CMD + 4);
    GETTER(getCommandPosition, CMD); GETTER(getCommandVelocity, CMD + 1); GETTER(getCommandEffort, CMD + 2); GETTER(getCommandKp, CMD + 3); GETTER(getCommandKd, CMD + 4); ALLSET(v[0], v[1], v[2], v[3], v[4]) return;
  }
  std::string n(1, (char)vp_int("name", 'a', 'z')), f(1, (char)vp_int("frame", 'a', 'z'));
  if (kind == 7) {
    JointCommandModes m[2] = {JointCommandModes::NOMODE, JointCommandModes::ERROR}; bool nul = vp_bool("null"), ok = true; JointModeHandle h; try { h = JointModeHandle(n, nul ? nullptr : &m[0]); } catch (const HardwareInterfaceException&) { ok = false; }
    VP_CHECK(ok == !nul, "a mode handle must be rejected exactly when its pointer is null"); done(ok); if (!ok) return; VP_CHECK(h.getName() == n, "a handle reports another name");
    JointCommandModes x = (JointCommandModes)vp_int("mode", -1, 6); m[0] = x; VP_CHECK(h.getMode() == x && h.getModePtr() == &m[0], "the mode is not that of the storage"); x = (JointCommandModes)vp_int("mode", -1, 6); h.setMode(x); VP_CHECK(m[0] == x && m[1] == JointCommandModes::ERROR, "setMode does not change exactly its storage"); return;
  }
  if (kind == 8) { ForceTorqueSensorHandle h(n, f, &cell[0], &cell[3]); VP_CHECK(h.getName() == n && h.getFrameId() == f, "a handle reports another name or frame"); VP_CHECK(h.getForce() == &cell[0] && h.getTorque() == &cell[3], "a force torque handle does not return its own storage"); done(true); return; }
  ImuSensorHandle::Data d; d.name = n; d.frame_id = f; double* q[6]; for (int i = 0; i < 6; ++i) q[i] = ptr(i); d.orientation = q[0]; d.orientation_covariance = q[1]; d.angular_velocity = q[2]; d.angular_velocity_covariance = q[3]; d.linear_acceleration = q[4]; d.linear_acceleration_covariance = q[5];
  ImuSensorHandle h = kind == 9 ? ImuSensorHandle(d) : ImuSensorHandle(n, f, q[0], q[1], q[2], q[3], q[4], q[5]);
  VP_CHECK(h.getName() == n && h.getFrameId() == f, "a handle reports another name or frame");
  VP_CHECK(h.getOrientation() == q[0] && h.getOrientationCovariance() == q[1] && h.getAngularVelocity() == q[2] && h.getAngularVelocityCovariance() == q[3] && h.getLinearAcceleration() == q[4] && h.getLinearAccelerationCovariance() == q[5], "an IMU handle does not return its own storage"); done(true);
}
