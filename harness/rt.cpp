// C36: the real-time safe functions take no lock, never wait and leave the heap alone.
#include "vp.h"
static bool inRt; // inside a real-time safe function
#define VP_ON_LOCK if (inRt) VP_CHECK(false, "a real-time function takes a lock");
#ifdef MAPS
#include <cmath>
#include <memory>
#include <transmission_interface/transmission_interface.h>
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
#include <joint_limits_interface/joint_limits_interface.h>
#include "vp_sched.h"
extern void (*vp_sleep_hook)();
static void onSleep() { VP_CHECK(!inRt, "a real-time function sleeps"); }
template <class F> static void realtime(F f, const char* what) { long n = vp_heap_ops(); inRt = true; f(); inRt = false; VP_CHECK(vp_heap_ops() == n, what); }
using namespace transmission_interface; using namespace joint_limits_interface;
static double va[5][4], vj[5][4];
template <class I, class H> static void propagate(Transmission** t, int nt, bool sensors) {
  I iface; for (int k = 0; k < nt; ++k) { ActuatorData a; JointData j; for (size_t i = 0; i < t[k]->numActuators(); ++i) { a.position.push_back(&va[0][2 * k + i]); a.velocity.push_back(&va[1][2 * k + i]); a.effort.push_back(&va[2][2 * k + i]); if (sensors) { a.absolute_position.push_back(&va[3][2 * k + i]); a.torque_sensor.push_back(&va[4][2 * k + i]); } }
    for (size_t i = 0; i < t[k]->numJoints(); ++i) { j.position.push_back(&vj[0][2 * k + i]); j.velocity.push_back(&vj[1][2 * k + i]); j.effort.push_back(&vj[2][2 * k + i]); if (sensors) { j.absolute_position.push_back(&vj[3][2 * k + i]); j.torque_sensor.push_back(&vj[4][2 * k + i]); } }
    iface.registerHandle(H(k ? "a transmission with a rather long name" : "another transmission with a long name", t[k], a, j)); }
  for (int r = 0; r < 2; ++r) realtime([&] { iface.propagate(); }, "propagating transmissions uses the heap"); vp_reach("propagated");
}
struct Joint { double pos, vel, eff, cmd; };
static Joint jo[2];
static hardware_interface::JointHandle handle(const std::string& n, Joint& j) { return hardware_interface::JointHandle(hardware_interface::JointStateHandle(n, &j.pos, &j.vel, &j.eff), &j.cmd); }
template <class I> static auto resetOf(I& i, int) -> decltype(i.reset(), true) { i.reset(); return true; }
template <class I> static bool resetOf(I&, long) { return false; }
static JointLimits lims() { JointLimits l; l.has_velocity_limits = l.has_effort_limits = true; l.has_position_limits = vp_bool("positions"); l.has_acceleration_limits = vp_bool("accelerations"); l.min_position = -2; l.max_position = 2; l.max_velocity = 1; l.max_acceleration = 1; l.max_effort = 3; return l; }
static SoftJointLimits softs() { SoftJointLimits s; s.min_position = -1.5; s.max_position = 1.5; s.k_position = 2; s.k_velocity = 1.5; return s; }
template <class H, bool SOFT> struct Mk;
template <class H> struct Mk<H, false> { static H make(const std::string& n, Joint& j) { return H(handle(n, j), lims()); } };
template <class H> struct Mk<H, true> { static H make(const std::string& n, Joint& j) { return H(handle(n, j), lims(), softs()); } };
template <class H, class I, bool SOFT> static void limit() {
  I m; for (int i = 0; i < 2; ++i) m.registerHandle(Mk<H, SOFT>::make(i ? "a joint with a rather long name" : "another joint with a long name", jo[i]));
  for (int r = 0; r < 2; ++r) {
    for (int i = 0; i < 2; ++i) { jo[i].pos = vp_double("position"); jo[i].vel = vp_double("velocity"); jo[i].eff = 0; jo[i].cmd = vp_double("command"); VP_ASSUME(std::fabs(jo[i].pos) <= 1e9 && std::fabs(jo[i].vel) <= 1e9 && std::fabs(jo[i].cmd) <= 1e9); if (!r) break; }
    if (r && vp_bool("reset")) realtime([&] { resetOf(m, 0); }, "resetting joint limits uses the heap");
    realtime([&] { m.enforceLimits(ros::Duration(0.25)); }, "enforcing joint limits uses the heap"); }
  vp_reach("enforced");
}
extern "C" void vp_main() {
  vp_sleep_hook = onSleep; vp_heap_ops();
  if (vp_bool("limits")) {
    switch (vp_pick("type", 6)) {
      case 0: limit<PositionJointSaturationHandle, PositionJointSaturationInterface, false>(); break; case 1: limit<PositionJointSoftLimitsHandle, PositionJointSoftLimitsInterface, true>(); break;
      case 2: limit<VelocityJointSaturationHandle, VelocityJointSaturationInterface, false>(); break; case 3: limit<VelocityJointSoftLimitsHandle, VelocityJointSoftLimitsInterface, true>(); break;
      case 4: limit<EffortJointSaturationHandle, EffortJointSaturationInterface, false>(); break; default: limit<EffortJointSoftLimitsHandle, EffortJointSoftLimitsInterface, true>(); }
    return; }
  int kind = vp_pick("transmission", 4); std::vector<double> r(2, 2.0), o(2, 0.5), f(2, 3.0); f[1] = 1.5; SimpleTransmission s(2.0, 0.5); DifferentialTransmission d(r, f, kind == 3, o); FourBarLinkageTransmission b(r, f, o); Transmission* t[2] = {kind == 0 ? (Transmission*)&s : kind == 2 ? (Transmission*)&b : (Transmission*)&d, &s}; int nt = 1 + vp_pick("two", 2);
  for (int q = 0; q < 5; ++q) for (int i = 0; i < 4; ++i) { va[q][i] = vp_double("actuator"); vj[q][i] = vp_double("joint"); }
  bool sensors = vp_bool("sensors");
  switch (vp_pick("interface", 8)) {
    case 0: propagate<ActuatorToJointStateInterface, ActuatorToJointStateHandle>(t, nt, sensors); break; case 1: propagate<ActuatorToJointPositionInterface, ActuatorToJointPositionHandle>(t, nt, sensors); break; case 2: propagate<ActuatorToJointVelocityInterface, ActuatorToJointVelocityHandle>(t, nt, sensors); break; case 3: propagate<ActuatorToJointEffortInterface, ActuatorToJointEffortHandle>(t, nt, sensors); break;
    case 4: propagate<JointToActuatorStateInterface, JointToActuatorStateHandle>(t, nt, sensors); break; case 5: propagate<JointToActuatorPositionInterface, JointToActuatorPositionHandle>(t, nt, sensors); break; case 6: propagate<JointToActuatorVelocityInterface, JointToActuatorVelocityHandle>(t, nt, sensors); break; default: propagate<JointToActuatorEffortInterface, JointToActuatorEffortHandle>(t, nt, sensors); }
}
#else
#define NC 3
#ifndef MAXC
#define MAXC 2
#endif
#include "cm.h"
#include "vp_sched.h"
enum { INITIALIZED, RUNNING, STOPPED, WAITING, ABORTED };
static MockHW* hw; static ControllerManager* cm; static MockController* ct[NC]; static int updates; static bool picky = true; static double wall = 1000; static double wallClock() { return wall; }
struct Loader : controller_manager::ControllerLoaderInterface { int next; Loader() : ControllerLoaderInterface("L"), next(0) {}
  ControllerBaseSharedPtr createInstance(const std::string&) override { MockController* c = new MockController(); c->id = next; c->claims = claim('I', (char)('x' + next)); ct[next++] = c; return ControllerBaseSharedPtr(c); }
  std::vector<std::string> getDeclaredClasses() override { return std::vector<std::string>(1, "T"); } void reload() override {} };
struct QuietHW : MockHW { // keeps no lists, so that what it does leaves the heap alone
  void doSwitch(const std::list<ControllerInfo>&, const std::list<ControllerInfo>&) override { ev.add(DOSWITCH, 0); } };
static void cycle(bool reset) {
  ++updates; hw->all = updates < 3 && picky ? vp_pick("hardware", 3) : 0; for (int i = 0; i < NC; ++i) hw->each[i] = hw->all; ros::Time t(100 + updates); ros::Duration p(0.5);
  sched::rtPoints = 0; sched::rtLimit = 20000; long n = vp_heap_ops(); inRt = true; cm->update(t, p, reset); inRt = false; VP_CHECK(vp_heap_ops() == n, "an update cycle uses the heap"); sched::rtLimit = 0;
}
static bool concurrent;
static void onSleep() { if (inRt) { VP_CHECK(false, "an update cycle sleeps"); vp_end(); } if (concurrent) vp_co_yield(); else { if (updates > 12) { VP_CHECK(false, "a request is not completed although update cycles run"); vp_end(); } cycle(vp_bool("reset")); } }
static int what; static void service() {
  switch (what) {
    case 0: cm->unloadController(nm(1)); break;
    case 1: cm->loadController(nm(2)); break;
    case 2: { controller_manager_msgs::SwitchController s; s.request.start_controllers.push_back(nm(1)); s.request.stop_controllers.push_back(nm(0)); s.request.strictness = 2; s.request.start_asap = vp_bool("asap"); s.request.timeout = 0; ros_stub::call("/controller_manager/switch_controller", s); break; }
    case 3: { controller_manager_msgs::ListControllers s; ros_stub::call("/controller_manager/list_controllers", s); break; }
    case 4: { controller_manager_msgs::ReloadControllerLibraries s; s.request.force_kill = true; ros_stub::call("/controller_manager/reload_controller_libraries", s); break; }
    case 5: { controller_manager_msgs::UnloadController s; s.request.name = nm(0); ros_stub::call("/controller_manager/unload_controller", s); break; }
    default: { controller_manager_msgs::ListControllerTypes s; ros_stub::call("/controller_manager/list_controller_types", s); }
  }
}
extern "C" void vp_main() {
  vp_sleep_hook = onSleep; vp_clock_hook = wallClock; ros_stub::now() = 100; vp_heap_ops(); QuietHW h; hw = &h; for (int i = 0; i < NC; ++i) { ros_stub::setString("/" + nm(i) + "/type", "T"); h.claims[i] = claim('I', (char)('x' + i)); }
  ControllerManager m(&h, ros::NodeHandle("")); cm = &m; Loader* l = new Loader(); m.registerControllerLoader(controller_manager::ControllerLoaderInterfaceSharedPtr(l));
#ifdef SUSPEND
  if (!m.loadController(nm(0)) || !m.loadController(nm(1))) vp_end(); what = vp_pick("call", 7); picky = what == 2; if (vp_bool("update_before")) { updates = 9; cycle(false); } updates = 0; if (what == 2 || vp_bool("running")) ct[0]->startRequest(ros::Time(50));
  sched::lo = (const char*)&m; sched::hi = sched::lo + sizeof m; sched::budget = BUDGET; concurrent = true; int id = sched::add(service); sched::on = true; int turns = 0;
  while (!sched::th[0].done) { if (++turns > 30) { VP_CHECK(false, "a service call is not completed although update cycles run"); vp_end(); } sched::current = id; vp_co_resume(id); sched::current = 0; cycle(false); cycle(true); }
  sched::on = false; vp_reach("done"); if (turns > 1) vp_reach("suspended");
#else
  int n = 1 + vp_pick("controllers", MAXC); for (int i = 0; i < n; ++i) if (!m.loadController(nm(i))) vp_end();
  for (int i = 0; i < n; ++i) { int s = vp_pick("state", 5); ros::Time t(50); if (s == RUNNING) ct[i]->startRequest(t); if (s == STOPPED) ct[i]->stopRequest(t); if (s == WAITING) ct[i]->waitRequest(t); if (s == ABORTED) ct[i]->abortRequest(t); }
  picky = false; cycle(vp_bool("reset")); picky = true; updates = 0; std::vector<std::string> a, b; for (int i = 0; i < n; ++i) (ct[i]->isRunning() ? b : a).push_back(nm(i));
  int k = vp_pick("request", 3); if (k == 1) b.clear(); if (k == 2) a.clear(); m.switchController(a, b, 2, vp_bool("asap"), vp_bool("timeout") ? 1.0 : 0.0); vp_reach(a.empty() ? "stopped" : "switched"); cycle(false); vp_reach("cycles");
#endif
}
#endif
