// C22: what joint limit handles demand, and limits interfaces reaching every registered joint.
#include "vp.h"
#include <cmath>
#include <cstring>
#include <memory>
#include <joint_limits_interface/joint_limits_interface.h>
using namespace joint_limits_interface;
#define NJ 3
struct Joint { double pos, vel, eff, cmd; };
static Joint real_[NJ], twin[NJ], lone;
static hardware_interface::JointHandle handle(const std::string& n, Joint& j) { return hardware_interface::JointHandle(hardware_interface::JointStateHandle(n, &j.pos, &j.vel, &j.eff), &j.cmd); }
static JointLimits lims(int i) { JointLimits l; l.has_position_limits = l.has_velocity_limits = l.has_acceleration_limits = l.has_effort_limits = true; l.min_position = -2 - i; l.max_position = 2 + i; l.max_velocity = 0.5 + i; l.max_acceleration = 0.25 + i; l.max_effort = 3 + i; return l; }
static SoftJointLimits softs(int i) { SoftJointLimits s; s.min_position = -1.5 - i; s.max_position = 1.5 + i; s.k_position = 2; s.k_velocity = 1.5; return s; }
template <class H, bool SOFT> struct Mk;
template <class H> struct Mk<H, false> { static H make(const std::string& n, Joint& j, const JointLimits& l, const SoftJointLimits&) { return H(handle(n, j), l); } };
template <class H> struct Mk<H, true> { static H make(const std::string& n, Joint& j, const JointLimits& l, const SoftJointLimits& s) { return H(handle(n, j), l, s); } };
template <class I> static auto resetOf(I& i, int) -> decltype(i.reset(), true) { i.reset(); return true; }
template <class I> static bool resetOf(I&, long) { return false; }
static bool sameJoint(const Joint& a, const Joint& b) { return a.pos == b.pos && a.vel == b.vel && a.eff == b.eff && (a.cmd == b.cmd); }
static void load(int step) { for (int i = 0; i < NJ; ++i) { real_[i].pos = 0.25 * i + 0.125 * step; real_[i].vel = 0.125 * i; real_[i].eff = 0; real_[i].cmd = (i + step) % 2 ? -40 : 40; twin[i] = real_[i]; } }
template <class H, class I, bool SOFT> static void iface() {
  I m; std::string names[NJ]; std::vector<H> tw; int n = vp_pick("joints", NJ + 1);
  for (int i = 0; i < NJ; ++i) { if (i < n) names[i] = std::string(1, (char)vp_int("name", 'a', 'c')); else names[i] = "unregistered"; }
  int idx[NJ]; // joint i is reached under its name unless a later one took the name
  load(0);
  for (int i = 0; i < n; ++i) { m.registerHandle(Mk<H, SOFT>::make(names[i], real_[i], lims(i), softs(i))); }
  for (int i = 0; i < NJ; ++i) { tw.push_back(Mk<H, SOFT>::make(names[i], twin[i], lims(i), softs(i))); idx[i] = i < n; for (int k = i + 1; k < n; ++k) if (i < n && names[k] == names[i]) { idx[i] = 0; vp_reach("replaced"); } }
  for (int st = 0; st < 3; ++st) {
    load(st); double dt = 0.25 + 0.125 * st;
    if (st && vp_bool("reset")) { if (resetOf(m, 0)) { for (int i = 0; i < NJ; ++i) if (idx[i]) resetOf(tw[i], 0); vp_reach("reset"); } }
    m.enforceLimits(ros::Duration(dt));
    for (int i = 0; i < NJ; ++i) { if (idx[i]) tw[i].enforceLimits(ros::Duration(dt)); VP_CHECK(sameJoint(real_[i], twin[i]), idx[i] ? "a registered joint was not enforced exactly once with the given period" : "a joint that is not registered was changed"); }
  }
  std::string q(1, (char)vp_int("query", 'a', 'd')); int at = -1; for (int i = 0; i < n; ++i) if (names[i] == q) at = i;
  try { H h = m.getHandle(q); VP_CHECK(at >= 0, "an unknown joint was found"); VP_CHECK(h.getName() == q, "the handle of another joint was returned"); load(9); h.enforceLimits(ros::Duration(0.25)); for (int i = 0; i < NJ; ++i) VP_CHECK((i == at) == !sameJoint(real_[i], twin[i]), "the returned handle acts on another joint"); vp_reach("found"); }
  catch (const JointLimitsInterfaceException&) { VP_CHECK(at < 0, "a registered joint was not found"); vp_reach("not found"); }
  catch (...) { VP_CHECK(false, "looking up an unknown joint does not throw the joint limits exception"); }
}
template <class H, bool SOFT> static void ctor(bool needVel, bool needEff) {
  JointLimits l = lims(0); l.has_position_limits = vp_bool("position"); l.has_velocity_limits = vp_bool("velocity"); l.has_acceleration_limits = vp_bool("acceleration"); l.has_jerk_limits = vp_bool("jerk"); l.has_effort_limits = vp_bool("effort");
  bool bad = (needVel && !l.has_velocity_limits) || (needEff && !l.has_effort_limits), thrown = false;
  try { H h = Mk<H, SOFT>::make("j", lone, l, softs(0)); VP_CHECK(h.getName() == "j", "the handle has another name"); }
  catch (const JointLimitsInterfaceException&) { thrown = true; }
  catch (...) { VP_CHECK(false, "a missing limit is not reported with the joint limits exception"); }
  VP_CHECK(!bad || thrown, "a handle was built without a limit it needs"); VP_CHECK(bad || !thrown, "a handle was refused although no limit it needs is missing");
  vp_reach(thrown ? "refused" : "built");
}
extern "C" void vp_main() {
  int t = vp_pick("type", 6);
#ifdef CTOR
  switch (t) {
    case 0: ctor<PositionJointSaturationHandle, false>(false, false); break; case 1: ctor<PositionJointSoftLimitsHandle, true>(true, false); break;
    case 2: ctor<VelocityJointSaturationHandle, false>(true, false); break; case 3: ctor<VelocityJointSoftLimitsHandle, true>(false, false); break;
    case 4: ctor<EffortJointSaturationHandle, false>(true, true); break; default: ctor<EffortJointSoftLimitsHandle, true>(true, true);
  }
#else
  switch (t) {
    case 0: iface<PositionJointSaturationHandle, PositionJointSaturationInterface, false>(); break; case 1: iface<PositionJointSoftLimitsHandle, PositionJointSoftLimitsInterface, true>(); break;
    case 2: iface<VelocityJointSaturationHandle, VelocityJointSaturationInterface, false>(); break; case 3: iface<VelocityJointSoftLimitsHandle, VelocityJointSoftLimitsInterface, true>(); break;
    case 4: iface<EffortJointSaturationHandle, EffortJointSaturationInterface, false>(); break; default: iface<EffortJointSoftLimitsHandle, EffortJointSoftLimitsInterface, true>();
  }
#endif
}
