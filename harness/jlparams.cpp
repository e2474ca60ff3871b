// C23: limits read from parameters or a URDF joint on top of arbitrary previous limits.
#include "vp.h"
#include <cstring>
#include <memory>
#include <joint_limits_interface/joint_limits.h>
#include <joint_limits_interface/joint_limits_rosparam.h>
#include <joint_limits_interface/joint_limits_urdf.h>
using namespace joint_limits_interface;
static JointLimits in; static SoftJointLimits sin_;
static void previous() {
  in.min_position = vp_double("p_min"); in.max_position = vp_double("p_max"); in.max_velocity = vp_double("p_vel"); in.max_acceleration = vp_double("p_acc"); in.max_jerk = vp_double("p_jerk"); in.max_effort = vp_double("p_eff");
  in.has_position_limits = vp_bool("p_hp"); in.has_velocity_limits = vp_bool("p_hv"); in.has_acceleration_limits = vp_bool("p_ha"); in.has_jerk_limits = vp_bool("p_hj"); in.has_effort_limits = vp_bool("p_he"); in.angle_wraparound = vp_bool("p_wrap");
  sin_.min_position = vp_double("p_smin"); sin_.max_position = vp_double("p_smax"); sin_.k_position = vp_double("p_kp"); sin_.k_velocity = vp_double("p_kv");
}
static bool eqd(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
static void expect(const JointLimits& g, const JointLimits& e) {
  VP_CHECK(g.has_position_limits == e.has_position_limits, "position limits are set or cleared wrongly"); VP_CHECK(eqd(g.min_position, e.min_position), "the minimum position is wrong"); VP_CHECK(eqd(g.max_position, e.max_position), "the maximum position is wrong");
  VP_CHECK(g.has_velocity_limits == e.has_velocity_limits && eqd(g.max_velocity, e.max_velocity), "the velocity limit is wrong"); VP_CHECK(g.has_acceleration_limits == e.has_acceleration_limits && eqd(g.max_acceleration, e.max_acceleration), "the acceleration limit is wrong");
  VP_CHECK(g.has_jerk_limits == e.has_jerk_limits && eqd(g.max_jerk, e.max_jerk), "the jerk limit is wrong"); VP_CHECK(g.has_effort_limits == e.has_effort_limits && eqd(g.max_effort, e.max_effort), "the effort limit is wrong"); VP_CHECK(g.angle_wraparound == e.angle_wraparound, "the wraparound flag is wrong");
}
static void expect(const SoftJointLimits& g, const SoftJointLimits& e) { VP_CHECK(eqd(g.min_position, e.min_position) && eqd(g.max_position, e.max_position), "the soft position limits are wrong"); VP_CHECK(eqd(g.k_position, e.k_position) && eqd(g.k_velocity, e.k_velocity), "the soft limit gains are wrong"); }
#ifdef URDF
extern "C" void vp_main() {
  previous();
  urdf::JointSharedPtr j; int kind = vp_pick("joint", 8);
  if (kind < 7) {
    j.reset(new urdf::Joint); j->type = kind == 0 ? urdf::Joint::UNKNOWN : kind == 1 ? urdf::Joint::REVOLUTE : kind == 2 ? urdf::Joint::CONTINUOUS : kind == 3 ? urdf::Joint::PRISMATIC : kind == 4 ? urdf::Joint::FLOATING : kind == 5 ? urdf::Joint::PLANAR : urdf::Joint::FIXED;
    if (vp_bool("limits")) { j->limits.reset(new urdf::JointLimits); j->limits->lower = vp_double("lower"); j->limits->upper = vp_double("upper"); j->limits->velocity = vp_double("velocity"); j->limits->effort = vp_double("effort"); }
    if (vp_bool("safety")) { j->safety.reset(new urdf::JointSafety); j->safety->soft_lower_limit = vp_double("soft_lower"); j->safety->soft_upper_limit = vp_double("soft_upper"); j->safety->k_position = vp_double("k_position"); j->safety->k_velocity = vp_double("k_velocity"); }
  }
  JointLimits g = in, e = in; bool r = getJointLimits(j, g), want = j && j->limits;
  VP_CHECK(r == want, "the result does not tell whether the joint has limits");
  if (want) {
    bool bounded = j->type == urdf::Joint::REVOLUTE || j->type == urdf::Joint::PRISMATIC;
    e.has_position_limits = bounded; if (bounded) { e.min_position = j->limits->lower; e.max_position = j->limits->upper; } if (j->type == urdf::Joint::CONTINUOUS) e.angle_wraparound = true;
    e.has_velocity_limits = e.has_effort_limits = true; e.max_velocity = j->limits->velocity; e.max_effort = j->limits->effort;
    VP_CHECK(!g.has_acceleration_limits || in.has_acceleration_limits, "acceleration limits appear from nowhere"); e.has_acceleration_limits = g.has_acceleration_limits; // a URDF cannot state them: kept or cleared
    vp_reach(bounded ? "bounded" : "unbounded");
  } else vp_reach("no limits");
  expect(g, e);
  SoftJointLimits sg = sin_, se = sin_; r = getSoftJointLimits(j, sg); want = j && j->safety;
  VP_CHECK(r == want, "the result does not tell whether the joint has soft limits");
  if (want) { se.min_position = j->safety->soft_lower_limit; se.max_position = j->safety->soft_upper_limit; se.k_position = j->safety->k_position; se.k_velocity = j->safety->k_velocity; vp_reach("soft"); }
  expect(sg, se);
}
#else
struct P { int kind; bool b; double d; }; // kind 0 absent, 1 right type, 2 integer, 3 another type
static const std::string ns = "/r/joint_limits/j/";
static P boolean(const char* n, int kinds) { P p; p.kind = vp_pick(n, kinds); if (p.kind == 2) p.kind = 3; p.b = false; p.d = 0; if (p.kind == 1) { p.b = vp_bool(n); ros_stub::setBool(ns + n, p.b); } if (p.kind == 3) ros_stub::setString(ns + n, "x"); return p; }
static P number(const char* n, int kinds) { P p; p.kind = vp_pick(n, kinds); p.b = false; p.d = 0; if (p.kind == 1) { p.d = vp_double(n); ros_stub::setDouble(ns + n, p.d); } if (p.kind == 2) { ros_stub::add(ns + n, 4).i = 7; p.d = 7; } if (p.kind == 3) ros_stub::setString(ns + n, "x"); return p; }
static bool num(const P& p) { return p.kind == 1 || p.kind == 2; }
static void one(bool& has, double& v, const P& h, const P& m) { if (h.kind == 1) { if (!h.b) has = false; else if (num(m)) { has = true; v = m.d; } } }
extern "C" void vp_main() {
  previous();
  ros_stub::setDouble("/r/joint_limits/jj/max_velocity", 99); ros_stub::setBool("/r/joint_limits/jj/has_velocity_limits", true); // another joint
  bool exists = true; int group = vp_pick("group", 7); P absent; absent.kind = 0; absent.b = false; absent.d = 0;
  P hp = absent, mn = absent, mx = absent, wr = absent, h[4], m[4], sf[5]; for (int i = 0; i < 4; ++i) h[i] = m[i] = absent; for (int i = 0; i < 5; ++i) sf[i] = absent;
  static const char* hn[4] = {"has_velocity_limits", "has_acceleration_limits", "has_jerk_limits", "has_effort_limits"}; static const char* mnn[4] = {"max_velocity", "max_acceleration", "max_jerk", "max_effort"};
  bool others = group < 5 && vp_bool("others");
  if (group == 0) { hp = boolean("has_position_limits", 3); mn = number("min_position", 4); mx = number("max_position", 4); wr = boolean("angle_wraparound", 3); }
  else if (others) { hp.kind = 1; hp.b = true; ros_stub::setBool(ns + "has_position_limits", true); mn.kind = mx.kind = 1; mn.d = -3; mx.d = 3; ros_stub::setDouble(ns + "min_position", -3); ros_stub::setDouble(ns + "max_position", 3); }
  for (int i = 0; i < 4; ++i) if (group == i + 1) { h[i] = boolean(hn[i], 3); m[i] = number(mnn[i], 4); } else if (others) { h[i].kind = 1; h[i].b = true; m[i].kind = 1; m[i].d = 10 + i; ros_stub::setBool(ns + hn[i], true); ros_stub::setDouble(ns + mnn[i], 10 + i); }
  if (group == 5) { sf[0] = boolean("has_soft_limits", 3); sf[1] = number("k_position", 4); sf[2] = number("k_velocity", 4); sf[3] = number("soft_lower_limit", 4); sf[4] = number("soft_upper_limit", 4); }
  exists = others || hp.kind || mn.kind || mx.kind || wr.kind; for (int i = 0; i < 4; ++i) exists = exists || h[i].kind || m[i].kind; for (int i = 0; i < 5; ++i) exists = exists || sf[i].kind;
  ros::NodeHandle nh("/r");
  JointLimits g = in, e = in; bool r = getJointLimits("j", nh, g);
  VP_CHECK(r == exists, "the result does not tell whether a limits specification exists");
  if (hp.kind == 1) { if (!hp.b) { e.has_position_limits = false; if (wr.kind == 1) e.angle_wraparound = wr.b; } else if (num(mn) && num(mx)) { e.has_position_limits = true; e.min_position = mn.d; e.max_position = mx.d; vp_reach("position"); } }
  one(e.has_velocity_limits, e.max_velocity, h[0], m[0]); one(e.has_acceleration_limits, e.max_acceleration, h[1], m[1]); one(e.has_jerk_limits, e.max_jerk, h[2], m[2]); one(e.has_effort_limits, e.max_effort, h[3], m[3]);
  expect(g, e); vp_reach(exists ? "exists" : "none");
  SoftJointLimits sg = sin_, se = sin_; r = getSoftJointLimits("j", nh, sg);
  bool complete = sf[0].kind == 1 && sf[0].b && num(sf[1]) && num(sf[2]) && num(sf[3]) && num(sf[4]);
  VP_CHECK(r == complete, "soft limits are accepted exactly when completely specified: not so");
  if (complete) { se.k_position = sf[1].d; se.k_velocity = sf[2].d; se.min_position = sf[3].d; se.max_position = sf[4].d; vp_reach("soft"); }
  expect(sg, se);
}
#endif
