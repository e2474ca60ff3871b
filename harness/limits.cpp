// C19 C20 C21: joint limit handles.  Commands, measured state, limits and periods are arbitrary finite doubles.
#include "vp.h"
#include <cmath>
#include <limits>
#include <memory>
#include <joint_limits_interface/joint_limits_interface.h>
using namespace joint_limits_interface;
#ifndef KIND
#define KIND 0
#endif
#ifndef STEPS
#ifdef VP_THOROUGH
#define STEPS 3
#else
#define STEPS 2
#endif
#endif
#if KIND == 0
typedef PositionJointSaturationHandle H;
#elif KIND == 1
typedef PositionJointSoftLimitsHandle H;
#elif KIND == 2
typedef VelocityJointSaturationHandle H;
#elif KIND == 3
typedef VelocityJointSoftLimitsHandle H;
#elif KIND == 4
typedef EffortJointSaturationHandle H;
#else
typedef EffortJointSoftLimitsHandle H;
#endif
enum { SOFT = KIND % 2, POS = KIND / 2 == 0, VEL = KIND / 2 == 1, EFF = KIND / 2 == 2 };
static double sane(const char* n) { double v = vp_double(n); VP_ASSUME(std::fabs(v) <= 1e100); return v; }
static double lim(const char* n) { double v = sane(n); VP_ASSUME(v >= 0); return v; }
static double pos, vel, eff, cmd; static JointLimits L; static SoftJointLimits S; static double VMAX;
static double clampd(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
static double maxd(double a, double b) { return a < b ? b : a; }
static double mind(double a, double b) { return b < a ? b : a; }
static void same(double a, double b, double s, const char* m) { vp_le(a, b, s, m); vp_le(b, a, s, m); }
static void nearest(double out, double in, double lo, double hi, double s) { // lo <= hi
  vp_le(lo, out, s, "the command is below its lower bound"); vp_le(out, hi, s, "the command is above its upper bound");
  if (in < lo) same(out, lo, s, "a command below its bounds is not replaced by the lower bound");
  else if (in > hi) same(out, hi, s, "a command above its bounds is not replaced by the upper bound");
  else { same(out, in, s, "a command inside the bounds is changed"); vp_reach("unchanged"); }
}
extern "C" void vp_main() {
  L = JointLimits(); S = SoftJointLimits();
  L.has_position_limits = vp_bool("has_position_limits"); L.has_velocity_limits = vp_bool("has_velocity_limits"); L.has_acceleration_limits = vp_bool("has_acceleration_limits"); L.has_effort_limits = vp_bool("has_effort_limits");
  L.min_position = sane("min_position"); L.max_position = sane("max_position"); L.max_velocity = lim("max_velocity"); L.max_acceleration = lim("max_acceleration"); L.max_effort = lim("max_effort");
  VP_ASSUME(L.min_position <= L.max_position);
  if (SOFT) { S.min_position = sane("soft_min"); S.max_position = sane("soft_max"); S.k_position = lim("k_position"); S.k_velocity = lim("k_velocity"); VP_ASSUME(S.min_position <= S.max_position); }
  if ((KIND == 1 || KIND == 2 || EFF) && !L.has_velocity_limits) vp_end(); // refused: C22
  if (EFF && !L.has_effort_limits) vp_end();
  hardware_interface::JointHandle jh(hardware_interface::JointStateHandle("j", &pos, &vel, &eff), &cmd);
  // another joint with a handle of the same type, limited in turn: it must not matter
  static double dpos, dvel, deff, dcmd; JointLimits DL; DL.has_position_limits = DL.has_velocity_limits = DL.has_acceleration_limits = DL.has_effort_limits = true; DL.min_position = -3; DL.max_position = 4; DL.max_velocity = 0.5; DL.max_acceleration = 0.25; DL.max_effort = 2;
  hardware_interface::JointHandle djh(hardware_interface::JointStateHandle("d", &dpos, &dvel, &deff), &dcmd);
#if KIND % 2
  SoftJointLimits DS; DS.min_position = -2; DS.max_position = 2.5; DS.k_position = 3; DS.k_velocity = 1.5; H other(djh, DL, DS);
#else
  H other(djh, DL);
#endif
  auto decoy = [&](int st) { dpos = 1.25 + 0.25 * st; dvel = -0.125; deff = 0.5; dcmd = st % 2 ? -40 : 40; other.enforceLimits(ros::Duration(0.25)); };
  decoy(-1);
#if KIND % 2
  H h(jh, L, S);
#else
  H h(jh, L);
#endif
  const bool hp = L.has_position_limits, hv = L.has_velocity_limits, ha = L.has_acceleration_limits;
  VMAX = hv ? L.max_velocity : std::numeric_limits<double>::max();
  double prev = 0; bool have = VEL; // the velocity handle starts from rest
  for (int st = 0; st < STEPS; ++st) {
    pos = sane("position"); vel = sane("velocity"); eff = 0; double c = vp_double("command"), dt = sane("period"); VP_ASSUME(dt > 0);
#if KIND < 2
    if (st && vp_bool("reset")) { h.reset(); have = false; vp_reach("reset"); }
#endif
    cmd = c;
    if (!have) { prev = pos; have = true; }
    if (POS) VP_ASSUME(!hp || (prev >= L.min_position && prev <= L.max_position)); // otherwise nothing is promised
    decoy(st);
    const double p0 = pos, v0 = vel;
    h.enforceLimits(ros::Duration(dt));
    VP_CHECK(pos == p0 && vel == v0 && eff == 0, "enforcing limits changed the measured state");
    const double out = cmd;
    if (std::isnan(c)) { // nothing is promised for this step; the next ones must still be limited
      if (POS) have = false; else have = true;
      prev = std::numeric_limits<double>::quiet_NaN();
      if (VEL && !SOFT) vp_reach("NaN"); else vp_end();
      continue;
    }
    VP_CHECK(!std::isnan(out), "a number is replaced by NaN");
    if (POS) {
      double lo = -std::numeric_limits<double>::max(), hi = -lo, s = std::fabs(prev) + std::fabs(c); if (hp) { lo = L.min_position; hi = L.max_position; s += std::fabs(lo) + std::fabs(hi); }
      if (hp) { vp_le(lo, out, s, "the position command is below the minimum position"); vp_le(out, hi, s, "the position command is above the maximum position"); }
      if (hv) { double d = VMAX * dt; s += d; vp_le(prev - d, out, s, "the position command moves faster than the velocity limit (down)"); vp_le(out, prev + d, s, "the position command moves faster than the velocity limit (up)"); if (!SOFT) { lo = maxd(lo, prev - d); hi = mind(hi, prev + d); } }
      if (SOFT) {
        double vlo = hp ? clampd(-S.k_position * (prev - S.min_position), -VMAX, VMAX) : -VMAX, vhi = hp ? clampd(-S.k_position * (prev - S.max_position), -VMAX, VMAX) : VMAX;
        double a = prev + vlo * dt, b = prev + vhi * dt; if (hp) { a = clampd(a, L.min_position, L.max_position); b = clampd(b, L.min_position, L.max_position); }
        lo = a; hi = b;
      }
      nearest(out, c, lo, hi, s);
    } else if (VEL) {
      double lo = -VMAX, hi = VMAX, s = std::fabs(c);
      if (hv) { s += VMAX; vp_le(-VMAX, out, s, "the velocity command exceeds the negative velocity limit"); vp_le(out, VMAX, s, "the velocity command exceeds the positive velocity limit"); }
      if (SOFT && hp) { lo = clampd(-S.k_position * (pos - S.min_position), -VMAX, VMAX); hi = clampd(-S.k_position * (pos - S.max_position), -VMAX, VMAX); s += S.k_position * (std::fabs(pos) + std::fabs(S.min_position) + std::fabs(S.max_position)); }
      const double ref = SOFT ? vel : prev;
      if (ha && !std::isnan(ref)) { double d = L.max_acceleration * dt; s += std::fabs(ref) + d; lo = maxd(lo, ref - d); hi = mind(hi, ref + d); }
      if (lo <= hi) nearest(out, c, lo, hi, s); else vp_reach("conflicting bounds");
      if (!SOFT && std::isnan(prev)) vp_reach("after NaN");
    } else {
      double lo = -L.max_effort, hi = L.max_effort, s = std::fabs(c) + L.max_effort;
      vp_le(lo, out, s, "the effort command exceeds the negative effort limit"); vp_le(out, hi, s, "the effort command exceeds the positive effort limit");
      if (vel < -VMAX) { vp_le(0, out, s, "the effort command pushes past the negative velocity limit"); }
      if (vel > VMAX) { vp_le(out, 0, s, "the effort command pushes past the positive velocity limit"); }
      if (SOFT) {
        double vlo = hp ? clampd(-S.k_position * (pos - S.min_position), -VMAX, VMAX) : -VMAX, vhi = hp ? clampd(-S.k_position * (pos - S.max_position), -VMAX, VMAX) : VMAX;
        s += S.k_velocity * (std::fabs(vel) + (hp ? S.k_position * (std::fabs(pos) + std::fabs(S.min_position) + std::fabs(S.max_position)) : VMAX));
        lo = clampd(-S.k_velocity * (vel - vlo), -L.max_effort, L.max_effort); hi = clampd(-S.k_velocity * (vel - vhi), -L.max_effort, L.max_effort);
      } else {
        if (hp && pos < L.min_position) { lo = 0; vp_reach("below minimum"); } if (hp && pos > L.max_position) { hi = 0; vp_reach("above maximum"); }
        if (vel < -VMAX) lo = 0; if (vel > VMAX) hi = 0;
      }
      nearest(out, c, lo, hi, s);
    }
    prev = out;
  }
  vp_reach("end");
}
