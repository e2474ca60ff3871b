// Controller manager harness: recording controllers, hardware and loaders around the real ControllerManager.
#pragma once
#include "vp.h"
#include <cstring>
#include <list>
#include <set>
#include <algorithm>
#include <controller_manager/controller_manager.h>
#include <controller_manager/controller_loader.h>
using namespace controller_interface; using namespace hardware_interface; using controller_manager::ControllerManager;
typedef RobotHW::SwitchState SwitchState;
extern void (*vp_sleep_hook)(); extern double (*vp_clock_hook)();
#ifndef NC
#define NC 3
#endif
enum Kind { START, STOP, WAIT, ABORT, UPDATE, PREPARE, DOSWITCH, DESTROY, INITREQ, RELOAD };
struct Event { Kind kind; int who; double time, period; };
struct Log { Event e[96]; int n; Log() : n(0) {} void add(Kind k, int who, double t = 0, double p = 0) { if (n < 96) { Event x = {k, who, t, p}; e[n++] = x; } }
  int count(Kind k, int who, int from = 0) const { int c = 0; for (int i = from; i < n; ++i) c += e[i].kind == k && e[i].who == who; return c; }
  int total(Kind k, int from = 0) const { int c = 0; for (int i = from; i < n; ++i) c += e[i].kind == k; return c; }
  int first(Kind k, int from = 0) const { for (int i = from; i < n; ++i) if (e[i].kind == k) return i; return -1; } };
static Log ev; static void (*onStart)(int id);
struct MockController : ControllerBase {
  int id; std::vector<InterfaceResources> claims; int initResult; // 0 fails, 1 succeeds, 2 throws std::exception, 3 throws something else
  MockController() : id(-1), initResult(1) {}
  ~MockController() override { ev.add(DESTROY, id); }
  bool initRequest(RobotHW*, ros::NodeHandle&, ros::NodeHandle&, ClaimedResources& c) override { ev.add(INITREQ, id); if (initResult > 1) state_ = ControllerState::INITIALIZED; if (initResult == 2) throw std::runtime_error("init"); if (initResult == 3) throw 1; c = claims; if (!initResult) return false; state_ = ControllerState::INITIALIZED; return true; }
  void starting(const ros::Time& t) override { ev.add(START, id, t.toSec()); if (onStart) onStart(id); } void stopping(const ros::Time& t) override { ev.add(STOP, id, t.toSec()); } void waiting(const ros::Time& t) override { ev.add(WAIT, id, t.toSec()); } void aborting(const ros::Time& t) override { ev.add(ABORT, id, t.toSec()); }
  void update(const ros::Time& t, const ros::Duration& d) override { ev.add(UPDATE, id, t.toSec(), d.toSec()); }
};
// names of which one begins, ends or contains another, not in alphabetical order
static const char* const NM[] = {"ab", "a", "abab", "b", "aba"}; static std::string nm(int i) { return NM[i]; }
static int idOf(const std::string& name) { for (int i = 0; i < 5; ++i) if (name == NM[i]) return i; return -1; }
struct Set { bool in[NC]; int n; bool bad; Set() : n(0), bad(false) { memset(in, 0, sizeof in); } };
struct MockHW : RobotHW {
  bool prepareOk; int all, each[NC]; int answer; Set pStart, pStop, dStart, dStop; std::vector<InterfaceResources> claims[NC]; bool claimsWrong; int throws; void (*onDoSwitch)(); // answers: 0 done, 1 ongoing, 2 error
  MockHW() : prepareOk(true), all(0), answer(0), claimsWrong(false), throws(0), onDoSwitch(0) { memset(each, 0, sizeof each); }
  bool checkForConflict(const std::list<ControllerInfo>& l) const override { if (throws == 3) throw std::runtime_error("conflict"); return RobotHW::checkForConflict(l); }
  Set take(const std::list<ControllerInfo>& l) {
    Set s; for (std::list<ControllerInfo>::const_iterator i = l.begin(); i != l.end(); ++i) { int id = idOf(i->name); if (id < 0 || id >= NC) { s.bad = true; continue; } if (s.in[id]) s.bad = true; s.in[id] = true; s.n++;
      if (i->type != "T" || i->claimed_resources.size() != claims[id].size()) claimsWrong = true; else for (size_t k = 0; k < claims[id].size(); ++k) if (i->claimed_resources[k].hardware_interface != claims[id][k].hardware_interface || i->claimed_resources[k].resources != claims[id][k].resources) claimsWrong = true; }
    return s;
  }
  bool prepareSwitch(const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b) override { ev.add(PREPARE, 0); pStart = take(a); pStop = take(b); if (throws == 1) throw std::runtime_error("prepare"); if (throws == 2) throw 1; return prepareOk; }
  void doSwitch(const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b) override { ev.add(DOSWITCH, 0); dStart = take(a); dStop = take(b); if (onDoSwitch) onDoSwitch(); }
  static SwitchState st(int v) { return v == 0 ? SwitchState::DONE : v == 1 ? SwitchState::ONGOING : SwitchState::ERROR; }
  SwitchState switchResult() const override { return st(all); }
  SwitchState switchResult(const ControllerInfo& c) const override { int id = idOf(c.name); return st(id >= 0 && id < NC ? each[id] : 2); }
};
static std::vector<InterfaceResources> claim(char iface, char res) { InterfaceResources r; r.hardware_interface = std::string(1, iface); r.resources.insert(std::string(1, res)); return std::vector<InterfaceResources>(1, r); }
