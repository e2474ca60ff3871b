// C01-C05, C07: switch requests against the real controller manager and its update cycle.
// PROP selects which group of assertions is judged; the others only steer the run.
#include "cm.h"
#ifndef PROP
#define PROP 0
#endif
#define CHK(p, c, msg) do { if (PROP == (p) || PROP == 0) VP_CHECK(c, msg); } while (0)
enum { INITIALIZED, RUNNING, STOPPED, WAITING, ABORTED };
static MockHW* hw; static ControllerManager* cm; static MockController* ct[NC]; static char res[NC][3]; enum { NR = CLAIMS == 2 ? 2 : 1 };
static bool conflicting(int i, int k) { bool c = false; for (int a = 0; a < NR; ++a) for (int b = 0; b < NR; ++b) c = c | (res[i][a] == res[k][b]); return c; }
struct Loader : controller_manager::ControllerLoaderInterface {
  int next; Loader() : ControllerLoaderInterface("L"), next(0) {}
  ControllerBaseSharedPtr createInstance(const std::string&) override { MockController* c = new MockController(); c->id = next; c->claims = hw->claims[next]; ct[next++] = c; return ControllerBaseSharedPtr(c); }
  std::vector<std::string> getDeclaredClasses() override { return std::vector<std::string>(1, "T"); } void reload() override {}
};
static int state(int i) { ControllerBase* c = ct[i]; return c->isRunning() ? RUNNING : c->isStopped() ? STOPPED : c->isWaiting() ? WAITING : c->isAborted() ? ABORTED : INITIALIZED; }
static void exclusive() { for (int i = 0; i < NC; ++i) for (int k = 0; k < i; ++k) if (ct[i]->isRunning() && ct[k]->isRunning()) CHK(1, !conflicting(i, k), "two running controllers claim the same resource"); }
static void starts(int id) { for (int k = 0; k < NC; ++k) if (k != id && ct[k] && ct[k]->isRunning()) CHK(1, !conflicting(id, k), "a controller is started while another running one claims the same resource"); }
// ---- the request being served
static int cycle, maxCycles; static bool asap; static double timeout_; static bool toStart[NC], toStop[NC], finished[NC]; static int first; static bool lastRound, accepted, varyHw, inCall;
static void updateCycle(int k, bool pending) {
  double now = 101 + k; bool late = false;
#if HW
  if (pending && timeout_ > 0 && k + 1 < maxCycles) { late = vp_bool("late"); if (late) now += 100; }
#endif
  if (!pending || k + 1 >= maxCycles) { hw->all = 0; for (int i = 0; i < NC; ++i) hw->each[i] = 0; }
#if HW
  else if (!asap) hw->all = vp_pick("result", 3); else for (int i = 0; i < NC; ++i) if (toStart[i]) hw->each[i] = vp_pick("result", 3);
#endif
  int before[NC], mark = ev.n; for (int i = 0; i < NC; ++i) before[i] = state(i);
  cm->update(ros::Time(now), ros::Duration(0.5));
  exclusive();
  // ---- C05: updates
  int pos = -1; for (int i = 0; i < NC; ++i) { int n = ev.count(UPDATE, i, mark); CHK(5, n == (before[i] == RUNNING ? 1 : 0), n ? "a controller that is not running, or was already updated, is updated" : "a running controller is not updated"); for (int j = mark; j < ev.n; ++j) if (ev.e[j].kind == UPDATE && ev.e[j].who == i) { CHK(5, j > pos, "controllers are updated out of order"); pos = j; CHK(5, ev.e[j].time == now && ev.e[j].period == 0.5, "an update gets another time or period"); } }
  int sw = ev.first(DOSWITCH, mark); 
  if (!pending) { CHK(7, sw < 0, "a hardware switch is performed without an accepted request"); for (int i = 0; i < NC; ++i) CHK(3, state(i) == before[i] && !ev.count(START, i, mark) && !ev.count(STOP, i, mark) && !ev.count(WAIT, i, mark) && !ev.count(ABORT, i, mark), "a controller is called or changed without a request"); return; }
  // ---- C07: the hardware performs the switch first, once, with the prepared lists
  CHK(7, ev.total(DOSWITCH, mark) == (k == 0 ? 1 : 0), k == 0 ? "the hardware is not told exactly once, in the first cycle, to perform the switch" : "the hardware is told again to perform the switch");
  if (sw >= 0) for (int j = mark; j < sw; ++j) CHK(7, ev.e[j].kind == UPDATE, "a controller is stopped or started before the hardware performs the switch");
  // ---- stop
  for (int i = 0; i < NC; ++i) {
    int st = ev.count(START, i, mark), sp = ev.count(STOP, i, mark), wt = ev.count(WAIT, i, mark), ab = ev.count(ABORT, i, mark);
    if (toStop[i] && k == 0) { CHK(2, state(i) == STOPPED, "a controller to be stopped is not stopped by the switch"); CHK(3, sp == 1 && st + wt + ab == 0, "a controller to be stopped is not stopped exactly once"); }
    else if (toStart[i] && !finished[i]) {
      int r = asap ? hw->each[i] : hw->all; bool timed = timeout_ > 0 && late;
      if (r == 0) { CHK(4, state(i) == RUNNING && st == 1 && wt + ab == 0, "a requested controller is not started although its hardware is done"); finished[i] = true; }
      else if (r == 2 || timed) { CHK(4, state(i) == ABORTED && st == 0 && ab >= 1 && wt == 0, r == 2 ? "a requested controller is not aborted although the hardware failed" : "a requested controller is not aborted although the timeout has elapsed"); finished[i] = true; }
      else CHK(4, state(i) == WAITING && st == 0 && ab == 0 && wt >= 1, "a requested controller is not kept waiting while the hardware switch is ongoing");
      CHK(3, sp == 0 && st <= 1, "a controller to be started is stopped, or started more than once");
    } else if (toStart[i] && asap && before[i] == ABORTED) { // aborted in an earlier cycle: may be re-evaluated while others wait
      int r = hw->each[i]; CHK(4, sp == 0 && (st == 0 || r == 0), "an aborted controller is started although the hardware is not done"); finished[i] = state(i) != WAITING;
    }
    else CHK(toStart[i] || toStop[i] ? 4 : 3, st + sp + wt + ab == 0 && state(i) == before[i], "a controller that is not part of the switch (or is done with it) is called or changed");
  }
}
static bool allDone() { for (int i = 0; i < NC; ++i) if (toStart[i] && !finished[i]) return false; return true; }
static void onSleep() { // the service thread waits: one update cycle runs
  if (!inCall || !accepted) { cm->update(ros::Time(100), ros::Duration(0.5)); return; }
  if (cycle >= maxCycles) { CHK(4, false, "the request does not complete although every controller was started or aborted"); vp_end(); }
  updateCycle(cycle++, true);
}
static void request(std::vector<std::string> start, std::vector<std::string> stop, bool askUnknownStart, bool askUnknownStop, bool inStart[NC], bool inStop[NC]) {
  int strictness = 
#ifdef STRICTNESS
    STRICTNESS;
#else
    (int)vp_int("strictness", 0, 2);
#endif
  bool strict = strictness == 2; bool running[NC]; int before[NC]; for (int i = 0; i < NC; ++i) { before[i] = state(i); running[i] = before[i] == RUNNING; }
#ifdef ASAP
  asap = ASAP;
#else
  asap = vp_bool("asap");
#endif
  timeout_ = 0;
#if HW
  if (lastRound && vp_bool("timeout")) timeout_ = 50;
#endif
  bool refuse = false, may = false; // may: running and listed for both start and stop (refused or served)
  if (strict) { if (askUnknownStart || askUnknownStop) refuse = true; for (int i = 0; i < NC; ++i) if ((inStop[i] && !running[i]) || (inStart[i] && running[i] && !inStop[i])) refuse = true; }
  for (int i = 0; i < NC; ++i) { if (inStart[i] && inStop[i] && running[i]) may = true; toStart[i] = inStart[i] && !running[i]; toStop[i] = inStop[i] && running[i] && !inStart[i]; finished[i] = false; }
  bool conflict = false; for (int i = 0; i < NC; ++i) for (int k = 0; k < i; ++k) { bool ri = (running[i] && !toStop[i]) || toStart[i], rk = (running[k] && !toStop[k]) || toStart[k]; if (ri && rk && conflicting(i, k)) conflict = true; }
  hw->prepareOk = !HW && !strict ? vp_bool("prepare") : true; hw->claimsWrong = false;
#ifdef THROWS
  hw->throws = hw->prepareOk || lastRound ? 0 : vp_pick("throws", 4);
#endif
  bool expect = !refuse && !conflict && hw->prepareOk;
  accepted = true; cycle = 0; int mark = ev.n; for (int i = 0; i < NC; ++i) first = 0;
  if (!expect || may) accepted = false; // then any cycle while waiting is an ordinary one
  inCall = true; if (may) { inCall = false; }
  bool ok; try { ok = cm->switchController(start, stop, strictness, asap, timeout_); } catch (...) { ok = false; CHK(7, hw->throws, "a request ends with an exception although the hardware threw none"); } inCall = false;
  if (may) { // restarting a running controller: may be refused as a whole
    if (!ok) { for (int i = 0; i < NC; ++i) CHK(2, state(i) == before[i], "a refused request changed a controller"); vp_reach("restart refused"); } vp_end(); }
  if (strict && refuse) { CHK(2, !ok, "a strict request that cannot be carried out completely is accepted"); vp_reach("strict refused"); }
  if (conflict && !refuse) { CHK(1, !ok, "a switch that makes two running controllers claim the same resource is accepted"); vp_reach("conflict"); }
  if (!hw->prepareOk && !conflict && !refuse) { CHK(7, !ok, "the request succeeds although the hardware refuses to prepare"); vp_reach(hw->throws == 3 ? "conflict check threw" : hw->throws ? "prepare threw" : "prepare refused"); }
  int g = refuse ? 2 : conflict ? 1 : 7;
  if (!expect) {
    CHK(g, cycle == 0 && ev.total(DOSWITCH, mark) == 0, "a refused request makes the hardware switch");
    for (int i = 0; i < NC; ++i) CHK(g, state(i) == before[i] && !ev.count(START, i, mark) && !ev.count(STOP, i, mark) && !ev.count(WAIT, i, mark) && !ev.count(ABORT, i, mark), "a refused request changed or called a controller");
    if (refuse) CHK(2, ev.total(PREPARE, mark) == 0, "the hardware is asked to prepare a refused request");
    accepted = false; updateCycle(0, false); exclusive(); return;
  }
  CHK(strict ? 2 : 3, ok, "a request that can be carried out is refused"); if (!ok) vp_end();
  CHK(7, ev.total(PREPARE, mark) == 1, "the hardware is not asked exactly once to prepare the switch");
  CHK(7, cycle > 0 && ev.total(DOSWITCH, mark) == 1, "the hardware does not perform the switch");
  CHK(4, allDone() && cycle > 0, "the request completes before every controller was started or aborted");
  CHK(7, !hw->pStart.bad && !hw->pStop.bad && !hw->dStart.bad && !hw->dStop.bad, "the hardware is told of a controller twice or of an unknown one"); CHK(7, !hw->claimsWrong, "the hardware gets a controller with other claims or another type");
  for (int i = 0; i < NC; ++i) {
    CHK(7, hw->pStart.in[i] == toStart[i] && hw->pStop.in[i] == toStop[i], "the hardware is asked to prepare for other controllers than those that switch"); CHK(7, hw->dStart.in[i] == toStart[i] && hw->dStop.in[i] == toStop[i], "the hardware performs the switch with other controllers than those that switch");
#if !HW
    if (toStart[i]) CHK(strict ? 2 : 3, state(i) == RUNNING, "a listed controller is not running after the switch"); if (toStop[i]) CHK(strict ? 2 : 3, state(i) == STOPPED, "a listed controller is not stopped after the switch");
    if (!toStart[i] && !toStop[i]) CHK(strict ? 2 : 3, state(i) == before[i] && !ev.count(START, i, mark) && !ev.count(STOP, i, mark) && !ev.count(WAIT, i, mark) && !ev.count(ABORT, i, mark), "a controller that was skipped or not listed is called or changed");
    if (toStart[i]) CHK(3, ev.count(START, i, mark) == 1 && !ev.count(STOP, i, mark), "a controller is not started exactly once"); if (toStop[i]) CHK(3, ev.count(STOP, i, mark) == 1 && !ev.count(START, i, mark), "a controller is not stopped exactly once");
#endif
  }
  accepted = false; updateCycle(0, false); exclusive(); vp_reach("switched");
  for (int i = 0; i < NC; ++i) { if (toStart[i] && state(i) == ABORTED) vp_reach("aborted"); if (!strict && inStart[i] && running[i]) vp_reach("skipped start"); if (!strict && inStop[i] && !running[i]) vp_reach("skipped stop"); if (toStart[i]) vp_reach("started"); if (toStop[i]) vp_reach("stopped"); }
}
static void symbolicRequest() {
  bool inStart[NC], inStop[NC], us = false, up = false; for (int i = 0; i < NC; ++i) inStart[i] = inStop[i] = false; std::vector<std::string> start, stop;
#if HW
  // shape fixed: a subset of the controllers in a given order, all valid
  for (int i = 0; i < NC; ++i) { if (ct[i]->isRunning()) { if (vp_bool("stop")) { inStop[i] = true; stop.push_back(nm(i)); } } else if (vp_bool("start")) { inStart[i] = true; start.insert(start.begin(), nm(i)); } }
#else
  int ns = vp_pick("start_names", MAXS + 1), np = vp_pick("stop_names", MAXP + 1);
  for (int k = 0; k < ns; ++k) { int c = vp_pick("start_name", NC + 1); start.push_back(nm(c)); if (c < NC) inStart[c] = true; else us = true; }
  for (int k = 0; k < np; ++k) { int c = vp_pick("stop_name", NC + 1); stop.push_back(nm(c)); if (c < NC) inStop[c] = true; else up = true; }
#endif
  request(start, stop, us, up, inStart, inStop);
}
extern "C" void vp_main() {
  vp_sleep_hook = onSleep; ros_stub::now() = 100; MockHW h; hw = &h; maxCycles = HW ? CYCLES : 1;
  for (int i = 0; i < NC; ++i) {
    for (int a = 0; a < NR; ++a) { res[i][a] = CLAIMS ? (char)vp_int("resource", CLAIMS == 2 ? 'w' : 'x', CLAIMS == 2 ? 'z' : 'y') : (char)('x' + i); for (int b = 0; b < a; ++b) VP_ASSUME(res[i][a] != res[i][b]); }
    h.claims[i] = claim(CLAIMS ? (CLAIMS == 1 && vp_bool("interface") ? 'J' : 'I') : 'I', res[i][0]); ros_stub::setString("/" + nm(i) + "/type", "T");
    if (CLAIMS == 2) { std::vector<InterfaceResources> m = claim('K', res[i][1]); h.claims[i].push_back(m[0]); }
  }
  ControllerManager m(&h, ros::NodeHandle("")); cm = &m; m.registerControllerLoader(controller_manager::ControllerLoaderInterfaceSharedPtr(new Loader()));
  for (int i = 0; i < NC; ++i) if (!m.loadController(nm(i))) vp_end();
  for (int i = 0; i < NC; ++i) { if (m.getControllerByName(nm(i)) != ct[i]) vp_end();
    if (vp_bool("running")) { for (int k = 0; k < i; ++k) if (ct[k]->isRunning() && conflicting(i, k)) vp_end(); ct[i]->startRequest(ros::Time(50)); } }
  if (ROUNDS == 1) {
#ifdef VP_THOROUGH
    int base = vp_pick("state", 4);
#else
    int base = 2 * vp_pick("state", 2);
#endif
    for (int i = 0; i < NC; ++i) if (!ct[i]->isRunning()) { int s = (base + i) % 4; if (s == 1) ct[i]->stopRequest(ros::Time(50)); if (s == 2) ct[i]->waitRequest(ros::Time(50)); if (s == 3) ct[i]->abortRequest(ros::Time(50)); } }
  ev.n = 0; onStart = starts;
  for (int r = 0; r < ROUNDS; ++r) { lastRound = r + 1 == ROUNDS; symbolicRequest(); }
}
