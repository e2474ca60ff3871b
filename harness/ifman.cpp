// C15: InterfaceManager over histories of registrations and queries, with combined parts.
#include "vp.h"
#include <memory>
#include <algorithm>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/robot_hw.h>
using namespace hardware_interface;
typedef std::vector<std::string> SV;
#ifdef VP_THOROUGH
enum { NM = 4, NI = 6, NOP = 6 };
#else
enum { NM = 3, NI = 4, NOP = 5 };
#endif
struct Custom : HardwareInterface { int id; };
static RobotHW* man[NM]; static bool attached[NM]; static int parent[NM];   // man[0] is the root; each part is attached at most once
static EffortJointInterface* eff[NI]; static JointStateInterface* js[NI]; static Custom* cus[NI]; static int usedE, usedJ, usedC;
struct Own { void* e; void* j; void* c; }; static Own own[NM];
static double cell[2 * NI];
static bool symNames; static char nm[2 * NI];
static std::string res(int i, int k) { char& c = nm[2 * i + k]; if (!c) c = symNames ? (char)vp_int("resource", 'a', 'e') : (char)('a' + 2 * i + k); return std::string(1, c); }
static void uniq(SV& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
// every instance below the given manager, in the order of attachment; lists what belongs to the interface type (0 effort 1 joint state 2 custom)
static std::vector<int> order[NM];
static void* ownOf(int m, int t) { return t == 0 ? own[m].e : t == 1 ? own[m].j : own[m].c; }
static void all(int m, int t, std::vector<void*>& out) { if (ownOf(m, t)) out.push_back(ownOf(m, t)); for (size_t i = 0; i < order[m].size(); ++i) all(order[m][i], t, out); }
static SV resources(void* p, int t) { SV r; if (t == 0) { for (int i = 0; i < usedE; ++i) if (eff[i] == p) for (int k = 0; k < 1 + (i & 1); ++k) r.push_back(res(i, k)); uniq(r); } else if (t == 1) for (int i = 0; i < usedJ; ++i) if (js[i] == p) r.push_back(res(i, 0)); return r; }
static const char* tn[3] = {"hardware_interface::EffortJointInterface", "hardware_interface::JointStateInterface", "Custom"};
static void* get(int m, int t) { return t == 0 ? (void*)man[m]->get<EffortJointInterface>() : t == 1 ? (void*)man[m]->get<JointStateInterface>() : (void*)man[m]->get<Custom>(); }
static SV namesOf(void* p, int t) { return t == 0 ? static_cast<EffortJointInterface*>(p)->getNames() : static_cast<JointStateInterface*>(p)->getNames(); }
static void* last[NM][3]; static std::vector<void*> lastSet[NM][3];
static void query(int m, int t) {
  std::vector<void*> exp; all(m, t, exp); void* p = get(m, t);
  if (exp.empty()) { VP_CHECK(p == nullptr, "an interface is returned although no part has it"); vp_reach("none"); }
  else if (exp.size() == 1) { VP_CHECK(p == exp[0], "the interface registered last for the type is not returned"); vp_reach("single"); }
  else if (t == 2) { VP_CHECK(p == nullptr, "interfaces that cannot be combined must not be returned"); vp_reach("not combinable"); }
  else {
    VP_CHECK(p != nullptr, "no combined interface although several parts have the type"); if (!p) vp_end();
    for (size_t i = 0; i < exp.size(); ++i) VP_CHECK(p != exp[i], "the interface of one part is returned instead of the combined one");
    SV got = namesOf(p, t), want; for (size_t i = 0; i < exp.size(); ++i) { SV r = resources(exp[i], t); want.insert(want.end(), r.begin(), r.end()); }
    uniq(want); VP_CHECK(got == want, "the combined interface does not contain exactly the resources of all parts");
    if (lastSet[m][t] == exp) { VP_CHECK(p == last[m][t], "the combined interface changed although nothing was added"); vp_reach("same combined"); }
    for (size_t i = 0; i < got.size(); ++i) if (t == 0) { try { int at = (int)static_cast<EffortJointInterface*>(p)->getHandle(got[i]).getPosition(); bool f = false; for (size_t x = 0; x < exp.size(); ++x) f = f || (at / 2 < usedE && exp[x] == eff[at / 2] && res(at / 2, at % 2) == got[i]); VP_CHECK(f, "a resource of the combined interface is not that of a part"); } catch (...) { VP_CHECK(false, "a resource of the combined interface cannot be looked up"); } }
    vp_reach("combined"); last[m][t] = p; lastSet[m][t] = exp;
  }
}
static void listing(int m) {
  SV n = man[m]->getNames(); for (size_t i = 0; i < n.size(); ++i) for (size_t k = 0; k < i; ++k) VP_CHECK(n[i] != n[k], "an interface name is listed twice");
  size_t cnt = 0; for (int t = 0; t < 3; ++t) { std::vector<void*> a; all(m, t, a); bool f = std::find(n.begin(), n.end(), std::string(tn[t])) != n.end(); VP_CHECK(f == !a.empty(), "the listed interface names are not exactly the registered ones"); if (!a.empty()) ++cnt;
    SV r = man[m]->getInterfaceResources(tn[t]), want; for (size_t i = 0; i < a.size(); ++i) { SV x = resources(a[i], t); want.insert(want.end(), x.begin(), x.end()); } std::sort(r.begin(), r.end()); std::sort(want.begin(), want.end()); VP_CHECK(r == want, "the listed resources are not exactly those registered"); }
  VP_CHECK(n.size() == cnt, "an interface name is listed that was never registered"); VP_CHECK(man[m]->getInterfaceResources("unknown").empty(), "an unknown interface type has resources");
}
static bool late;   // the interface is registered before its resources are
static void add(int m, int t) {
  if (t == 0) { if (usedE == NI) vp_end(); EffortJointInterface* e = eff[usedE] = new EffortJointInterface; int i = usedE++; if (late) man[m]->registerInterface(e); for (int k = 0; k < 1 + (i & 1); ++k) { cell[2 * i + k] = 2 * i + k; e->registerHandle(JointHandle(JointStateHandle(res(i, k), &cell[2 * i + k], cell, cell), cell)); } if (!late) man[m]->registerInterface(e); own[m].e = e; }
  else if (t == 1) { if (usedJ == NI) vp_end(); JointStateInterface* e = js[usedJ] = new JointStateInterface; int i = usedJ++; if (late) man[m]->registerInterface(e); e->registerHandle(JointStateHandle(res(i, 0), cell, cell, cell)); if (!late) man[m]->registerInterface(e); own[m].j = e; }
  else { if (usedC == NI) vp_end(); Custom* e = cus[usedC++] = new Custom; man[m]->registerInterface(e); own[m].c = e; }
}
static void attach(int p, int c) { if (attached[c] || c == p || c == 0) vp_end(); for (int x = p; attached[x]; x = parent[x]) if (parent[x] == c) vp_end(); man[p]->registerInterfaceManager(man[c]); attached[c] = true; parent[c] = p; order[p].push_back(c); }
extern "C" void vp_main() {
  for (int i = 0; i < NM; ++i) { man[i] = new RobotHW; parent[i] = -1; }
  int start = vp_pick("setup", 4); symNames = start == 3; if (start >= 2 && vp_bool("late")) { late = true; vp_reach("late resources"); } if (start == 3) { attach(0, 1); attach(0, 2); int t = vp_pick("type", 2); add(1, t); add(2, t); if (vp_bool("third")) { query(0, t); add(0, t); } query(0, t); listing(0); listing(1); query(0, t); vp_reach("symbolic names"); return; } // empty; two parts attached; two parts attached that have an interface each
  if (start >= 1) { attach(0, 1); attach(0, 2); } if (start == 2) { int t = vp_pick("type", 3); add(1, t); add(2, t); }
  int n = start == 2 ? 3 : start == 1 ? 4 : 3;
#ifdef VP_THOROUGH
  n += 1;
#endif
  for (int i = 0; i < n; ++i) {
    int op = vp_pick("op", 3);
    if (op == 0) add(vp_pick("manager", NM), vp_pick("type", start == 0 ? 3 : 2));
    else if (op == 1) attach(vp_pick("parent", NM), 1 + vp_pick("part", NM - 1));
    else query(vp_pick("manager", 2), vp_pick("type", start == 0 ? 3 : 2));
  }
  for (int t = 0; t < 3; ++t) query(0, t); listing(0); listing(1); for (int t = 0; t < 3; ++t) query(0, t);
}
