// C13: resource registries.  Handles carry a payload; names are symbolic.
#include "vp.h"
#include <memory>
#include <hardware_interface/internal/hardware_resource_manager.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/joint_state_interface.h>
using namespace hardware_interface;
typedef std::vector<std::string> SV;
#ifndef NOPS
#ifdef VP_THOROUGH
#define NOPS 4
#else
#define NOPS 3
#endif
#endif
struct TestHandle { std::string n; int v; TestHandle() : v(-1) {} TestHandle(const std::string& a, int b) : n(a), v(b) {} std::string getName() const { return n; } };
static std::string sym(const char* what, int maxlen) { int l = maxlen == 1 ? 1 : (int)vp_choice("length", maxlen + 1); std::string s; for (int i = 0; i < l; ++i) s += (char)vp_int(what, 'a', 'd'); return s; }
struct Reg { std::string n; int v; };
struct Raw { typedef ResourceManager<TestHandle> M; typedef M Base; static TestHandle make(const std::string& n, int v) { return TestHandle(n, v); } static int val(const TestHandle& h) { return h.v; } enum { hw = 0 }; };
struct Plain { struct M : HardwareResourceManager<TestHandle> {}; typedef ResourceManager<TestHandle> Base; static TestHandle make(const std::string& n, int v) { return TestHandle(n, v); } static int val(const TestHandle& h) { return h.v; } enum { hw = 1 }; };
static double cells[64][4];
struct State { typedef JointStateInterface M; typedef ResourceManager<JointStateHandle> Base; static JointStateHandle make(const std::string& n, int v) { cells[v][0] = v; return JointStateHandle(n, &cells[v][0], &cells[v][1], &cells[v][2]); } static int val(const JointStateHandle& h) { return (int)h.getPosition(); } enum { hw = 1 }; };
struct Command { typedef EffortJointInterface M; typedef ResourceManager<JointHandle> Base; static JointHandle make(const std::string& n, int v) { return JointHandle(State::make(n, v), &cells[v][3]); } static int val(const JointHandle& h) { return (int)h.getPosition(); } enum { hw = 1 }; };
static int expected(const std::vector<Reg>& r, const std::string& q) { for (size_t i = r.size(); i-- > 0;) if (r[i].n == q) return r[i].v; return -1; }
static void names(const SV& got, const std::vector<Reg>& r) {
  for (size_t i = 0; i + 1 < got.size(); ++i) VP_CHECK(got[i] < got[i + 1], "the names are not sorted or one is listed twice");
  for (size_t i = 0; i < got.size(); ++i) VP_CHECK(expected(r, got[i]) >= 0, "a name is listed that was never registered");
  for (size_t i = 0; i < r.size(); ++i) { bool f = false; for (size_t k = 0; k < got.size(); ++k) if (got[k] == r[i].n) f = true; VP_CHECK(f, "a registered name is not listed"); }
}
template <class M> static bool look(M& m, const std::string& q, int& v, int (*val)(const typename std::decay<decltype(m.getHandle(q))>::type&), int hw) {
  try { v = val(m.getHandle(q)); return true; }
  catch (const HardwareInterfaceException&) { VP_CHECK(hw, "unexpected exception"); return false; }
  catch (const std::logic_error&) { VP_CHECK(!hw, "unexpected exception"); return false; }
}
template <class M> static void lookup(M& m, const std::vector<Reg>& r, const std::string& q, int (*val)(const typename std::decay<decltype(m.getHandle(q))>::type&), int hw) {
  int v = -1, e; bool ok = look(m, q, v, val, hw); e = expected(r, q);
  VP_CHECK(ok == (e >= 0), ok ? "a lookup of a name never registered succeeded" : "a lookup of a registered name failed");
  if (ok) VP_CHECK(v == e, "the lookup does not return the handle registered last"); vp_reach(ok ? "found" : "not found");
}
template <class T> static void history(int maxlen) {
  typename T::M m; std::vector<Reg> r; int n = (int)vp_choice("registrations", NOPS + 1);
  bool between = n && vp_choice("lookup_between", 2);
  for (int i = 0; i < n; ++i) { Reg x = {sym("name", maxlen), i}; if (between && i == n - 1) { lookup(m, r, sym("query", maxlen), T::val, T::hw); names(m.getNames(), r); } m.registerHandle(T::make(x.n, i)); r.push_back(x); }
  lookup(m, r, sym("query", maxlen), T::val, T::hw); names(m.getNames(), r);
}
template <class T> static void merge() {
  const int K = NOPS; typename T::M m[3], res; std::vector<Reg> r[3], all; int k = 0, n0 = (int)vp_choice("first", K), n1 = (int)vp_choice("second", K), n2 = (int)vp_choice("present", 2), n3 = (int)vp_choice("third", 3); // 0: two registries
  if (n3 && n0 + n1 > 2) vp_end();
  for (int i = 0; i < n0 + n1 + (n3 == 2); ++i) { int w = i < n0 ? 0 : i < n0 + n1 ? 1 : 2; Reg x = {sym("name", 1), k++}; m[w].registerHandle(T::make(x.n, x.v)); r[w].push_back(x); all.push_back(x); }
  if (n2) { Reg x = {sym("name", 1), k++}; res.registerHandle(T::make(x.n, x.v)); all.push_back(x); }
  std::vector<typename T::Base*> list; list.push_back(&m[0]); list.push_back(&m[1]); if (n3) list.push_back(&m[2]);
  T::M::concatManagers(list, &res);
  names(res.getNames(), all); names(m[0].getNames(), r[0]); names(m[1].getNames(), r[1]); names(m[2].getNames(), r[2]);
  std::string q = sym("query", 1); int v = -1, e = expected(all, q); bool ok = look(res, q, v, T::val, T::hw);
  VP_CHECK(ok == (e >= 0), "the merged registry does not hold exactly the union of the names");
  if (ok) { bool f = false; for (size_t i = 0; i < all.size(); ++i) if (all[i].v == v && all[i].n == q) f = true; VP_CHECK(f, "the merged registry returns a handle of another name"); }
  lookup(m[0], r[0], q, T::val, T::hw); vp_reach("merged");
}
extern "C" void vp_main() {
#ifdef MERGE
  switch (vp_choice("type", 3)) { case 0: merge<Raw>(); break; case 1: merge<State>(); break; default: merge<Command>(); }
#else
  switch (vp_choice("type", 5)) { case 0: history<Raw>(1); break; case 1: history<Plain>(1); break; case 2: history<State>(1); break; case 3: history<Command>(1); break; default: history<Raw>(2); }
#endif
}
