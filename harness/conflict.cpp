// C17: RobotHW::checkForConflict.
#include "vp.h"
#include <list>
#include <set>
#include <algorithm>
#include <hardware_interface/robot_hw.h>
using namespace hardware_interface;
#ifdef VP_THOROUGH
enum { MAXC = 4, LEN = 1 };
#else
enum { MAXC = 3, LEN = 1 };
#endif
static std::string sym() { std::string s; int n = LEN == 1 ? 1 : 1 + (int)vp_choice("length", 2); for (int i = 0; i < n; ++i) s += (char)vp_int("resource", 'a', 'f'); return s; }
struct C { int ctrl, iface; std::string res; };
extern "C" void vp_main() {
  int nc = (int)vp_choice("controllers", 4), total = 0; std::vector<C> claims; std::list<ControllerInfo> list;
  for (int c = 0; c < nc; ++c) {
    ControllerInfo ci; ci.name = std::string(1, (char)('p' + c)); ci.type = "t"; int ni = (int)vp_choice("interfaces", 3);
    for (int i = 0; i < ni; ++i) { InterfaceResources ir; ir.hardware_interface = i && !vp_choice("same_interface", 2) ? "J" : "I"; int nr = (int)vp_choice("resources", 3); total += nr; if (total > MAXC) vp_end();
      for (int r = 0; r < nr; ++r) { C x = {c, i, sym()}; if (!ir.resources.insert(x.res).second) vp_end(); claims.push_back(x); }
      ci.claimed_resources.push_back(ir); }
    list.push_back(ci);
  }
  const std::list<ControllerInfo> given = list; RobotHW hw; bool r = hw.checkForConflict(given), e = false;
  for (size_t i = 0; i < claims.size(); ++i) for (size_t k = 0; k < i; ++k) if (claims[i].res == claims[k].res) e = true;
  VP_CHECK(r == e, e ? "a resource claimed twice is not reported as a conflict" : "a conflict is reported although no resource is claimed twice");
  std::list<ControllerInfo>::const_iterator a = given.begin(), b = list.begin(); VP_CHECK(given.size() == list.size(), "the list was changed");
  for (; a != given.end() && b != list.end(); ++a, ++b) { VP_CHECK(a->name == b->name && a->claimed_resources.size() == b->claimed_resources.size(), "the list was changed"); for (size_t i = 0; i < a->claimed_resources.size() && i < b->claimed_resources.size(); ++i) VP_CHECK(a->claimed_resources[i].resources == b->claimed_resources[i].resources, "a claim was changed"); }
  RobotHW::SwitchState s = hw.switchResult(); vp_reach(r ? "conflict" : "no conflict"); (void)s;
}
