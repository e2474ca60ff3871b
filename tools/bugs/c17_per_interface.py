BUG = dict(id='c17-conflict-per-interface', property='C17', needs='two controllers that claim the same joint through different interface types', breaks='claims are compared per interface type, so a position and an effort controller may own the same joint',
 edits=[('hardware_interface/include/hardware_interface/robot_hw.h', "          resource_map[iface_resource].push_back(controller_info);", "          resource_map[claimed_resource.hardware_interface + \"/\" + iface_resource].push_back(controller_info);")],
 demo=r'''#include <hardware_interface/robot_hw.h>
using namespace hardware_interface;
static ControllerInfo ci(const char* n, const char* hw, const char* r) { ControllerInfo c; c.name = n; c.type = "t"; InterfaceResources ir; ir.hardware_interface = hw; ir.resources.insert(r); c.claimed_resources.push_back(ir); return c; }
int main() {
  RobotHW r; std::list<ControllerInfo> l; l.push_back(ci("a", "PositionJointInterface", "j1")); l.push_back(ci("b", "EffortJointInterface", "j1")); if (!r.checkForConflict(l)) return 1;
  std::list<ControllerInfo> m; m.push_back(ci("a", "P", "j1")); m.push_back(ci("b", "P", "j2")); return r.checkForConflict(m) ? 1 : 0;
}
''')
