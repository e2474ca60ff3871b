BUG = dict(id='c15-first-part-only', property='C15', needs='two parts that have resources of the same interface type', breaks='the listed resources of an interface type are those of the first part only',
 edits=[('hardware_interface/include/hardware_interface/internal/interface_manager.h', """      std::vector<std::string> resources = interface_manager->getInterfaceResources(iface_type);
""", """      std::vector<std::string> resources;
      if (out.empty())
        resources = interface_manager->getInterfaceResources(iface_type);
""")],
 demo=r'''#include <hardware_interface/robot_hw.h>
#include <hardware_interface/joint_state_interface.h>
using namespace hardware_interface;
int main() {
  double a = 0; RobotHW root, p, q; JointStateInterface i, j; i.registerHandle(JointStateHandle("a", &a, &a, &a)); j.registerHandle(JointStateHandle("b", &a, &a, &a));
  p.registerInterface(&i); q.registerInterface(&j); root.registerInterfaceManager(&p); root.registerInterfaceManager(&q);
  return root.getInterfaceResources("hardware_interface::JointStateInterface").size() == 2 ? 0 : 1;
}
''')
