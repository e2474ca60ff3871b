BUG = dict(id='c15-own-hides-parts', property='C15', needs='a robot that has an interface of its own and a part with the same interface type', breaks='the parts are only asked when the robot has no such interface itself, so the combined interface misses their resources',
 edits=[('hardware_interface/include/hardware_interface/internal/interface_manager.h', """    for (const auto& interface_manager : interface_managers_) {
      T* iface = interface_manager->get<T>();
      if (iface)
        iface_list.push_back(iface);
    }
""", """    for (const auto& interface_manager : interface_managers_) {
      T* iface = iface_list.empty() || it == interfaces_.end() ? interface_manager->get<T>() : nullptr;
      if (iface)
        iface_list.push_back(iface);
    }
""")],
 demo=r'''#include <hardware_interface/robot_hw.h>
#include <hardware_interface/joint_state_interface.h>
#include <cstdio>
using namespace hardware_interface;
int main() {
  double a = 0; RobotHW root, part; JointStateInterface own, other; own.registerHandle(JointStateHandle("a", &a, &a, &a)); other.registerHandle(JointStateHandle("b", &a, &a, &a));
  root.registerInterface(&own); part.registerInterface(&other); root.registerInterfaceManager(&part);
  JointStateInterface* i = root.get<JointStateInterface>(); if (!i) return 1;
  try { i->getHandle("a"); i->getHandle("b"); } catch (const std::exception& e) { printf("%s\n", e.what()); return 1; }
  return i->getNames().size() == 2 ? 0 : 1;
}
''')
