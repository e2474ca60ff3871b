BUG = {'id': 'c36-copied-spec', 'property': 'C36',
 'needs': 'an as-soon-as-possible switch of a controller with claimed resources',
 'breaks': 'the update cycle copies controller descriptions, with their names and claims, on the heap',
 'edits': [('controller_manager/src/controller_manager.cpp', """      for (const auto& controller : controllers_lists_[current_controllers_list_])
      {
        if (request == controller.c.get())""", """      for (const auto controller : controllers_lists_[current_controllers_list_])
      {
        if (request == controller.c.get())""")],
 'demo': r'''#include "demo_cm.h"
#include <new>
static thread_local bool watch = false; static std::atomic<int> news{0};
void* operator new(size_t n) { if (watch) ++news; return malloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
struct Quiet : RobotHW { SwitchState switchResult(const ControllerInfo&) const override { return SwitchState::DONE; } };
int main() {
  Quiet hw; ros::NodeHandle nh; controller_manager::ControllerManager cm(&hw, nh); auto l = std::make_shared<Loader>(); cm.registerControllerLoader(l);
  auto p = std::make_shared<Ctrl>(); InterfaceResources r; r.hardware_interface = "an interface with a long name"; r.resources = {"x", "y"}; p->claims.push_back(r); l->next = p; ros_stub::setString("/a/type", "T"); REQUIRE(cm.loadController("a"));
  std::atomic<bool> stop{false}; std::thread t([&] { double time = 1; while (!stop) { watch = true; cm.update(ros::Time(time += 0.01), ros::Duration(0.01)); watch = false; std::this_thread::sleep_for(std::chrono::microseconds(300)); } });
  bool ok = cm.switchController({"a"}, {}, 2, true, 0); stop = true; t.join(); REQUIRE(ok && p->starts == 1); REQUIRE(news == 0);
  return 0;
}
''', 'srcs': ['controller_manager/src/controller_manager.cpp'], 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
