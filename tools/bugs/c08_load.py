BUG = {'id': 'c08-load-gives-up', 'property': 'C08',
 'needs': 'a load while an update cycle that uses the old list is in progress',
 'breaks': 'loading gives up waiting for the update thread and reports failure although the controller is then loaded',
 'edits': [('controller_manager/src/controller_manager.cpp',
"""  while (used_by_realtime_ == former_current_controllers_list_)
  {
    if (!ros::ok())
    {
      return false;
    }
    std::this_thread::sleep_for(std::chrono::microseconds(200));
  }
  from.clear();

  ROS_DEBUG("Successfully load""",
"""  int polls = 0;
  while (used_by_realtime_ == former_current_controllers_list_)
  {
    if (!ros::ok() || ++polls > 4)
    {
      return false;
    }
    std::this_thread::sleep_for(std::chrono::microseconds(200));
  }
  from.clear();

  ROS_DEBUG("Successfully load""")],
 'demo': '''#include "demo_cm.h"
int main() {
  static Sys s; static std::atomic<bool> in{false}; static bool ok = false; s.load("a", {"x"}); REQUIRE(s.sw({"a"}, {}));
  auto p = std::make_shared<Ctrl>(); p->name = "b"; s.loader->next = p; ros_stub::setString("/b/type", "T");
  s.c["a"]->onUpdate = [] { in = true; std::this_thread::sleep_for(std::chrono::milliseconds(300)); };
  std::thread t([] { s.cycle(); }); while (!in) std::this_thread::yield(); std::thread u([] { ok = s.cm.loadController("b"); }); t.join();
  s.c["a"]->onUpdate = nullptr; s.run(); u.join(); s.halt(); REQUIRE(ok);
  return 0;
}
''',
 'srcs': ['controller_manager/src/controller_manager.cpp'], 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
