BUG = {'id': 'c08-shutdown-frees', 'property': 'C08',
 'needs': 'ROS shutting down while an unload waits for an update cycle that uses the old list',
 'breaks': 'at shutdown the wait for the update cycle ends and the controllers list it uses is cleared',
 'edits': [('controller_manager/src/controller_manager.cpp', """    if (!ros::ok())
    {
      return false;
    }
    std::this_thread::sleep_for(std::chrono::microseconds(200));
  }
  ROS_DEBUG("Destruct controller");
""", """    if (!ros::ok())
    {
      break;
    }
    std::this_thread::sleep_for(std::chrono::microseconds(200));
  }
  ROS_DEBUG("Destruct controller");
""")],
 'demo': '''#include "demo_cm.h"
int main() {
  static Sys s; static std::atomic<bool> gone{false}, in{false}, bad{false}; s.load("a", {"x"}); s.load("b", {"y"}); s.c["b"]->destroyed = &gone; REQUIRE(s.sw({"a"}, {}));
  s.c["a"]->onUpdate = [] { in = true; std::this_thread::sleep_for(std::chrono::milliseconds(300)); if (gone) bad = true; };
  std::thread t([] { s.cycle(); }); while (!in) std::this_thread::yield(); std::thread u([] { s.cm.unloadController("b"); });
  std::this_thread::sleep_for(std::chrono::milliseconds(50)); ros_stub::okFlag() = false; t.join(); u.join(); REQUIRE(!bad);
  return 0;
}
''', 'srcs': ['controller_manager/src/controller_manager.cpp'], 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
