BUG = {'id': 'c08-early-destroy',
 'property': 'C08',
 'needs': 'an unload while an update cycle that uses the old list is in progress',
 'breaks': 'unloading destroys the controller while the update cycle may still be using it',
 'edits': [('controller_manager/src/controller_manager.cpp',
            '  ROS_DEBUG("Realtime switches over to new controller list");\n  int former_current_controllers_list_ = current_controllers_list_;\n  current_controllers_list_ = free_controllers_list;\n',
            '  ROS_DEBUG("Realtime switches over to new controller list");\n  int former_current_controllers_list_ = current_controllers_list_;\n  current_controllers_list_ = free_controllers_list;\n  from.clear();\n'),
           ('controller_manager/src/controller_manager.cpp',
            '  ROS_DEBUG("Destruct controller");\n  from.clear();\n', '  ROS_DEBUG("Destruct controller");\n')],
 'demo': '#include "demo_cm.h"\n'
         'int main() {\n'
         '  static Sys s; static std::atomic<bool> gone{false}, in{false}, bad{false}; s.load("a", {"x"}); s.load("b", {"y"}); s.c["b"]->destroyed = &gone; '
         'REQUIRE(s.sw({"a"}, {}));\n'
         '  s.c["a"]->onUpdate = [] { in = true; std::this_thread::sleep_for(std::chrono::milliseconds(200)); if (gone) bad = true; };\n'
         '  std::thread t([] { s.cycle(); }); while (!in) std::this_thread::yield(); std::thread u([] { s.cm.unloadController("b"); }); t.join(); '
         's.c["a"]->onUpdate = nullptr; s.run(); u.join(); s.halt(); REQUIRE(!bad); REQUIRE(gone);\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['controller_manager/src/controller_manager.cpp'],
 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
