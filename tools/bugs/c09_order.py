BUG = dict(id='c09-unload-reorders', property='C09', needs='three loaded controllers, one that is not the last unloaded, then a listing', breaks='the remaining controllers are no longer listed in the order they were loaded in',
 edits=[('controller_manager/src/controller_manager.cpp', "      removed = true;\n    }\n    else\n      to.push_back(controller);", "      removed = true;\n    }\n    else\n      to.insert(removed ? to.begin() : to.end(), controller);")],
 demo='#include "demo_cm.h"\nint main() {\n  Sys s; s.load("a", {"x"}); s.load("b", {"y"}); s.load("c", {"z"}); s.run(); bool ok = s.cm.unloadController("b"); s.halt(); REQUIRE(ok); controller_manager_msgs::ListControllers l; REQUIRE(ros_stub::call("/controller_manager/list_controllers", l)); REQUIRE(l.response.controller.size() == 2 && l.response.controller[0].name == "a" && l.response.controller[1].name == "c");\n  return 0;\n}\n', srcs=['controller_manager/src/controller_manager.cpp'], msgs=True)
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
