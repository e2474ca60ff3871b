BUG = dict(id='c02-name-prefix', property='C02', needs='a request that names a controller that is not loaded, whose name begins with that of a loaded one', breaks='the loaded controller is switched instead of refusing the request',
 edits=[('controller_manager/src/controller_manager.cpp', "    if (controller.info.name == name)\n      return controller.c.get();", "    if (name.compare(0, controller.info.name.size(), controller.info.name) == 0)\n      return controller.c.get();")],
 demo='#include "demo_cm.h"\nint main() {\n  Sys s; s.load("wrist_left", {"y"}); s.load("wrist", {"x"}); REQUIRE(!s.sw({"wrist_right"}, {})); REQUIRE(!s.c["wrist"]->isRunning()); REQUIRE(s.sw({"wrist_left"}, {}) && s.c["wrist_left"]->isRunning());\n  return 0;\n}\n', srcs=['controller_manager/src/controller_manager.cpp'], msgs=True)
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
