CM="controller_manager/src/controller_manager.cpp"
BUG = dict(id='c01-already-running', property='C01', needs='a best-effort request to start a controller that is already running together with one that claims the same resource', breaks='the claims of the running controller are not counted, so both end up running',
 edits=[(CM, "        start_request_.erase(std::remove(start_request_.begin(), start_request_.end(), controller.c.get()), start_request_.end());\n", "        start_request_.erase(std::remove(start_request_.begin(), start_request_.end(), controller.c.get()), start_request_.end());\n        continue;\n")],
 demo='#include "demo_cm.h"\nint main() {\n  Sys s; s.load("a", {"x"}); s.load("b", {"x"}); REQUIRE(s.sw({"a"}, {})); s.sw({"b"}, {}, 1); REQUIRE(!s.c["b"]->isRunning()); s.sw({"a", "b"}, {}, 1); REQUIRE(s.c["a"]->isRunning() && !s.c["b"]->isRunning());\n  return 0;\n}\n', srcs=[CM], msgs=True)
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
