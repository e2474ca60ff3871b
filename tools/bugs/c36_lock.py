BUG = {'id': 'c36-waits-for-service', 'property': 'C36',
 'needs': 'a reset while a service call is in progress',
 'breaks': 'a reset makes the update cycle wait for the lock that service calls hold',
 'edits': [('controller_manager/src/controller_manager.cpp', """      if (controller.c->isRunning()){
        controller.c->stopRequest(time);
        controller.c->startRequest(time);""", """      if (getControllerByName(controller.info.name) == controller.c.get() && controller.c->isRunning()){
        controller.c->stopRequest(time);
        controller.c->startRequest(time);""")],
 'demo': r'''#include "demo_cm.h"
// a controller whose initialization takes long: the update cycles go on meanwhile, resets included
static std::atomic<bool> in{false}, done{false};
struct Slow : Ctrl { bool initRequest(RobotHW* h, ros::NodeHandle& a, ros::NodeHandle& b, ClaimedResources& c) override { in = true; std::this_thread::sleep_for(std::chrono::milliseconds(400)); done = true; return Ctrl::initRequest(h, a, b, c); } };
int main() {
  Sys s; s.load("a", {"x"}); REQUIRE(s.sw({"a"}, {})); s.cycle(true);
  s.loader->next = std::make_shared<Slow>(); ros_stub::setString("/b/type", "T"); std::thread t([&] { s.cm.loadController("b"); }); while (!in) std::this_thread::yield();
  s.cycle(true); bool waited = done; s.run(); t.join(); s.halt(); REQUIRE(!waited);
  return 0;
}
''', 'srcs': ['controller_manager/src/controller_manager.cpp'], 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
