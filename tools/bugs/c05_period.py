BUG = {'id': 'c05-reset-period',
 'property': 'C05',
 'needs': 'a cycle in which a reset is requested while a controller runs',
 'breaks': 'in a cycle with a reset the running controllers are updated with a zero period',
 'edits': [('controller_manager/src/controller_manager.cpp',
            '    controller.c->updateRequest(time, period);',
            '    controller.c->updateRequest(time, reset_controllers && controller.c->isRunning() ? ros::Duration(0.0) : period);')],
 'demo': '#include "demo_cm.h"\n'
         'int main() {\n'
         '  static Sys s; static double seen; REQUIRE(s.load("a")); REQUIRE(s.sw({"a"}, {})); struct P : Ctrl {}; seen = -1; class Q : public Ctrl { public: '
         'void update(const ros::Time&, const ros::Duration& p) override { seen = p.toSec(); } };\n'
         '  auto q = std::make_shared<Q>(); q->name = "b"; s.loader->next = q; ros_stub::setString("/b/type", "T"); s.run(); bool ok = s.cm.loadController("b"); s.halt(); REQUIRE(ok); '
         'REQUIRE(s.sw({"b"}, {})); s.cycle(); REQUIRE(seen == 0.01); s.cycle(true); REQUIRE(seen == 0.01);\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['controller_manager/src/controller_manager.cpp'],
 'msgs': True}
BUG['files'] = {'demo_cm.h': open('/verif/tools/demo_cm.h').read()}
