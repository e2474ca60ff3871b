BUG = {'id': 'c12-left-claims',
 'property': 'C12',
 'needs': 'a controller whose initialization fails after it got a handle, and then another multi-interface controller on the same robot',
 'breaks': 'resources claimed by a controller that failed to initialize are reported as claims of the next one',
 'edits': [('controller_interface/include/controller_interface/multi_interface_controller.h',
            '    clearClaims(robot_hw_ctrl_p); // claims will be populated on controller init\n',
            '    // claims will be populated on controller init\n')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <iterator>\n'
         '#include <controller_interface/multi_interface_controller.h>\n'
         '#include <hardware_interface/joint_command_interface.h>\n'
         'using namespace hardware_interface; using namespace controller_interface;\n'
         'struct C : MultiInterfaceController<PositionJointInterface, VelocityJointInterface> { std::string res; bool ok = true; bool init(RobotHW* h, '
         'ros::NodeHandle&) override { h->get<PositionJointInterface>()->getHandle(res); return ok; } void update(const ros::Time&, const ros::Duration&) '
         'override {} bool initialize(RobotHW* h, ros::NodeHandle& n, ClaimedResources& r) { return initRequest(h, n, n, r); } };\n'
         'int main() {\n'
         '  double a = 0; JointStateHandle x("x", &a, &a, &a), y("y", &a, &a, &a); PositionJointInterface p; p.registerHandle(JointHandle(x, &a)); '
         'p.registerHandle(JointHandle(y, &a)); VelocityJointInterface v; RobotHW hw; hw.registerInterface(&p); hw.registerInterface(&v);\n'
         '  ros::NodeHandle nh; C c1, c2; c1.res = "x"; c1.ok = false; c2.res = "y"; ControllerBase::ClaimedResources r; REQUIRE(!c1.initialize(&hw, nh, r)); '
         'REQUIRE(c2.initialize(&hw, nh, r)); REQUIRE(r.size() == 2 && r[0].resources == std::set<std::string>{"y"});\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
