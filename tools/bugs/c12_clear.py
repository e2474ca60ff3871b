BUG = {'id': 'c12-claims-stay',
 'property': 'C12',
 'needs': 'someone looks at the claims of the interface after a controller was initialized',
 'breaks': 'the resources a controller claimed while it was initialized stay claimed in the robot',
 'edits': [('controller_interface/include/controller_interface/controller.h',
            '    claimed_resources.assign(1, iface_res);\n    hw->clearClaims();\n',
            '    claimed_resources.assign(1, iface_res);\n    if (iface_res.resources.empty()) {hw->clearClaims();}\n')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <controller_interface/controller.h>\n'
         '#include <iterator>\n'
         '#include <controller_interface/multi_interface_controller.h>\n'
         '#include <hardware_interface/joint_command_interface.h>\n'
         'using namespace hardware_interface; using namespace controller_interface;\n'
         'struct C : Controller<PositionJointInterface> { bool init(PositionJointInterface* h, ros::NodeHandle&) override { h->getHandle("y"); return true; } '
         'void update(const ros::Time&, const ros::Duration&) override {} bool initialize(RobotHW* h, ros::NodeHandle& n, ClaimedResources& r) { return '
         'initRequest(h, n, n, r); } };\n'
         'int main() {\n'
         '  double a = 0; JointStateHandle x("x", &a, &a, &a), y("y", &a, &a, &a); PositionJointInterface p; p.registerHandle(JointHandle(x, &a)); '
         'p.registerHandle(JointHandle(y, &a)); RobotHW hw; hw.registerInterface(&p);\n'
         '  ros::NodeHandle nh; C c; ControllerBase::ClaimedResources r; REQUIRE(c.initialize(&hw, nh, r)); REQUIRE(r.size() == 1 && r[0].resources == '
         'std::set<std::string>{"y"}); REQUIRE(p.getClaims().empty());\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
