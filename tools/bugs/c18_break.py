BUG = {'id': 'c18-foreign-first',
 'property': 'C18',
 'needs': 'a controller that claims a resource of another part before one of this part, under an interface this part lacks',
 'breaks': 'the claims of a controller that follow one under an interface the part lacks are not passed to the part',
 'edits': [('combined_robot_hw/src/combined_robot_hw.cpp',
            '        {\n          continue;\n        }\n\n        std::vector<std::string> r_hw_iface_resources',
            '        {\n          break;\n        }\n\n        std::vector<std::string> r_hw_iface_resources')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <combined_robot_hw/combined_robot_hw.h>\n'
         '#include <hardware_interface/joint_command_interface.h>\n'
         'using namespace hardware_interface;\n'
         'struct Part : RobotHW { std::list<ControllerInfo> got; int reads = 0, writes = 0; PositionJointInterface p; VelocityJointInterface v; double a = 0;\n'
         '  bool prepareSwitch(const std::list<ControllerInfo>& s, const std::list<ControllerInfo>&) override { got = s; return true; } void read(const '
         'ros::Time&, const ros::Duration&) override { ++reads; } void write(const ros::Time&, const ros::Duration&) override { ++writes; } };\n'
         'struct Robot : combined_robot_hw::CombinedRobotHW { void add(RobotHWSharedPtr p) { robot_hw_list_.push_back(p); registerInterfaceManager(p.get()); } '
         '};\n'
         'static InterfaceResources ir(const std::string& i, const std::string& r) { InterfaceResources x; x.hardware_interface = i; x.resources.insert(r); '
         'return x; }\n'
         'int main() {\n'
         '  Robot r; auto p1 = std::make_shared<Part>(), p2 = std::make_shared<Part>(); double a = 0; JointHandle x(JointStateHandle("x", &a, &a, &a), &a), '
         'y(JointStateHandle("y", &a, &a, &a), &a); p1->p.registerHandle(x); p1->registerInterface(&p1->p); p2->v.registerHandle(y); '
         'p2->registerInterface(&p2->v); r.add(p1); r.add(p2);\n'
         '  ControllerInfo c; c.name = "c"; c.type = "T"; c.claimed_resources = {ir("hardware_interface::PositionJointInterface", "x"), '
         'ir("hardware_interface::VelocityJointInterface", "y")}; REQUIRE(r.prepareSwitch({c}, {})); REQUIRE(p1->got.size() == 1 && p2->got.size() == 1); '
         'REQUIRE(p2->got.front().claimed_resources.size() == 1);\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['combined_robot_hw/src/combined_robot_hw.cpp'],
 'msgs': False}
