BUG = {'id': 'c18-partial-claims',
 'property': 'C18',
 'needs': 'a controller that claims two resources under one interface, one of them in each of two parts',
 'breaks': 'a part only gets the claims of which it provides every resource',
 'edits': [('combined_robot_hw/src/combined_robot_hw.cpp',
            '        if (!filtered_resources.empty())\n',
            '        if (!filtered_resources.empty() && filtered_resources.size() == claimed_resource.resources.size())\n')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <combined_robot_hw/combined_robot_hw.h>\n'
         '#include <hardware_interface/joint_command_interface.h>\n'
         'using namespace hardware_interface;\n'
         'struct Part : RobotHW { std::list<ControllerInfo> got; int reads = 0, writes = 0; PositionJointInterface p; VelocityJointInterface v; double a = 0;\n'
         '  bool prepareSwitch(const std::list<ControllerInfo>& s, const std::list<ControllerInfo>&) override { got = s; return true; } void read(const '
         'ros::Time&, const ros::Duration&) override { ++reads; } void write(const ros::Time&, const ros::Duration&) override { ++writes; } };\n'
         'struct Robot : combined_robot_hw::CombinedRobotHW { void add(RobotHWSharedPtr p) { robot_hw_list_.push_back(p); registerInterfaceManager(p.get()); } '
         '};\n'
         'static InterfaceResources ir(const std::string& i, const std::string& r) { InterfaceResources x; x.hardware_interface = i; x.resources.insert(r); '
         'return x; }\n'
         'int main() {\n'
         '  Robot r; auto p1 = std::make_shared<Part>(), p2 = std::make_shared<Part>(); double a = 0; JointHandle x(JointStateHandle("x", &a, &a, &a), &a), '
         'y(JointStateHandle("y", &a, &a, &a), &a); p1->p.registerHandle(x); p1->registerInterface(&p1->p); p2->p.registerHandle(y); '
         'p2->registerInterface(&p2->p); r.add(p1); r.add(p2);\n'
         '  ControllerInfo c; c.name = "c"; c.type = "T"; c.claimed_resources = {ir("hardware_interface::PositionJointInterface", "x")}; '
         'c.claimed_resources[0].resources.insert("y"); REQUIRE(r.prepareSwitch({c}, {})); REQUIRE(p1->got.size() == 1 && p2->got.size() == 1); '
         'REQUIRE(p2->got.front().claimed_resources[0].resources == std::set<std::string>{"y"});\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['combined_robot_hw/src/combined_robot_hw.cpp'],
 'msgs': False}
