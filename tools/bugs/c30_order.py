BUG = {'id': 'c30-joint-added-early',
 'property': 'C30',
 'needs': 'a transmission whose actuator lacks the command interface',
 'breaks': 'the joint of a refused transmission is added to the robot',
 'edits': [('transmission_interface/src/transmission_interface_loader.cpp',
            '  const bool act_cmd_data_ok = getActuatorCommandData(transmission_info,\n'
            '                                                      loader_data.robot_hw,\n'
            '                                                      handle_data.act_cmd_data);\n'
            '  if (!act_cmd_data_ok) {return false;}\n'
            '\n',
            ''),
           ('transmission_interface/src/transmission_interface_loader.cpp',
            '  // Joint data\n  const bool jnt_state_data_ok',
            '  const bool act_cmd_data_ok = getActuatorCommandData(transmission_info,\n'
            '                                                      loader_data.robot_hw,\n'
            '                                                      handle_data.act_cmd_data);\n'
            '  if (!act_cmd_data_ok) {return false;}\n'
            '\n'
            '  // Joint data\n'
            '  const bool jnt_state_data_ok')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <transmission_interface/transmission_interface_loader.h>\n'
         '#include <transmission_interface/simple_transmission.h>\n'
         '#include <hardware_interface/actuator_command_interface.h>\n'
         '#include <transmission_interface/position_joint_interface_provider.h>\n'
         'using namespace transmission_interface; using namespace hardware_interface;\n'
         'struct SL : TransmissionLoader { TransmissionSharedPtr load(const TransmissionInfo& i) override { return i.joints_.size() == 1 ? '
         'TransmissionSharedPtr(new SimpleTransmission(2)) : TransmissionSharedPtr(); } };\n'
         'template <class D, class B> static B* mk() { return new D; }\n'
         'struct World { double s[4] = {1, 2, 3, 0}, c[4] = {0, 0, 0, 0}; RobotHW hw; ActuatorStateInterface as; PositionActuatorInterface ap; '
         'RobotTransmissions rt; std::unique_ptr<TransmissionInterfaceLoader> l;\n'
         '  World() { pluginlib_stub::add<TransmissionLoader>("T", "transmission_interface::TransmissionLoader", mk<SL, TransmissionLoader>); '
         'pluginlib_stub::add<RequisiteProvider>("S", "transmission_interface::RequisiteProvider", mk<JointStateInterfaceProvider, RequisiteProvider>); '
         'pluginlib_stub::add<RequisiteProvider>("P", "transmission_interface::RequisiteProvider", mk<PositionJointInterfaceProvider, RequisiteProvider>);\n'
         '    for (int i = 0; i < 2; ++i) { ActuatorStateHandle h(i ? "y" : "x", s + i, s + i, s + i); as.registerHandle(h); '
         'ap.registerHandle(ActuatorHandle(h, c + i)); } hw.registerInterface(&as); hw.registerInterface(&ap); l.reset(new TransmissionInterfaceLoader(&hw, '
         '&rt)); } };\n'
         'static TransmissionInfo info(const std::string& n, const std::string& type, std::vector<std::string> joints, std::vector<std::vector<std::string>> '
         'hw, std::vector<std::string> acts) { TransmissionInfo t; t.name_ = n; t.type_ = type; for (size_t i = 0; i < joints.size(); ++i) { JointInfo j; '
         'j.name_ = joints[i]; j.hardware_interfaces_ = hw[i]; t.joints_.push_back(j); } for (auto& a : acts) { ActuatorInfo x; x.name_ = a; '
         't.actuators_.push_back(x); } return t; }\n'
         'int main() {\n'
         '  World w; ActuatorStateHandle h("z", w.s, w.s, w.s); w.as.registerHandle(h); REQUIRE(!w.l->load(info("t", "T", {"a"}, {{"P"}}, {"z"}))); '
         'JointStateInterface* p = w.hw.get<JointStateInterface>(); REQUIRE(!p || p->getNames().empty());\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['transmission_interface/src/transmission_interface_loader.cpp',
          'transmission_interface/src/transmission_parser.cpp',
          'transmission_interface/src/joint_state_interface_provider.cpp',
          'transmission_interface/src/position_joint_interface_provider.cpp',
          'transmission_interface/src/transmission_loader.cpp'],
 'msgs': False}
