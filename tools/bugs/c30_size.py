BUG = {'id': 'c30-more-interfaces',
 'property': 'C30',
 'needs': 'a transmission of two joints, the second of which names one more interface than the first',
 'breaks': 'a transmission is accepted although its second joint has additional hardware interfaces',
 'edits': [('transmission_interface/src/transmission_interface_loader.cpp',
            '    if (hw_ifaces_ref.size() != jnt_info.hardware_interfaces_.size() ||',
            '    if (hw_ifaces_ref.size() >  jnt_info.hardware_interfaces_.size() ||')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <transmission_interface/transmission_interface_loader.h>\n'
         '#include <transmission_interface/simple_transmission.h>\n'
         '#include <hardware_interface/actuator_command_interface.h>\n'
         '#include <transmission_interface/position_joint_interface_provider.h>\n'
         'using namespace transmission_interface; using namespace hardware_interface;\n'
         'struct SL : TransmissionLoader { TransmissionSharedPtr load(const TransmissionInfo& i) override { return i.joints_.size() == 1 ? '
         'TransmissionSharedPtr(new SimpleTransmission(2)) : TransmissionSharedPtr(); } };\n'
         'template <class D, class B> static B* mk() { return new D; }\n'
         'struct World { double s[4] = {1, 2, 3, 0}, c[4] = {0, 0, 0, 0}; RobotHW hw; ActuatorStateInterface as; PositionActuatorInterface ap; '
         'RobotTransmissions rt; std::unique_ptr<TransmissionInterfaceLoader> l;\n'
         '  World() { pluginlib_stub::add<TransmissionLoader>("T", "transmission_interface::TransmissionLoader", mk<SL, TransmissionLoader>); '
         'pluginlib_stub::add<RequisiteProvider>("S", "transmission_interface::RequisiteProvider", mk<JointStateInterfaceProvider, RequisiteProvider>); '
         'pluginlib_stub::add<RequisiteProvider>("P", "transmission_interface::RequisiteProvider", mk<PositionJointInterfaceProvider, RequisiteProvider>);\n'
         '    for (int i = 0; i < 2; ++i) { ActuatorStateHandle h(i ? "y" : "x", s + i, s + i, s + i); as.registerHandle(h); '
         'ap.registerHandle(ActuatorHandle(h, c + i)); } hw.registerInterface(&as); hw.registerInterface(&ap); l.reset(new TransmissionInterfaceLoader(&hw, '
         '&rt)); } };\n'
         'static TransmissionInfo info(const std::string& n, const std::string& type, std::vector<std::string> joints, std::vector<std::vector<std::string>> '
         'hw, std::vector<std::string> acts) { TransmissionInfo t; t.name_ = n; t.type_ = type; for (size_t i = 0; i < joints.size(); ++i) { JointInfo j; '
         'j.name_ = joints[i]; j.hardware_interfaces_ = hw[i]; t.joints_.push_back(j); } for (auto& a : acts) { ActuatorInfo x; x.name_ = a; '
         't.actuators_.push_back(x); } return t; }\n'
         '#include <transmission_interface/differential_transmission.h>\n'
         'struct Two : DifferentialTransmission { Two() : DifferentialTransmission({1, 1}, {1, 1}) {} };\n'
         'int main() {\n'
         '  World w; struct TL : TransmissionLoader { TransmissionSharedPtr load(const TransmissionInfo&) override { return TransmissionSharedPtr(new Two); } '
         '}; pluginlib_stub::add<TransmissionLoader>("T2", "transmission_interface::TransmissionLoader", mk<TL, TransmissionLoader>);\n'
         '  REQUIRE(!w.l->load(info("t", "T2", {"a", "b"}, {{"P"}, {"P", "S"}}, {"x", "y"})));\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['transmission_interface/src/transmission_interface_loader.cpp',
          'transmission_interface/src/transmission_parser.cpp',
          'transmission_interface/src/joint_state_interface_provider.cpp',
          'transmission_interface/src/position_joint_interface_provider.cpp',
          'transmission_interface/src/transmission_loader.cpp'],
 'msgs': False}
