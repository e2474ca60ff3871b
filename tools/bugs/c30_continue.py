BUG = {'id': 'c30-list-continues',
 'property': 'C30',
 'needs': 'a list of transmissions of which one that is not the last cannot be loaded',
 'breaks': 'loading a list goes on after a failure',
 'edits': [('transmission_interface/src/transmission_interface_loader.cpp',
            '  for (const auto& info : transmission_info_vec)\n  {\n    if (!load(info)) {return false;}\n  }\n  return true;',
            '  bool load_ok = true;\n  for (const auto& info : transmission_info_vec)\n  {\n    load_ok = load(info) && load_ok;\n  }\n  return load_ok;')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <transmission_interface/transmission_interface_loader.h>\n'
         '#include <transmission_interface/simple_transmission.h>\n'
         '#include <hardware_interface/actuator_command_interface.h>\n'
         '#include <transmission_interface/position_joint_interface_provider.h>\n'
         'using namespace transmission_interface; using namespace hardware_interface;\n'
         'struct SL : TransmissionLoader { TransmissionSharedPtr load(const TransmissionInfo& i) override { return i.joints_.size() == 1 ? '
         'TransmissionSharedPtr(new SimpleTransmission(2)) : TransmissionSharedPtr(); } };\n'
         'template <class D, class B> static B* mk() { return new D; }\n'
         'struct World { double s[4] = {1, 2, 3, 0}, c[4] = {0, 0, 0, 0}; RobotHW hw; ActuatorStateInterface as; PositionActuatorInterface ap; '
         'RobotTransmissions rt; std::unique_ptr<TransmissionInterfaceLoader> l;\n'
         '  World() { pluginlib_stub::add<TransmissionLoader>("T", "transmission_interface::TransmissionLoader", mk<SL, TransmissionLoader>); '
         'pluginlib_stub::add<RequisiteProvider>("S", "transmission_interface::RequisiteProvider", mk<JointStateInterfaceProvider, RequisiteProvider>); '
         'pluginlib_stub::add<RequisiteProvider>("P", "transmission_interface::RequisiteProvider", mk<PositionJointInterfaceProvider, RequisiteProvider>);\n'
         '    for (int i = 0; i < 2; ++i) { ActuatorStateHandle h(i ? "y" : "x", s + i, s + i, s + i); as.registerHandle(h); '
         'ap.registerHandle(ActuatorHandle(h, c + i)); } hw.registerInterface(&as); hw.registerInterface(&ap); l.reset(new TransmissionInterfaceLoader(&hw, '
         '&rt)); } };\n'
         'static TransmissionInfo info(const std::string& n, const std::string& type, std::vector<std::string> joints, std::vector<std::vector<std::string>> '
         'hw, std::vector<std::string> acts) { TransmissionInfo t; t.name_ = n; t.type_ = type; for (size_t i = 0; i < joints.size(); ++i) { JointInfo j; '
         'j.name_ = joints[i]; j.hardware_interfaces_ = hw[i]; t.joints_.push_back(j); } for (auto& a : acts) { ActuatorInfo x; x.name_ = a; '
         't.actuators_.push_back(x); } return t; }\n'
         'int main() {\n'
         '  World w; REQUIRE(!w.l->load(std::vector<TransmissionInfo>{info("t", "Q", {"a"}, {{"P"}}, {"x"}), info("u", "T", {"b"}, {{"P"}}, {"y"})})); '
         'PositionJointInterface* p = w.hw.get<PositionJointInterface>(); REQUIRE(!p || p->getNames().empty());\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['transmission_interface/src/transmission_interface_loader.cpp',
          'transmission_interface/src/transmission_parser.cpp',
          'transmission_interface/src/joint_state_interface_provider.cpp',
          'transmission_interface/src/position_joint_interface_provider.cpp',
          'transmission_interface/src/transmission_loader.cpp'],
 'msgs': False}
