BUG = {'id': 'c28-torque-needs-encoder',
 'property': 'C28',
 'needs': 'a transmission with a torque sensor but no absolute encoder',
 'breaks': 'torque sensors are only propagated for transmissions that have absolute encoders, too',
 'edits': [('transmission_interface/include/transmission_interface/transmission_interface.h',
            '    if(!actuator_data_.torque_sensor.empty() && transmission_->hasActuatorToJointTorqueSensor())',
            '    if(!actuator_data_.torque_sensor.empty() && !actuator_data_.absolute_position.empty() && transmission_->hasActuatorToJointTorqueSensor())')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <transmission_interface/simple_transmission.h>\n'
         '#include <transmission_interface/differential_transmission.h>\n'
         '#include <transmission_interface/four_bar_linkage_transmission.h>\n'
         '#include <transmission_interface/transmission_interface.h>\n'
         'using namespace transmission_interface;\n'
         'int main() {\n'
         '  double a = 2, q = 7, ta = 6, tj = 7; SimpleTransmission t(2); ActuatorData ad; JointData jd; ad.position = ad.velocity = ad.effort = {&a}; '
         'jd.position = jd.velocity = jd.effort = {&q}; ad.torque_sensor = {&ta}; jd.torque_sensor = {&tj}; ActuatorToJointStateInterface i; '
         'i.registerHandle(ActuatorToJointStateHandle("t", &t, ad, jd)); i.propagate(); REQUIRE(tj == 12);\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
