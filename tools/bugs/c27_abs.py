BUG = {'id': 'c27-null-encoder',
 'property': 'C27',
 'needs': 'a transmission with a missing absolute position storage on the joint side only',
 'breaks': 'a null absolute joint position is accepted',
 'edits': [('transmission_interface/include/transmission_interface/transmission_interface.h',
            '    if (!joint_data.absolute_position.empty() && !hasValidPointers(joint_data.absolute_position))',
            '    if (!actuator_data.absolute_position.empty() && !hasValidPointers(joint_data.absolute_position))')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <transmission_interface/simple_transmission.h>\n'
         '#include <transmission_interface/differential_transmission.h>\n'
         '#include <transmission_interface/four_bar_linkage_transmission.h>\n'
         '#include <transmission_interface/transmission_interface.h>\n'
         'using namespace transmission_interface;\n'
         'int main() {\n'
         '  double a = 0; SimpleTransmission t(2); ActuatorData ad; JointData jd; ad.position = {&a}; jd.absolute_position = {nullptr}; bool threw = false; '
         'try { ActuatorToJointStateHandle("t", &t, ad, jd); } catch (const TransmissionInterfaceException&) { threw = true; } REQUIRE(threw);\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
