BUG = {'id': 'c25-velocity-sign',
 'property': 'C25',
 'needs': 'a simple transmission with a negative reduction',
 'breaks': 'both velocity maps of a simple transmission ignore the sign of the reduction',
 'edits': [('transmission_interface/include/transmission_interface/simple_transmission.h',
            '*jnt_data.velocity[0] = *act_data.velocity[0] / reduction_;',
            '*jnt_data.velocity[0] = *act_data.velocity[0] / (reduction_ < 0.0 ? -reduction_ : reduction_);'),
           ('transmission_interface/include/transmission_interface/simple_transmission.h',
            '*act_data.velocity[0] = *jnt_data.velocity[0] * reduction_;',
            '*act_data.velocity[0] = *jnt_data.velocity[0] * (reduction_ < 0.0 ? -reduction_ : reduction_);')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <transmission_interface/simple_transmission.h>\n'
         '#include <transmission_interface/differential_transmission.h>\n'
         '#include <transmission_interface/four_bar_linkage_transmission.h>\n'
         '#include <transmission_interface/transmission_interface.h>\n'
         'using namespace transmission_interface;\n'
         'int main() {\n'
         '  double a = 1.5, q = 0, ae = 2, je = 0; ActuatorData ad; JointData jd; ad.velocity = {&a}; jd.velocity = {&q}; ad.effort = {&ae}; '
         'jd.effort = {&je}; SimpleTransmission t(-4.0, 1.0);\n'
         '  t.actuatorToJointVelocity(ad, jd); t.actuatorToJointEffort(ad, jd); REQUIRE(std::abs(a*ae - q*je) < 1e-9);\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
