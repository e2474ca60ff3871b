BUG = {'id': 'c27-extra-offset',
 'property': 'C27',
 'needs': 'a transmission constructed with too many joint offsets',
 'breaks': 'a differential accepts a list of three joint offsets',
 'edits': [('transmission_interface/include/transmission_interface/differential_transmission.h',
            '      numJoints()    != jnt_offset_.size())',
            '      numJoints()    >  jnt_offset_.size())')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <transmission_interface/differential_transmission.h>\n'
         '#include <transmission_interface/four_bar_linkage_transmission.h>\n'
         '#include <transmission_interface/transmission_interface.h>\n'
         'using namespace transmission_interface;\n'
         'int main() {\n'
         '  bool threw = false; try { DifferentialTransmission({2, 3}, {4, 5}, {0, 0, 0}); } catch (const TransmissionInterfaceException&) { threw = true; } '
         'REQUIRE(threw);\n'
         '  return 0;\n'
         '}\n',
 'srcs': [],
 'msgs': False}
