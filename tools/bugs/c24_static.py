PRE = r'''#include <cstdio>
#include <cmath>
#include <cstdlib>
#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
#include <transmission_interface/transmission_interface.h>
using namespace transmission_interface;'''
BUG = {'id': 'c24-shared-reduction', 'property': 'C24', 'needs': 'two simple transmissions with different reductions in one process', 'breaks': 'the velocity map of every simple transmission uses the reduction of the one that was used first',
 'edits': [('transmission_interface/include/transmission_interface/simple_transmission.h', '  *act_data.velocity[0] = *jnt_data.velocity[0] * reduction_;\n', '  static const double gain = reduction_;\n  *act_data.velocity[0] = *jnt_data.velocity[0] * gain;\n')],
 'demo': PRE + '''int main() {
  double a = 0, q = 1; ActuatorData ad; JointData jd; ad.velocity = {&a}; jd.velocity = {&q}; SimpleTransmission t(2), u(5); t.jointToActuatorVelocity(jd, ad); REQUIRE(a == 2); u.jointToActuatorVelocity(jd, ad); REQUIRE(a == 5);
  return 0;
}
''', 'srcs': [], 'msgs': False}
