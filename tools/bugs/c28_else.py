PRE = r'''#include <cstdio>
#include <cmath>
#include <cstdlib>
#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
#include <transmission_interface/transmission_interface.h>
using namespace transmission_interface;'''
BUG = {'id': 'c28-one-sensor', 'property': 'C28', 'needs': 'a transmission with both an absolute encoder and a torque sensor', 'breaks': 'the torque sensor is not propagated when there is an absolute encoder',
 'edits': [('transmission_interface/include/transmission_interface/transmission_interface.h', """    }

    if(!actuator_data_.torque_sensor.empty() && transmission_->hasActuatorToJointTorqueSensor())""", """    }
    else if(!actuator_data_.torque_sensor.empty() && transmission_->hasActuatorToJointTorqueSensor())""")],
 'demo': PRE + '''int main() {
  double a = 2, q = 7, ta = 6, tj = 7, pa = 1, pj = 7; SimpleTransmission t(2); ActuatorData ad; JointData jd; ad.position = ad.velocity = ad.effort = {&a}; jd.position = jd.velocity = jd.effort = {&q}; ad.torque_sensor = {&ta}; jd.torque_sensor = {&tj}; ad.absolute_position = {&pa}; jd.absolute_position = {&pj};
  ActuatorToJointStateInterface i; i.registerHandle(ActuatorToJointStateHandle("t", &t, ad, jd)); i.propagate(); REQUIRE(pj == 0.5); REQUIRE(tj == 12);
  return 0;
}
''', 'srcs': [], 'msgs': False}
