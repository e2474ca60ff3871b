REQ=r'''#include <cstdio>
#include <cmath>
#include <cstdlib>
#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)
'''
BUG = dict(id='c29-offset-float', property='C29', needs='an offset that is not exactly representable in single precision', breaks='offsets are rounded to single precision',
 edits=[('transmission_interface/src/transmission_loader.cpp', "offset = std::stod(", "offset = std::stof(")],
 demo=REQ+r'''#include <transmission_interface/simple_transmission_loader.h>
#include <transmission_interface/simple_transmission.h>
using namespace transmission_interface;
int main() {
  TransmissionInfo t; t.name_ = "t"; t.type_ = "S"; TiXmlElement* e = new TiXmlElement("actuator"); e->setAttr("name", "a"); e->add("mechanicalReduction")->setText("50")->setState(2); std::stringstream ss; ss << *e; ActuatorInfo a; a.name_ = "a"; a.xml_element_ = ss.str(); t.actuators_.push_back(a);
  e = new TiXmlElement("joint"); e->setAttr("name", "j"); e->add("offset")->setText("-0.3")->setState(2); std::stringstream s2; s2 << *e; JointInfo j; j.name_ = "j"; j.xml_element_ = s2.str(); t.joints_.push_back(j);
  SimpleTransmissionLoader l; TransmissionSharedPtr s = l.load(t); SimpleTransmission* d = dynamic_cast<SimpleTransmission*>(s.get()); REQUIRE(d); REQUIRE(d->getJointOffset() == -0.3); REQUIRE(d->getActuatorReduction() == 50);
  return 0;
}
''', srcs=['transmission_interface/src/transmission_loader.cpp', 'transmission_interface/src/simple_transmission_loader.cpp'])
