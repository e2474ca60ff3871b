import re
s = open('/repo/transmission_interface/src/differential_transmission_loader.cpp').read()
m = re.search(r"    getJointOffset\(jnt_elements\[id\][\s\S]*?joint_offset\[i\]\)", s) or re.search(r"getJointOffset\(jnt_elements\[id\][\s\S]*?joint_offset\[i\]\)", s)
old = m.group(0)
BUG = dict(id='c29-offset-order', property='C29', needs='a differential transmission whose second joint is listed before the first, with offsets that differ', breaks='offsets follow the document order while reductions follow the roles, so the joints get each other\'s offset',
 edits=[('transmission_interface/src/differential_transmission_loader.cpp', old, old.replace('joint_offset[i]', 'joint_offset[id]'))],
 srcs=['transmission_interface/src/transmission_loader.cpp', 'transmission_interface/src/differential_transmission_loader.cpp'],
 demo=r'''#include <transmission_interface/differential_transmission_loader.h>
#include <transmission_interface/differential_transmission.h>
#include <cstdio>
using namespace transmission_interface;
int main() {
  TransmissionInfo t; t.name_ = "t"; t.type_ = "transmission_interface/DifferentialTransmission"; ActuatorInfo a[2]; JointInfo j[2];
  const char* num[4][3] = {{"actuator1", "2", 0}, {"actuator2", "3", 0}, {"joint2", "5", "7"}, {"joint1", "4", "6"}}; std::string x[4];
  for (int i = 0; i < 4; ++i) { TiXmlElement* e = new TiXmlElement(i < 2 ? "actuator" : "joint"); e->setAttr("name", "n"); e->add("role")->setText(num[i][0])->setState(2); e->add("mechanicalReduction")->setText(num[i][1])->setState(2); if (num[i][2]) e->add("offset")->setText(num[i][2])->setState(2); std::stringstream ss; ss << *e; x[i] = ss.str(); }
  a[0].name_ = "a1"; a[1].name_ = "a2"; j[0].name_ = "j2"; j[1].name_ = "j1"; for (int i = 0; i < 2; ++i) { a[i].xml_element_ = x[i]; j[i].xml_element_ = x[2 + i]; t.actuators_.push_back(a[i]); t.joints_.push_back(j[i]); }
  DifferentialTransmissionLoader l; TransmissionSharedPtr s = l.load(t); DifferentialTransmission* d = dynamic_cast<DifferentialTransmission*>(s.get()); if (!d) { printf("not loaded\n"); return 4; }
  printf("%g %g / %g %g\n", d->getJointReduction()[0], d->getJointReduction()[1], d->getJointOffset()[0], d->getJointOffset()[1]);
  return d->getJointReduction()[0] == 4 && d->getJointReduction()[1] == 5 && d->getJointOffset()[0] == 6 && d->getJointOffset()[1] == 7 ? 0 : 1;
}
''')
