BUG = {'id': 'c29-first-wins',
 'property': 'C29',
 'needs': 'a differential transmission whose two joints specify the same role',
 'breaks': 'two joints with the same role are accepted',
 'edits': [('transmission_interface/src/differential_transmission_loader.cpp',
            '  if (jnt_roles[0] == jnt_roles[1])',
            '  if (jnt_roles[0] == jnt_roles[1] && jnt_names[0] == jnt_names[1])')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <transmission_interface/differential_transmission_loader.h>\n'
         'using namespace transmission_interface;\n'
         'int main() {\n'
         '  TransmissionInfo t; t.name_ = "t"; t.type_ = "D"; const char* rl[4] = {"actuator1", "actuator2", "joint1", "joint1"};\n'
         '  for (int i = 0; i < 4; ++i) { TiXmlElement* e = new TiXmlElement(i < 2 ? "actuator" : "joint"); e->setAttr("name", "n"); '
         'e->add("role")->setText(rl[i])->setState(2); e->add("mechanicalReduction")->setText("2")->setState(2); std::stringstream ss; ss << *e; if (i < 2) { '
         'ActuatorInfo a; a.name_ = i ? "b" : "a"; a.xml_element_ = ss.str(); t.actuators_.push_back(a); } else { JointInfo a; a.name_ = i == 3 ? "b" : "a"; '
         'a.xml_element_ = ss.str(); t.joints_.push_back(a); } }\n'
         '  DifferentialTransmissionLoader l; REQUIRE(!l.load(t));\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['transmission_interface/src/transmission_loader.cpp', 'transmission_interface/src/differential_transmission_loader.cpp'],
 'msgs': False}
