BUG = {'id': 'c29-text-is-one',
 'property': 'C29',
 'needs': 'a joint offset that is not a number',
 'breaks': 'an offset that is not a number is ignored',
 "edits": [('transmission_interface/src/transmission_loader.cpp',
            'specifies the <offset> element, but is not a number.");\n    return false;',
            'specifies the <offset> element, but is not a number.");\n    return required ? false : true;')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <transmission_interface/simple_transmission_loader.h>\n'
         'using namespace transmission_interface;\n'
         'int main() {\n'
         '  TransmissionInfo t; t.name_ = "t"; t.type_ = "S"; TiXmlElement* e = new TiXmlElement("actuator"); '
         'e->add("mechanicalReduction")->setText("2")->setState(2); TiXmlElement* j = new TiXmlElement("joint"); '
         'j->add("offset")->setText("abc")->setState(2); std::stringstream s1, s2; s1 << *e; s2 << *j; ActuatorInfo a; a.name_ = "a"; a.xml_element_ = '
         's1.str(); JointInfo i; i.name_ = "j"; i.xml_element_ = s2.str(); t.actuators_.push_back(a); t.joints_.push_back(i); SimpleTransmissionLoader l; '
         'REQUIRE(!l.load(t));\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['transmission_interface/src/transmission_loader.cpp', 'transmission_interface/src/simple_transmission_loader.cpp'],
 'msgs': False}
