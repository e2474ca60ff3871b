BUG = {'id': 'c31-joint-refuses-all',
 'property': 'C31',
 'needs': 'a transmission with a joint that names no hardware interface next to a complete one',
 'breaks': 'one joint without hardware interface makes the whole transmission disappear',
 'edits': [('transmission_interface/src/transmission_parser.cpp',
            '      ROS_ERROR_STREAM_NAMED("parser","No valid hardware interface element found in joint \'"\n        << joint.name_ << "\'.");\n      continue;',
            '      ROS_ERROR_STREAM_NAMED("parser","No valid hardware interface element found in joint \'"\n'
            '        << joint.name_ << "\'.");\n'
            '      return false;')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <transmission_interface/transmission_parser.h>\n'
         'using namespace transmission_interface;\n'
         'static TiXmlElement* trans(TiXmlElement* r, const std::string& n) { TiXmlElement* t = r->add("transmission"); t->setAttr("name", n); '
         't->add("type")->setText("T")->setState(2); return t; }\n'
         'static TiXmlElement* joint(TiXmlElement* t, const std::string& n, const char* role, const char* hw) { TiXmlElement* j = t->add("joint"); '
         'j->setAttr("name", n); if (role) j->add("role")->setText(role)->setState(2); if (hw) j->add("hardwareInterface")->setText(hw)->setState(2); return '
         'j; }\n'
         'static void act(TiXmlElement* t, const std::string& n) { t->add("actuator")->setAttr("name", n); }\n'
         'int main() {\n'
         '  TiXmlElement* r = new TiXmlElement("robot"), *t = trans(r, "t"); joint(t, "a", "joint1", "H"); joint(t, "b", "joint2", nullptr); act(t, "m"); '
         'xml_stub::add("u", r); TransmissionParser p; std::vector<TransmissionInfo> v; REQUIRE(p.parse("u", v) && v.size() == 1 && v[0].joints_.size() == '
         '1);\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['transmission_interface/src/transmission_parser.cpp'],
 'msgs': False}
