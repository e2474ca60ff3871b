BUG = {'id': 'c31-bad-ends-parsing',
 'property': 'C31',
 'needs': 'a transmission without type followed by a well-formed one',
 'breaks': 'a transmission without a type element ends the parsing',
 'edits': [('transmission_interface/src/transmission_parser.cpp',
            '      ROS_ERROR_STREAM_NAMED("parser","No type element found in transmission \'"\n        << transmission.name_ << "\'.");\n      continue;',
            '      ROS_ERROR_STREAM_NAMED("parser","No type element found in transmission \'"\n        << transmission.name_ << "\'.");\n      break;')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <transmission_interface/transmission_parser.h>\n'
         'using namespace transmission_interface;\n'
         'static TiXmlElement* trans(TiXmlElement* r, const std::string& n) { TiXmlElement* t = r->add("transmission"); t->setAttr("name", n); '
         't->add("type")->setText("T")->setState(2); return t; }\n'
         'static TiXmlElement* joint(TiXmlElement* t, const std::string& n, const char* role, const char* hw) { TiXmlElement* j = t->add("joint"); '
         'j->setAttr("name", n); if (role) j->add("role")->setText(role)->setState(2); if (hw) j->add("hardwareInterface")->setText(hw)->setState(2); return '
         'j; }\n'
         'static void act(TiXmlElement* t, const std::string& n) { t->add("actuator")->setAttr("name", n); }\n'
         'int main() {\n'
         '  TiXmlElement* r = new TiXmlElement("robot"); r->add("transmission")->setAttr("name", "s"); TiXmlElement* t = trans(r, "t"); joint(t, "a", '
         '"joint1", "H"); act(t, "m"); xml_stub::add("u", r); TransmissionParser p; std::vector<TransmissionInfo> v; REQUIRE(p.parse("u", v) && v.size() == '
         '1);\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['transmission_interface/src/transmission_parser.cpp'],
 'msgs': False}
