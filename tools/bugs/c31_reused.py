BUG = {'id': 'c31-joint-reused',
 'property': 'C31',
 'needs': 'a transmission whose second joint has no role although its first has one',
 'breaks': 'a joint without role is given the role of the joint before it',
 'edits': [('transmission_interface/src/transmission_parser.cpp',
            '  TiXmlElement *joint_it = nullptr;\n',
            '  TiXmlElement *joint_it = nullptr;\n  transmission_interface::JointInfo joint;\n'),
           ('transmission_interface/src/transmission_parser.cpp',
            '    transmission_interface::JointInfo joint;\n\n',
            '    joint.hardware_interfaces_.clear();\n\n')],
 'demo': '#include <cstdio>\n'
         '#include <cmath>\n'
         '#include <cstdlib>\n'
         '#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)\n'
         '#include <transmission_interface/transmission_parser.h>\n'
         'using namespace transmission_interface;\n'
         'static TiXmlElement* trans(TiXmlElement* r, const std::string& n) { TiXmlElement* t = r->add("transmission"); t->setAttr("name", n); '
         't->add("type")->setText("T")->setState(2); return t; }\n'
         'static TiXmlElement* joint(TiXmlElement* t, const std::string& n, const char* role, const char* hw) { TiXmlElement* j = t->add("joint"); '
         'j->setAttr("name", n); if (role) j->add("role")->setText(role)->setState(2); if (hw) j->add("hardwareInterface")->setText(hw)->setState(2); return '
         'j; }\n'
         'static void act(TiXmlElement* t, const std::string& n) { t->add("actuator")->setAttr("name", n); }\n'
         'int main() {\n'
         '  TiXmlElement* r = new TiXmlElement("robot"), *t = trans(r, "t"); joint(t, "a", "joint1", "H"); joint(t, "b", nullptr, "H"); act(t, "m"); '
         'xml_stub::add("u", r); TransmissionParser p; std::vector<TransmissionInfo> v; REQUIRE(p.parse("u", v) && v.size() == 1 && v[0].joints_.size() == 2); '
         'REQUIRE(v[0].joints_[0].role_ == "joint1" && v[0].joints_[1].role_ == "" && v[0].joints_[1].hardware_interfaces_.size() == 1);\n'
         '  return 0;\n'
         '}\n',
 'srcs': ['transmission_interface/src/transmission_parser.cpp'],
 'msgs': False}
