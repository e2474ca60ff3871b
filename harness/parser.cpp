// C31: transmission parser.
#include "vp.h"
#include <transmission_interface/transmission_parser.h>
using namespace transmission_interface;
typedef std::vector<std::string> SV;
// what a document contains; element and attribute states are symbolic (0 absent, 1 empty, 2 present) and only looked at by the parser and, afterwards, by the oracle
struct EHw { std::string text; int st; };
struct EJoint { std::string name, role; int nst, rst; std::vector<EHw> hw; };
struct ETrans { std::string name, type; int nst, tst; std::vector<EJoint> joints, acts; };
static std::string sym(const char* what) { return std::string(1, (char)vp_int(what, 'a', 'h')); }
static ETrans build(TiXmlElement* root, int focus) { // focus 0: head and counts, 1: joints, 2: actuators, 3: a plain second transmission
  TiXmlElement* t = root->add("transmission"); ETrans e; e.name = sym("transmission"); e.type = sym("type"); e.nst = focus == 0 || focus == 3 ? (int)vp_int("name_state", 0, 2) : 2; e.tst = focus == 0 ? (int)vp_int("type_state", 0, 2) : 2;
  t->setAttr("name", e.name, e.nst); t->add("type")->setText(e.type)->setState(e.tst);
  int n[2] = {1, 1}; if (focus == 0) { n[0] = (int)vp_choice("joints", 2); n[1] = (int)vp_choice("actuators", 2); } if (focus == 1) n[0] = (int)vp_choice("joints", 3); if (focus == 2) n[1] = (int)vp_choice("actuators", 3);
  bool first = focus == 0 && vp_choice("actuators_first", 2);
  for (int pass = 0; pass < 2; ++pass) { int k = first ? 1 - pass : pass; bool vary = focus == k + 1;
    for (int i = 0; i < n[k]; ++i) {
      TiXmlElement* x = t->add(k ? "actuator" : "joint"); EJoint j; j.name = sym(k ? "actuator" : "joint"); j.nst = vary ? (int)vp_int("name_state", 0, 2) : 2; x->setAttr("name", j.name, j.nst);
      j.rst = 0; if (k == 0) { j.role = sym("role"); j.rst = vary ? (int)vp_int("role_state", 0, 2) : 2; x->add("role")->setText(j.role)->setState(j.rst); }
      int nh = vary ? 2 : k ? 0 : 1; for (int h = 0; h < nh; ++h) { EHw w; w.text = sym("hardware_interface"); w.st = vary ? (int)vp_int("hardware_interface_state", 0, 2) : 2; x->add("hardwareInterface")->setText(w.text)->setState(w.st); j.hw.push_back(w); }
      (k ? e.acts : e.joints).push_back(j);
    } }
  return e;
}
static SV hwOf(const EJoint& j) { SV r; for (size_t i = 0; i < j.hw.size(); ++i) if (j.hw[i].st == 2) r.push_back(j.hw[i].text); return r; }
// the documented rules; false when the transmission is not kept
static bool filter(ETrans& e) {
  if (e.nst != 2 || e.tst != 2) return false; std::vector<EJoint> js, as;
  for (size_t i = 0; i < e.joints.size(); ++i) { EJoint& j = e.joints[i]; if (j.nst == 0) return false; if (j.nst == 2 && !hwOf(j).empty()) { if (j.rst != 2) j.role = ""; js.push_back(j); } }
  if (js.empty()) return false;
  for (size_t i = 0; i < e.acts.size(); ++i) { EJoint& a = e.acts[i]; if (a.nst == 0) return false; if (a.nst == 2) as.push_back(a); }
  e.joints = js; e.acts = as; return !as.empty();
}
extern "C" void vp_main() {
  std::vector<ETrans> all, exp; int doc = (int)vp_choice("document", 4); // malformed, without element, ordinary, two transmissions
  TiXmlElement* root = nullptr; bool error = doc == 0;
  if (doc >= 2) { root = new TiXmlElement("robot"); int n = doc == 2 ? 1 : 2; int focus = (int)vp_choice("focus", 3); if (focus == 0 && vp_choice("other_elements", 2)) { root->add("joint")->setAttr("name", "x"); root->add("link"); }
    for (int i = 0; i < n; ++i) { all.push_back(build(root, i == 0 ? focus : 3)); if (n == 2 && i == 0) root->add("joint")->setAttr("name", "y"); } }
  xml_stub::add("urdf", root, error);
  TransmissionParser p; std::vector<TransmissionInfo> out; bool r = false, threw = false;
  try { r = p.parse("urdf", out); } catch (...) { threw = true; }
  VP_CHECK(!threw, "the parser threw an exception");
  if (doc == 0) { VP_CHECK(!r && out.empty(), "a malformed document must be refused"); vp_reach("malformed"); return; }
  if (doc == 1) { VP_CHECK(!r && out.empty(), "a document without a root element must be refused"); vp_reach("empty"); return; }
  for (size_t i = 0; i < all.size(); ++i) if (filter(all[i])) exp.push_back(all[i]);
  VP_CHECK(r, "a well-formed document must be accepted"); VP_CHECK(out.size() == exp.size(), "the parser must keep exactly the well-formed transmissions");
  if (out.size() != exp.size()) vp_end();
  for (size_t i = 0; i < exp.size(); ++i) {
    VP_CHECK(out[i].name_ == exp[i].name && out[i].type_ == exp[i].type, "wrong name or type of a parsed transmission");
    VP_CHECK(out[i].joints_.size() == exp[i].joints.size() && out[i].actuators_.size() == exp[i].acts.size(), "a joint or actuator is missing or superfluous"); if (out[i].joints_.size() != exp[i].joints.size() || out[i].actuators_.size() != exp[i].acts.size()) vp_end();
    for (size_t k = 0; k < exp[i].joints.size(); ++k) { const JointInfo& j = out[i].joints_[k]; const EJoint& x = exp[i].joints[k]; VP_CHECK(j.name_ == x.name, "wrong joint name"); VP_CHECK(j.role_ == x.role, "wrong joint role"); VP_CHECK(j.hardware_interfaces_ == hwOf(x), "wrong hardware interfaces of a joint"); 
      TiXmlElement el(""); std::stringstream ss; ss << j.xml_element_; ss >> el; VP_CHECK(el.name == "joint" && el.Attribute("name") && x.name == el.Attribute("name"), "the kept XML is not that of the joint"); }
    for (size_t k = 0; k < exp[i].acts.size(); ++k) { const ActuatorInfo& a = out[i].actuators_[k]; const EJoint& x = exp[i].acts[k]; VP_CHECK(a.name_ == x.name, "wrong actuator name"); VP_CHECK(a.hardware_interfaces_ == hwOf(x), "wrong hardware interfaces of an actuator");
      TiXmlElement el(""); std::stringstream ss; ss << a.xml_element_; ss >> el; VP_CHECK(el.name == "actuator" && el.Attribute("name") && x.name == el.Attribute("name"), "the kept XML is not that of the actuator"); }
  }
  vp_reach(exp.empty() ? "none kept" : exp.size() == 2 ? "two kept" : "one kept");
}
