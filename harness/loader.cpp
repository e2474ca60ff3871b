// C29: transmission loaders.
#include "vp.h"
#include <cstring>
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
#include <transmission_interface/simple_transmission_loader.h>
#include <transmission_interface/differential_transmission_loader.h>
#include <transmission_interface/four_bar_linkage_transmission_loader.h>
#if KIND == 2 // one translation unit: the header defines two member functions that are not inline
#include "../src/four_bar_linkage_transmission_loader.cpp"
#endif
using namespace transmission_interface;
// a numeric element: absent, present without text, or present with a one-character text (all symbolic)
struct Num { int state; char c; int t; bool present() const { return state != 0; } bool valid() const; double value() const; };
// one element at a time with one of these texts
static const struct { const char* text; bool ok; double value; } TEXTS[] = {{"-2.5", true, -2.5}, {"0.1", true, 0.1}, {"1e3", true, 1000}, {"+4", true, 4}, {"-7.5e-1", true, -0.75}, {"150", true, 150}, {".5", true, 0.5}, {"0.0", true, 0}, {"-0", true, 0}, {"0e2", true, 0}, {"x1", false, 0}, {"-", false, 0}, {".", false, 0}, {"--1", false, 0}, {"e5", false, 0}, {"abc", false, 0}};
enum { NT = sizeof TEXTS / sizeof *TEXTS }; static int textAt = -1, numAt, textNo; // the element with a longer text, elements so far
bool Num::valid() const { return t >= 0 ? TEXTS[t].ok : state == 2 && c >= '0' && c <= '9'; } double Num::value() const { return t >= 0 ? TEXTS[t].value : c - '0'; }
static Num num(const char* what, bool vary, char fixed = '2') { Num n; n.t = numAt++ == textAt ? textNo : -1; if (n.t >= 0) vary = false; n.state = vary ? (int)vp_int(what, 0, 2) : 2; n.c = vary ? (char)vp_int("char", '0', ':') : fixed; return n; } // '0'..'9' or ':' (not numeric)
static void put(TiXmlElement* e, const char* tag, const Num& n) { e->add(tag)->setText(n.t >= 0 ? std::string(TEXTS[n.t].text) : std::string(1, n.c))->setState(n.state); }
static std::string xml(TiXmlElement* e) { std::stringstream ss; ss << *e; return ss.str(); }
template <class L> static TransmissionSharedPtr load(const TransmissionInfo& info) {
  L loader; TransmissionSharedPtr t; bool threw = false;
  try { t = loader.load(info); } catch (...) { threw = true; }
  VP_CHECK(!threw, "a transmission loader threw an exception"); return t;
}
extern "C" void vp_main() {
  TransmissionInfo info; info.name_ = "t"; info.type_ = "type";
#if KIND == 0
  int na, nj; bool texts = vp_bool("texts"); if (texts) { na = nj = 1; textAt = vp_pick("element", 2); textNo = vp_pick("text", NT); } else { na = (int)vp_choice("actuators", 3); nj = (int)vp_choice("joints", 3); } Num ar[2], jo[2];
  for (int i = 0; i < na; ++i) { ActuatorInfo a; a.name_ = "a"; TiXmlElement* e = new TiXmlElement("actuator"); e->setAttr("name", "a"); ar[i] = num("actuator_reduction", !texts); put(e, "mechanicalReduction", ar[i]); a.xml_element_ = xml(e); info.actuators_.push_back(a); }
  for (int i = 0; i < nj; ++i) { JointInfo j; j.name_ = "j"; TiXmlElement* e = new TiXmlElement("joint"); e->setAttr("name", "j"); jo[i] = num("joint_offset", !texts); put(e, "offset", jo[i]); j.xml_element_ = xml(e); info.joints_.push_back(j); }
  bool good = na == 1 && nj == 1; if (good) good = ar[0].valid() && ar[0].value() != 0 && (!jo[0].present() || jo[0].valid());
  TransmissionSharedPtr t = load<SimpleTransmissionLoader>(info);
  VP_CHECK((t != nullptr) == good, "a loader must return a transmission exactly for a correct description");
  if (t) {
    SimpleTransmission* s = dynamic_cast<SimpleTransmission*>(t.get()); VP_CHECK(s != nullptr, "the loaded transmission has the wrong type"); if (!s) vp_end();
    VP_CHECK(s->getActuatorReduction() == ar[0].value(), "the actuator reduction is not the described one"); VP_CHECK(s->getJointOffset() == (jo[0].present() ? jo[0].value() : 0.0), "the joint offset is not the described one"); vp_reach("loaded");
  } else vp_reach("refused");
#else
  static const char* AR[] = {"actuator1", "actuator2", "joint1", "", 0}; static const char* JR[] = {"joint1", "joint2", "actuator2", "", 0};
  int what = (int)vp_choice("what", 4); // 0: dimensions, 1: roles vary, 2: numbers vary, 3: longer texts
  if (what == 3) { textAt = vp_pick("element", 6); textNo = vp_pick("text", NT); }
  int na = 2, nj = 2; if (what == 0) { na = (int)vp_choice("actuators", 4); nj = (int)vp_choice("joints", 4); }
  int ra[3], rj[3]; Num ar[3], jr[3], jo[3]; bool ign[3] = {false, false, false};
  int perm = what == 1 ? 0 : (int)vp_choice("order", 4);
  for (int i = 0; i < na; ++i) {
    ra[i] = what == 1 ? (int)vp_choice("actuator_role", 6) : (i ^ (perm & 1)) & 1; // 5: no role element
    ActuatorInfo a; a.name_ = std::string(1, (char)('a' + i)); TiXmlElement* e = new TiXmlElement("actuator"); e->setAttr("name", a.name_);
    if (ra[i] < 5) { TiXmlElement* r = e->add("role"); if (AR[ra[i]]) r->setText(AR[ra[i]]); }
    ar[i] = num("actuator_reduction", what == 2, (char)('2' + i)); put(e, "mechanicalReduction", ar[i]); a.xml_element_ = xml(e); info.actuators_.push_back(a);
  }
  for (int i = 0; i < nj; ++i) {
    rj[i] = what == 1 ? (int)vp_choice("joint_role", 6) : (i ^ (perm >> 1)) & 1;
    JointInfo j; j.name_ = std::string(1, (char)('j' + i)); TiXmlElement* e = new TiXmlElement("joint"); e->setAttr("name", j.name_);
    if (rj[i] < 5) { TiXmlElement* r = e->add("role"); if (JR[rj[i]]) r->setText(JR[rj[i]]); j.role_ = JR[rj[i]] ? JR[rj[i]] : ""; }
    jr[i] = num("joint_reduction", what == 2, (char)('5' + i)); put(e, "mechanicalReduction", jr[i]); jo[i] = num("joint_offset", what == 2, (char)('7' + i)); put(e, "offset", jo[i]);
    if (KIND == 1 && what == 0) { ign[i] = vp_choice("ignore", 2); if (ign[i]) e->add("ignoreTransmissionAbsoluteEncoder"); }
    j.xml_element_ = xml(e); info.joints_.push_back(j);
  }
  bool good = na == 2 && nj == 2;
  if (good) good = ra[0] < 2 && ra[1] < 2 && ra[0] != ra[1] && rj[0] < 2 && rj[1] < 2 && rj[0] != rj[1];
  for (int i = 0; i < 2 && good; ++i) good = ar[i].valid() && ar[i].value() != 0 && (!jr[i].present() || (jr[i].valid() && jr[i].value() != 0)) && (!jo[i].present() || jo[i].valid());
#if KIND == 1
  typedef DifferentialTransmission T; TransmissionSharedPtr t = load<DifferentialTransmissionLoader>(info);
#else
  typedef FourBarLinkageTransmission T; TransmissionSharedPtr t = load<FourBarLinkageTransmissionLoader>(info);
#endif
  VP_CHECK((t != nullptr) == good, "a loader must return a transmission exactly for a correct description");
  if (t) {
    T* d = dynamic_cast<T*>(t.get()); VP_CHECK(d != nullptr, "the loaded transmission has the wrong type"); if (!d) vp_end();
    for (int i = 0; i < 2; ++i) {
      VP_CHECK(d->getActuatorReduction()[ra[i]] == ar[i].value(), "an actuator reduction is not the described one"); VP_CHECK(d->getJointReduction()[rj[i]] == (jr[i].present() ? jr[i].value() : 1.0), "a joint reduction is not the described one"); VP_CHECK(d->getJointOffset()[rj[i]] == (jo[i].present() ? jo[i].value() : 0.0), "a joint offset is not the described one");
    }
#if KIND == 1
    // observe whether the transmission is ignored for absolute encoders
    double a[2] = {vp_double("enc"), vp_double("enc")}, j[2] = {0, 0}; ActuatorData A; JointData J; for (int i = 0; i < 2; ++i) { A.absolute_position.push_back(&a[i]); J.absolute_position.push_back(&j[i]); }
    if (ign[0] && ign[1]) { VP_ASSUME(a[0] == a[0] && a[1] == a[1]); d->actuatorToJointAbsolutePosition(A, J); VP_CHECK(j[0] == a[1] && j[1] == a[0], "the transmission must be ignored for absolute encoders"); vp_reach("ignored"); }
    else if (what == 0) { VP_ASSUME(a[0] == 0 && a[1] == 0); d->actuatorToJointAbsolutePosition(A, J); VP_CHECK(j[0] == d->getJointOffset()[0] && j[1] == d->getJointOffset()[1], "the transmission must not be ignored for absolute encoders"); }
#endif
    vp_reach("loaded"); if (what == 2) vp_reach("optional values");
  } else vp_reach("refused");
#endif
}
