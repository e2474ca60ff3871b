// Stand-in for tinyxml: an element tree the harness builds directly.  Documents are registered under a text key.
#pragma once
#include <string>
#include <vector>
#include <cstdlib>
#include <sstream>
class TiXmlElement;
namespace xml_stub {
struct Doc { std::string key; TiXmlElement* root; bool error; };
inline std::vector<Doc>& docs() { static std::vector<Doc> d; return d; }
inline std::vector<TiXmlElement*>& elements() { static std::vector<TiXmlElement*> v; return v; } // printed elements, found again by their id
inline void add(const std::string& key, TiXmlElement* root, bool error = false) { Doc d; d.key = key; d.root = root; d.error = error; docs().push_back(d); }
}
class TiXmlNode {};
class TiXmlElement : public TiXmlNode {
public:
  struct Attr { std::string name, value; int st; }; // st: 0 absent, 1 empty, 2 as given (may be symbolic)
  std::string name; std::vector<Attr> attrs; bool hasText; std::string text; std::vector<TiXmlElement*> kids; TiXmlElement* next; std::string id; int st; // st: 0 absent, 1 without text, 2 as given (may be symbolic)
  TiXmlElement(const char* n) : name(n), hasText(false), next(nullptr), st(2) {}
  explicit TiXmlElement(const std::string& n) : name(n), hasText(false), next(nullptr), st(2) {}
  // building
  TiXmlElement* add(const std::string& n) { TiXmlElement* e = new TiXmlElement(n); if (!kids.empty()) kids.back()->next = e; kids.push_back(e); return e; }
  TiXmlElement* setText(const std::string& t) { hasText = true; text = t; return this; }
  TiXmlElement* setState(int s) { st = s; return this; }
  TiXmlElement* setAttr(const std::string& n, const std::string& v, int s = 2) { Attr a; a.name = n; a.value = v; a.st = s; attrs.push_back(a); return this; }
  // tinyxml API
  const TiXmlElement* FirstChildElement() const { return find(nullptr); }
  TiXmlElement* FirstChildElement() { return find(nullptr); }
  TiXmlElement* find(const char* n) const { for (size_t i = 0; i < kids.size(); i++) if ((!n || kids[i]->name == n) && kids[i]->st) return kids[i]; return nullptr; }
  const TiXmlElement* FirstChildElement(const char* n) const { return find(n); }
  TiXmlElement* FirstChildElement(const char* n) { return find(n); }
  const TiXmlElement* FirstChildElement(const std::string& n) const { return find(n.c_str()); }
  TiXmlElement* FirstChildElement(const std::string& n) { return find(n.c_str()); }
  TiXmlElement* sib(const char* n) const { TiXmlElement* e = next; while (e && !((!n || e->name == n) && e->st)) e = e->next; return e; }
  const TiXmlElement* NextSiblingElement(const char* n) const { return sib(n); }
  TiXmlElement* NextSiblingElement(const char* n) { return sib(n); }
  const TiXmlElement* NextSiblingElement(const std::string& n) const { return sib(n.c_str()); }
  TiXmlElement* NextSiblingElement(const std::string& n) { return sib(n.c_str()); }
  TiXmlElement* NextSiblingElement() { return sib(nullptr); }
  const TiXmlElement* NextSiblingElement() const { return sib(nullptr); }
  const char* Attribute(const char* n) const { for (size_t i = 0; i < attrs.size(); i++) if (attrs[i].name == n) { if (attrs[i].st == 0) return nullptr; return attrs[i].st == 1 ? "" : attrs[i].value.c_str(); } return nullptr; }
  const std::string* Attribute(const std::string& n) const { for (size_t i = 0; i < attrs.size(); i++) if (attrs[i].name == n) { if (attrs[i].st == 0) return nullptr; if (attrs[i].st == 1) { static std::string e; return &e; } return &attrs[i].value; } return nullptr; }
  const char* GetText() const { return hasText && st == 2 ? text.c_str() : nullptr; }
  const char* Value() const { return name.c_str(); }
  const std::string& ValueStr() const { return name; }
};
inline std::ostream& operator<<(std::ostream& o, const TiXmlElement& e) {
  TiXmlElement& m = const_cast<TiXmlElement&>(e);
  if (m.id.empty()) { m.id = "<" + m.name + "|" + std::string(1, (char)('A' + xml_stub::elements().size())) + ">"; xml_stub::elements().push_back(new TiXmlElement(m)); }
  o << m.id; return o;
}
inline std::istream& operator>>(std::istream& i, TiXmlElement& e) {
  std::string t; i >> t;
  for (size_t k = 0; k < xml_stub::elements().size(); k++) if (xml_stub::elements()[k]->id == t) { e = *xml_stub::elements()[k]; e.next = nullptr; return i; }
  return i;
}
class TiXmlDocument : public TiXmlNode {
  bool err_; TiXmlElement* root_;
public:
  TiXmlDocument() : err_(false), root_(nullptr) {}
  // tinyxml returns null both for a parse error and for a document without content
  const char* Parse(const char* s, void* = nullptr, int = 0) {
    std::string k(s); std::vector<xml_stub::Doc>& ds = xml_stub::docs();
    for (size_t i = 0; i < ds.size(); i++) if (ds[i].key == k) { err_ = ds[i].error; root_ = ds[i].root; return (err_ || !root_) ? nullptr : s + k.size(); }
    err_ = true; root_ = nullptr; return nullptr;
  }
  bool Error() const { return err_; }
  const char* ErrorDesc() const { return "error"; }
  TiXmlElement* RootElement() { return root_; }
  const TiXmlElement* RootElement() const { return root_; }
  TiXmlElement* FirstChildElement(const char* n) { return root_ && root_->name == n ? root_ : nullptr; }
  TiXmlElement* FirstChildElement() { return root_; }
};
