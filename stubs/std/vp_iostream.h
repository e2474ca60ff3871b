// Minimal string-backed replacements of the iostream classes (used for IR and native builds alike), so that
// formatting is ordinary code the executor can run on symbolic strings.  Members are always_inline: no symbols.
#pragma once
#include <iosfwd>
#include <string>
#include <cstddef>
#include <cstdlib>
#define VP_AI __attribute__((always_inline)) inline
namespace std {
template <> class basic_ostream<char, char_traits<char>> {
public:
  typedef char char_type; typedef char_traits<char> traits_type;
  std::string* vp_buf;
  VP_AI explicit basic_ostream(std::string* b = nullptr) : vp_buf(b) {}
  VP_AI void vp_app(const std::string& s) { if (vp_buf) vp_buf->append(s); }
  VP_AI void vp_app(const char* s) { if (vp_buf && s) vp_buf->append(s); }
  VP_AI void vp_num(const char* k) { if (vp_buf) vp_buf->append(k); }
  VP_AI basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  VP_AI basic_ostream& operator<<(int) { vp_num("#"); return *this; }
  VP_AI basic_ostream& operator<<(unsigned) { vp_num("#"); return *this; }
  VP_AI basic_ostream& operator<<(long) { vp_num("#"); return *this; }
  VP_AI basic_ostream& operator<<(unsigned long) { vp_num("#"); return *this; }
  VP_AI basic_ostream& operator<<(long long) { vp_num("#"); return *this; }
  VP_AI basic_ostream& operator<<(bool) { vp_num("#"); return *this; }
  VP_AI basic_ostream& operator<<(double) { vp_num("#.#"); return *this; }
  VP_AI basic_ostream& operator<<(float) { vp_num("#.#"); return *this; }
  VP_AI basic_ostream& operator<<(const void*) { vp_num("0x#"); return *this; }
  VP_AI basic_ostream& flush() { return *this; }
  VP_AI basic_ostream& write(const char* s, long n) { if (vp_buf) vp_buf->append(s, n); return *this; }
  VP_AI basic_ostream& put(char c) { if (vp_buf) vp_buf->push_back(c); return *this; }
  VP_AI explicit operator bool() const { return true; }
  VP_AI int precision(int) { return 6; }
};
VP_AI basic_ostream<char>& operator<<(basic_ostream<char>& o, const std::string& s) { o.vp_app(s); return o; }
VP_AI basic_ostream<char>& operator<<(basic_ostream<char>& o, const char* s) { o.vp_app(s); return o; }
VP_AI basic_ostream<char>& operator<<(basic_ostream<char>& o, char c) { o.put(c); return o; }
template <class T> VP_AI basic_ostream<char>& operator<<(basic_ostream<char>&& o, const T& v) { o << v; return o; }
VP_AI basic_ostream<char>& vp_endl(basic_ostream<char>& o) { o.put('\n'); return o; }
template <class C, class Tr> VP_AI basic_ostream<C, Tr>& endl(basic_ostream<C, Tr>& o) { o.put('\n'); return o; }
template <class C, class Tr> VP_AI basic_ostream<C, Tr>& flush(basic_ostream<C, Tr>& o) { return o; }
template <> class basic_istream<char, char_traits<char>> {
public:
  std::string vp_in; size_t vp_pos; bool vp_ok;
  VP_AI explicit basic_istream(const std::string& s = std::string()) : vp_in(s), vp_pos(0), vp_ok(true) {}
  VP_AI explicit operator bool() const { return vp_ok; }
  VP_AI bool operator!() const { return !vp_ok; }
  VP_AI bool fail() const { return !vp_ok; }
  VP_AI bool good() const { return vp_ok; }
  VP_AI bool eof() const { return vp_pos >= vp_in.size(); }
  VP_AI void vp_skip() { while (vp_pos < vp_in.size() && (vp_in[vp_pos] == ' ' || vp_in[vp_pos] == '\n' || vp_in[vp_pos] == '\t')) ++vp_pos; }
  VP_AI basic_istream& operator>>(double& d) { vp_skip(); const char* b = vp_in.c_str() + vp_pos; char* e; double v = strtod(b, &e); if (e == b) { vp_ok = false; d = 0; } else { d = v; vp_pos += e - b; } return *this; }
  VP_AI basic_istream& operator>>(int& d) { vp_skip(); const char* b = vp_in.c_str() + vp_pos; char* e; long v = strtol(b, &e, 10); if (e == b) { vp_ok = false; d = 0; } else { d = (int)v; vp_pos += e - b; } return *this; }
};
VP_AI basic_istream<char>& operator>>(basic_istream<char>& i, std::string& s) { i.vp_skip(); s.clear(); while (i.vp_pos < i.vp_in.size() && i.vp_in[i.vp_pos] != ' ' && i.vp_in[i.vp_pos] != '\n') s.push_back(i.vp_in[i.vp_pos++]); if (s.empty()) i.vp_ok = false; return i; }
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char> {
  std::string vp_s;
public:
  VP_AI basic_ostringstream() { vp_buf = &vp_s; }
  VP_AI explicit basic_ostringstream(const std::string& s) : vp_s(s) { vp_buf = &vp_s; }
  VP_AI std::string str() const { return vp_s; }
  VP_AI void str(const std::string& s) { vp_s = s; }
  basic_ostringstream(const basic_ostringstream&) = delete;
};
template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public basic_istream<char> {
public:
  VP_AI explicit basic_istringstream(const std::string& s = std::string()) : basic_istream<char>(s) {}
};
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_istream<char>, public basic_ostream<char> {
public:
  VP_AI basic_stringstream() { vp_buf = &vp_in; }
  VP_AI explicit basic_stringstream(const std::string& s) : basic_istream<char>(s) { vp_buf = &vp_in; }
  VP_AI std::string str() const { return vp_in; }
  VP_AI void str(const std::string& s) { vp_in = s; vp_pos = 0; }
  VP_AI explicit operator bool() const { return vp_ok; }
  VP_AI bool operator!() const { return !vp_ok; }
  basic_stringstream(const basic_stringstream&) = delete;
};
static ostream cout, cerr, clog;
}
#include <iterator>
