// IR-only runtime: out-of-line pieces of libstdc++ needed by the executed code, written from the documented ABI.
// (In native replays the real libstdc++ is linked instead.)
#include <string>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <exception>
#include <functional>
#include <memory>
#include <system_error>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <bits/stl_tree.h>
#include <list>
#include <unordered_map>

template class std::basic_string<char>;
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

// reference-free copy-string used by the standard exceptions
__cow_string::__cow_string() { char* p = (char*)malloc(1); p[0] = 0; _M_p = p; }
static const char* dup_(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string(const std::string& s) { _M_p = dup_(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = dup_(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dup_(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dup_(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = dup_("", 0); }

logic_error::logic_error(const std::string& s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char* s) : exception(), _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const std::string& s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char* s) : exception(), _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define DEF(C, B) C::C(const std::string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
DEF(invalid_argument, logic_error) DEF(domain_error, logic_error) DEF(length_error, logic_error) DEF(out_of_range, logic_error)
DEF(range_error, runtime_error) DEF(overflow_error, runtime_error) DEF(underflow_error, runtime_error)

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

// red-black trees (unbalanced binary search trees keep the same observable order)
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  // plain BST deletion
  _Rb_tree_node_base* next = 0; (void)next;
  _Rb_tree_node_base* lm = h._M_left; _Rb_tree_node_base* rm = h._M_right;
  if (lm == z) h._M_left = (z->_M_right ? _Rb_tree_increment(z) : z->_M_parent);
  if (rm == z) { if (z->_M_left) { _Rb_tree_node_base* y = z->_M_left; while (y->_M_right) y = y->_M_right; h._M_right = y; } else h._M_right = z->_M_parent; }
  _Rb_tree_node_base* r;
  if (!z->_M_left) r = z->_M_right;
  else if (!z->_M_right) r = z->_M_left;
  else {
    r = z->_M_right; while (r->_M_left) r = r->_M_left;
    if (r != z->_M_right) { r->_M_parent->_M_left = r->_M_right; if (r->_M_right) r->_M_right->_M_parent = r->_M_parent; r->_M_right = z->_M_right; z->_M_right->_M_parent = r; }
    r->_M_left = z->_M_left; z->_M_left->_M_parent = r;
  }
  if (r) r->_M_parent = z->_M_parent;
  if (z->_M_parent == &h && h._M_parent == z) h._M_parent = r;
  else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r;
  else z->_M_parent->_M_right = r;
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  _List_node_base* xs[2] = {x._M_next, x._M_prev}; bool xe = x._M_next == &x, ye = y._M_next == &y;
  if (ye) { x._M_next = x._M_prev = &x; } else { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
  if (xe) { y._M_next = y._M_prev = &y; } else { y._M_next = xs[0]; y._M_prev = xs[1]; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}
void _List_node_base::_M_transfer(_List_node_base* first, _List_node_base* last) noexcept {
  if (this == last) return;
  last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
  _List_node_base* t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { static const std::size_t p[] = {1, 2, 3, 5, 7, 11, 13, 17, 23, 29, 37, 53, 97, 193, 389, 769}; for (auto x : p) if (x >= n) { _M_next_resize = x; return x; } _M_next_resize = n; return n; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t b, std::size_t e, std::size_t i) const { if (e + i > b || b == 1) { std::size_t n = _M_next_bkt((e + i) * 2 + 11); return {true, n}; } return {false, 0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* s = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 131 + s[i]; return h; }
}
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
