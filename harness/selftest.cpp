// Engine self-test: standard library behaviour the harnesses rely on.
#include "vp.h"
#include <vector>
#include <map>
#include <set>
#include <list>
#include <memory>
#include <algorithm>
#include <stdexcept>
#include <functional>
#include <unordered_map>
#include <sstream>
#include <mutex>
#include <cmath>
struct B { virtual ~B() {} virtual int f() = 0; };
struct X : B { int a; explicit X(int v) : a(v) {} int f() override { return a; } };
struct Y : virtual B { int f() override { return 7; } };
struct Z : Y { };
static int cnt = 0;
struct G { ~G() { ++cnt; } };
static int thrower(int k) { G g; if (k == 1) throw std::runtime_error("one"); if (k == 2) throw std::out_of_range("two"); if (k == 3) throw 5; return k; }
static void coBody(void* p) { int* q = (int*)p; for (int i = 0; i < 3; ++i) { *q += 1; vp_co_yield(); } }
extern "C" void vp_main() {
  int x = (int)vp_int("x", 0, 5);
  std::string s(1, (char)vp_int("c", 'a', 'c'));
  std::map<std::string, int> m; m["a"] = 1; m["b"] = 2;
  auto it = m.find(s); 
  if (s == "c") VP_CHECK(it == m.end(), "map find end"); else VP_CHECK(it != m.end() && it->second == (s == "a" ? 1 : 2), "map find");
  m[s] = x; VP_CHECK(m.at(s) == x, "map set");
  std::vector<std::string> v = {"hello", s, "world"}; std::sort(v.begin(), v.end()); VP_CHECK(v[0] == s || s > "hello", "sort");
  std::set<std::string> st(v.begin(), v.end()); VP_CHECK(st.size() == 3, "set"); 
  std::list<std::string> l(v.begin(), v.end()); l.remove("world"); VP_CHECK(l.size() == 2, "list");
  std::unordered_map<std::string, int> um; um[s] = 3; um["zz"] = 4; VP_CHECK(um[s] == 3 && um.size() == 2, "umap");
  int got = -1;
  try { got = thrower(x); } catch (const std::runtime_error& e) { got = 100; VP_CHECK(std::string(e.what()) == "one", "what"); } catch (const std::logic_error& e) { got = 200; VP_CHECK(std::string(e.what()) == "two", "what2"); } catch (...) { got = 300; }
  VP_CHECK(cnt == 1, "dtor"); VP_CHECK(got == (x == 1 ? 100 : x == 2 ? 200 : x == 3 ? 300 : x), "exc");
  try { try { throw std::runtime_error("in"); } catch (std::exception& e) { throw; } } catch (std::runtime_error& e) { VP_CHECK(std::string(e.what()) == "in", "rethrow"); }
  try { try { throw std::runtime_error("in"); } catch (std::exception& e) { throw std::logic_error("out"); } } catch (std::logic_error& e) { VP_CHECK(std::string(e.what()) == "out", "nested"); }
  std::shared_ptr<B> b = x > 2 ? std::shared_ptr<B>(std::make_shared<X>(x)) : std::shared_ptr<B>(std::make_shared<Z>());
  VP_CHECK(b->f() == (x > 2 ? x : 7), "virt"); VP_CHECK((std::dynamic_pointer_cast<X>(b) != nullptr) == (x > 2), "dcast"); VP_CHECK((dynamic_cast<Y*>(b.get()) != nullptr) == !(x > 2), "dcast2");
  std::function<int(int)> f = [&](int k) { return k + x; }; VP_CHECK(f(2) == x + 2, "function");
  std::ostringstream ss; ss << "a" << s; VP_CHECK(ss.str() == "a" + s, "ss");
  std::recursive_mutex mx; { std::lock_guard<std::recursive_mutex> g(mx); std::lock_guard<std::recursive_mutex> g2(mx); }
  double d = vp_double("d"); VP_ASSUME(d >= 1.0 && d <= 2.0); VP_CHECK(d * d >= 1.0, "fp"); VP_CHECK(std::sqrt(4.0) == 2.0, "sqrt");
  if (std::isnan(d)) vp_reach("nan!"); VP_CHECK(std::min(d, 1.5) <= 1.5, "min"); VP_CHECK(std::abs(-d) == d, "abs");
  int q = 0; int co = vp_co_new(coBody, &q); int r = 0; while (!vp_co_resume(co)) ++r; VP_CHECK(q == 3 && r == 3, "co");
  std::vector<int> arr(4, 1); arr[x & 3] = 9; int sum = 0; for (int i : arr) sum += i; VP_CHECK(sum == 12, "symbolic index");
  vp_reach("end");
#ifdef SELFTEST_FAIL
  VP_CHECK(!(x == 4 && s == "b" && d > 1.25), "planted");
#endif
}
