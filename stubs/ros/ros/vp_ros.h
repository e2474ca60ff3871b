// Stand-ins for the parts of roscpp that ros_control uses.
#pragma once
#include <algorithm>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <functional>
#include <stdexcept>
#include <sstream>
#include <cstdint>
#include <cassert>
#include <cmath>
#include <cstdlib>
#include <limits>
#include <set>
#include <list>

namespace ros_stub {
struct Param { std::string key; int type; bool present; double d; bool b; std::string s; std::vector<std::string> v; int i; }; // type: 0 double 1 bool 2 string 3 list 4 int
inline std::vector<Param>& params() { static std::vector<Param> p; return p; }
inline Param& add(const std::string& key, int type) { params().push_back(Param()); Param& p = params().back(); p.key = key; p.type = type; p.present = true; p.d = 0; p.b = false; p.i = 0; return p; }
inline void setDouble(const std::string& k, double v, bool present = true) { Param& p = add(k, 0); p.d = v; p.present = present; }
inline void setBool(const std::string& k, bool v, bool present = true) { Param& p = add(k, 1); p.b = v; p.present = present; }
inline void setString(const std::string& k, const std::string& v, bool present = true) { Param& p = add(k, 2); p.s = v; p.present = present; }
inline void setList(const std::string& k, const std::vector<std::string>& v, bool present = true) { Param& p = add(k, 3); p.v = v; p.present = present; }
inline Param* find(const std::string& key) { for (size_t i = 0; i < params().size(); i++) if (params()[i].key == key) { if (params()[i].present) return &params()[i]; } return nullptr; }
struct Service { std::string name; std::function<bool(void*, void*)> f; };
inline std::vector<Service>& services() { static std::vector<Service> s; return s; }
template <class S> inline bool call(const std::string& name, S& srv) {
  for (size_t i = 0; i < services().size(); i++) if (services()[i].name == name) return services()[i].f(&srv.request, &srv.response);
  throw std::runtime_error("no such service");
}
inline double& now() { static double t = 0; return t; }
inline bool& okFlag() { static bool b = true; return b; }
inline bool (*&okHook())() { static bool (*f)() = nullptr; return f; }
template <class... A> inline void sink(const A&...) {}
}
namespace ros {
struct Exception : public std::runtime_error { Exception(const std::string& s) : std::runtime_error(s) {} };
struct InvalidNameException : public Exception { InvalidNameException(const std::string& s) : Exception(s) {} };
class Duration {
public:
  double d; Duration() : d(0) {} explicit Duration(double v) : d(v) {} Duration(int32_t s, int32_t ns) : d(s + 1e-9 * ns) {}
  double toSec() const { return d; }
  int64_t toNSec() const { return (int64_t)(d * 1e9); }
  bool isZero() const { return d == 0; }
  Duration operator+(const Duration& o) const { return Duration(d + o.d); } Duration operator-(const Duration& o) const { return Duration(d - o.d); } Duration operator*(double k) const { return Duration(d * k); }
  bool operator<(const Duration& o) const { return d < o.d; } bool operator>(const Duration& o) const { return d > o.d; } bool operator<=(const Duration& o) const { return d <= o.d; } bool operator>=(const Duration& o) const { return d >= o.d; } bool operator==(const Duration& o) const { return d == o.d; } bool operator!=(const Duration& o) const { return d != o.d; }
  bool sleep() const { return true; }
};
class Time {
public:
  double t; Time() : t(0) {} explicit Time(double v) : t(v) {} Time(uint32_t s, uint32_t ns) : t(s + 1e-9 * ns) {}
  double toSec() const { return t; } bool isZero() const { return t == 0; }
  static Time now() { return Time(ros_stub::now()); }
  Duration operator-(const Time& o) const { return Duration(t - o.t); } Time operator+(const Duration& o) const { return Time(t + o.d); } Time operator-(const Duration& o) const { return Time(t - o.d); }
  bool operator<(const Time& o) const { return t < o.t; } bool operator>(const Time& o) const { return t > o.t; } bool operator<=(const Time& o) const { return t <= o.t; } bool operator>=(const Time& o) const { return t >= o.t; } bool operator==(const Time& o) const { return t == o.t; } bool operator!=(const Time& o) const { return t != o.t; }
};
static const Time TIME_MAX(4294967295.0), TIME_MIN(0.0); static const Duration DURATION_MAX(2147483647.0);
typedef Time WallTime; typedef Duration WallDuration;
inline bool ok() { return ros_stub::okHook() ? ros_stub::okHook()() : ros_stub::okFlag(); }
class ServiceServer { public: std::string name; ServiceServer() {} void shutdown() {} };
class NodeHandle {
public:
  std::string ns;
  explicit NodeHandle(const std::string& n = std::string()) : ns(n) {}
  NodeHandle(const NodeHandle& p, const std::string& n) : ns(p.resolve(n)) { if (!n.empty() && n[0] == '!') throw InvalidNameException("Character [!] is not valid as the first character"); }
  std::string resolve(const std::string& n) const { if (n.empty()) return ns; if (n[0] == '/') return n; return ns + "/" + n; }
  std::string resolveName(const std::string& n) const { return resolve(n); }
  const std::string& getNamespace() const { return ns; }
  bool getParam(const std::string& k, double& v) const { ros_stub::Param* p = ros_stub::find(resolve(k)); if (!p) return false; if (p->type == 4) { v = p->i; return true; } if (p->type != 0) return false; v = p->d; return true; }
  bool getParam(const std::string& k, bool& v) const { ros_stub::Param* p = ros_stub::find(resolve(k)); if (!p || p->type != 1) return false; v = p->b; return true; }
  bool getParam(const std::string& k, int& v) const { ros_stub::Param* p = ros_stub::find(resolve(k)); if (!p || p->type != 4) return false; v = p->i; return true; }
  bool getParam(const std::string& k, std::string& v) const { ros_stub::Param* p = ros_stub::find(resolve(k)); if (!p || p->type != 2) return false; v = p->s; return true; }
  bool getParam(const std::string& k, std::vector<std::string>& v) const { ros_stub::Param* p = ros_stub::find(resolve(k)); if (!p || p->type != 3) return false; v = p->v; return true; }
  template <class T> void param(const std::string& k, T& v, const T& d) const { if (!getParam(k, v)) v = d; }
  template <class T> T param(const std::string& k, const T& d) const { T v; if (!getParam(k, v)) v = d; return v; }
  template <class T> static bool get_(const NodeHandle& n, const std::string& k, T& v) { return n.getParam(k, v); }
  bool hasParam(const std::string& k) const {
    std::string key = resolve(k), pre = key + "/"; std::vector<ros_stub::Param>& ps = ros_stub::params();
    for (size_t i = 0; i < ps.size(); i++) if (ps[i].key == key || ps[i].key.compare(0, pre.size(), pre) == 0) { if (ps[i].present) return true; }
    return false;
  }
  template <class T, class Rq, class Rs> ServiceServer advertiseService(const std::string& n, bool (T::*m)(Rq&, Rs&), T* o) {
    ros_stub::Service s; s.name = resolve(n); s.f = [m, o](void* q, void* r) { return (o->*m)(*static_cast<Rq*>(q), *static_cast<Rs*>(r)); };
    ros_stub::services().push_back(s); return ServiceServer();
  }
  bool ok() const { return ros::ok(); }
};
}
// log levels enabled by default evaluate their arguments, debug does not
#define VP_LOG(...) do { ::ros_stub::sink(__VA_ARGS__); } while (0)
#define VP_LOGS(x) do { std::stringstream vp_ss_; vp_ss_ << x; } while (0)
#define VP_LOGS_OFF(x) do { if (false) { std::stringstream vp_ss_; vp_ss_ << x; } } while (0)
#define VP_LOG_OFF(...) do { if (false) ::ros_stub::sink(__VA_ARGS__); } while (0)
#define ROS_DEBUG(...) VP_LOG_OFF(__VA_ARGS__)
#define ROS_INFO(...) VP_LOG(__VA_ARGS__)
#define ROS_WARN(...) VP_LOG(__VA_ARGS__)
#define ROS_ERROR(...) VP_LOG(__VA_ARGS__)
#define ROS_FATAL(...) VP_LOG(__VA_ARGS__)
#define ROS_DEBUG_NAMED(n, ...) VP_LOG_OFF(__VA_ARGS__)
#define ROS_INFO_NAMED(n, ...) VP_LOG(__VA_ARGS__)
#define ROS_WARN_NAMED(n, ...) VP_LOG(__VA_ARGS__)
#define ROS_ERROR_NAMED(n, ...) VP_LOG(__VA_ARGS__)
#define ROS_FATAL_NAMED(n, ...) VP_LOG(__VA_ARGS__)
#define ROS_DEBUG_STREAM(x) VP_LOGS_OFF(x)
#define ROS_INFO_STREAM(x) VP_LOGS(x)
#define ROS_WARN_STREAM(x) VP_LOGS(x)
#define ROS_ERROR_STREAM(x) VP_LOGS(x)
#define ROS_FATAL_STREAM(x) VP_LOGS(x)
#define ROS_DEBUG_STREAM_NAMED(n, x) VP_LOGS_OFF(x)
#define ROS_INFO_STREAM_NAMED(n, x) VP_LOGS(x)
#define ROS_WARN_STREAM_NAMED(n, x) VP_LOGS(x)
#define ROS_ERROR_STREAM_NAMED(n, x) VP_LOGS(x)
#define ROS_FATAL_STREAM_NAMED(n, x) VP_LOGS(x)
#define ROS_WARN_THROTTLE(p, ...) VP_LOG(__VA_ARGS__)
#define ROS_ERROR_THROTTLE(p, ...) VP_LOG(__VA_ARGS__)
#define ROS_WARN_ONCE(...) VP_LOG(__VA_ARGS__)
#define ROS_ERROR_ONCE(...) VP_LOG(__VA_ARGS__)
#define ROS_ASSERT(c) do { if (!(c)) ::abort(); } while (0)
#define ROS_VERSION_MAJOR 1
#define ROS_VERSION_MINOR 15
#define ROS_VERSION_PATCH 0
#define ROS_VERSION_COMBINED(a, b, c) (((a) << 20) | ((b) << 10) | (c))
#define ROS_VERSION ROS_VERSION_COMBINED(ROS_VERSION_MAJOR, ROS_VERSION_MINOR, ROS_VERSION_PATCH)
#define ROS_VERSION_GE(m1, n1, p1, m2, n2, p2) (ROS_VERSION_COMBINED(m1, n1, p1) >= ROS_VERSION_COMBINED(m2, n2, p2))
#define ROS_VERSION_MINIMUM(a, b, c) ROS_VERSION_GE(ROS_VERSION_MAJOR, ROS_VERSION_MINOR, ROS_VERSION_PATCH, a, b, c)
