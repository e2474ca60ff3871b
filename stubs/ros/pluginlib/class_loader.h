// Stand-in for pluginlib: classes come from an in-process registry (filled from the real plugin XML files and by harnesses).
#pragma once
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <stdexcept>
namespace pluginlib {
struct PluginlibException : public std::runtime_error { PluginlibException(const std::string& s) : std::runtime_error(s) {} };
struct LibraryLoadException : public PluginlibException { LibraryLoadException(const std::string& s) : PluginlibException(s) {} };
struct ClassLoaderException : public PluginlibException { ClassLoaderException(const std::string& s) : PluginlibException(s) {} };
struct CreateClassException : public PluginlibException { CreateClassException(const std::string& s) : PluginlibException(s) {} };
}
namespace pluginlib_stub {
struct Class { std::string lookup, base; std::function<void*()> make; };
inline std::vector<Class>& classes() { static std::vector<Class> c; return c; }
struct Export { std::string type; std::function<void*()> make; };
inline std::vector<Export>& exports() { static std::vector<Export> c; return c; }
inline int& loadersCreated() { static int n = 0; return n; }
template <class D, class B> struct Reg { explicit Reg(const char* t) { Export e; e.type = t; e.make = []() -> void* { return static_cast<void*>(static_cast<B*>(new D())); }; exports().push_back(e); } };
// lookup name -> type as declared in a plugin description file
inline void declare(const std::string& lookup, const std::string& type, const std::string& base) {
  for (size_t i = 0; i < exports().size(); i++) if (exports()[i].type == type) { Class c; c.lookup = lookup; c.base = base; c.make = exports()[i].make; classes().push_back(c); return; }
}
template <class B> inline void add(const std::string& lookup, const std::string& base, std::function<B*()> f) { Class c; c.lookup = lookup; c.base = base; c.make = [f]() -> void* { return static_cast<void*>(f()); }; classes().push_back(c); }
}
namespace pluginlib {
template <class T> using UniquePtr = std::unique_ptr<T, std::function<void(T*)>>;
template <class T> class ClassLoader {
  std::string base_;
  T* make(const std::string& n) {
    std::vector<pluginlib_stub::Class>& cs = pluginlib_stub::classes();
    for (size_t i = 0; i < cs.size(); i++) if (cs[i].base == base_ && cs[i].lookup == n) return static_cast<T*>(cs[i].make());
    throw LibraryLoadException("According to the loaded plugin descriptions the class " + n + " with base class type " + base_ + " does not exist.");
  }
public:
  ClassLoader(const std::string&, const std::string& base) : base_(base) { ++pluginlib_stub::loadersCreated(); }
  UniquePtr<T> createUniqueInstance(const std::string& n) { return UniquePtr<T>(make(n), [](T* p) { delete p; }); }
  std::shared_ptr<T> createInstance(const std::string& n) { return std::shared_ptr<T>(make(n)); }
  T* createUnmanagedInstance(const std::string& n) { return make(n); }
  std::vector<std::string> getDeclaredClasses() { std::vector<std::string> r; std::vector<pluginlib_stub::Class>& cs = pluginlib_stub::classes(); for (size_t i = 0; i < cs.size(); i++) if (cs[i].base == base_) r.push_back(cs[i].lookup); return r; }
  bool isClassAvailable(const std::string& n) { std::vector<pluginlib_stub::Class>& cs = pluginlib_stub::classes(); for (size_t i = 0; i < cs.size(); i++) if (cs[i].base == base_ && cs[i].lookup == n) return true; return false; }
};
}
