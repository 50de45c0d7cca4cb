#pragma once
// Stand-in for pluginlib: classes are registered in-process (PLUGINLIB_EXPORT_CLASS),
// and the harness maps lookup names to them, as plugin description files do.
#include <ros/console.h>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>
#if __has_include(<boost/shared_ptr.hpp>)
#include <boost/shared_ptr.hpp>
#define PLUGINLIB_SHIM_BOOST 1
#endif
namespace pluginlib {
class PluginlibException : public std::runtime_error { public: PluginlibException(const std::string& e) : std::runtime_error(e) {} };
class LibraryLoadException : public PluginlibException { public: using PluginlibException::PluginlibException; };
class ClassLoaderException : public PluginlibException { public: using PluginlibException::PluginlibException; };
class LibraryUnloadException : public PluginlibException { public: using PluginlibException::PluginlibException; };
class CreateClassException : public PluginlibException { public: using PluginlibException::PluginlibException; };
class UnmanagedPluginException : public PluginlibException { public: using PluginlibException::PluginlibException; };
class InvalidXMLException : public PluginlibException { public: using PluginlibException::PluginlibException; };
namespace shim {
// base class name -> class type name -> factory
struct Factories { std::map<std::string, std::map<std::string, std::function<void*()>>> m; };
inline Factories& exported() { static Factories f; return f; }
// base class name -> lookup name -> factory (void* is a Base*)
inline Factories& declared() { static Factories f; return f; }
inline int& loadersCreated() { static int n = 0; return n; }
inline int& loadersAlive() { static int n = 0; return n; }
inline std::function<void(const std::string& base)>& loaderHook() { static std::function<void(const std::string&)> h; return h; }
template <class B> void declare(const std::string& base, const std::string& lookup, std::function<B*()> f) { declared().m[base][lookup] = [f]() -> void* { return f(); }; }
inline bool declareExported(const std::string& base, const std::string& lookup, const std::string& type)
{ auto b = exported().m.find(base); if (b == exported().m.end()) return false; auto t = b->second.find(type); if (t == b->second.end()) return false; declared().m[base][lookup] = t->second; return true; }
inline std::string stripSpaces(const char* s) { std::string o; for (; *s; ++s) if (*s != ' ') o += *s; return o; }
template <class D, class B> struct Exporter { Exporter(const char* d, const char* b) { exported().m[stripSpaces(b)][stripSpaces(d)] = []() -> void* { return static_cast<B*>(new D); }; } };
}
template <class T> class ClassLoader {
public:
  template <class U> using UniquePtr = std::unique_ptr<U, std::function<void(U*)>>;
  ClassLoader(std::string package, std::string base_class, std::string = "plugin", std::vector<std::string> = std::vector<std::string>()) : package_(package), base_(base_class), d_(shim::declared().m[base_]) { ++shim::loadersCreated(); ++shim::loadersAlive(); if (shim::loaderHook()) shim::loaderHook()(base_); }
  ~ClassLoader() { --shim::loadersAlive(); }
  ClassLoader(const ClassLoader&) = delete;
  std::vector<std::string> getDeclaredClasses() { std::vector<std::string> v; for (auto& p : d_) v.push_back(p.first); return v; }
  bool isClassAvailable(const std::string& n) { return d_.count(n) > 0; }
  bool isClassLoaded(const std::string& n) { return isClassAvailable(n); }
  std::string getBaseClassType() const { return base_; }
  std::string getClassType(const std::string& n) { return n; }
  std::string getClassPackage(const std::string&) { return package_; }
  std::string getName(const std::string& n) { auto p = n.rfind('/'); return p == std::string::npos ? n : n.substr(p + 1); }
  T* createUnmanagedInstance(const std::string& n)
  { auto it = d_.find(n);
    if (it == d_.end()) throw LibraryLoadException("According to the loaded plugin descriptions the class " + n + " with base class type " + base_ + " does not exist.");
    return static_cast<T*>(it->second()); }
  UniquePtr<T> createUniqueInstance(const std::string& n) { return UniquePtr<T>(createUnmanagedInstance(n), [](T* p) { delete p; }); }
  std::shared_ptr<T> createSharedInstance(const std::string& n) { return std::shared_ptr<T>(createUnmanagedInstance(n)); }
#ifdef PLUGINLIB_SHIM_BOOST
  boost::shared_ptr<T> createInstance(const std::string& n) { return boost::shared_ptr<T>(createUnmanagedInstance(n)); }
#endif
  void loadLibraryForClass(const std::string& n) { if (!isClassAvailable(n)) throw LibraryLoadException(n); }
  int unloadLibraryForClass(const std::string&) { return 0; }
  void refreshDeclaredClasses() { d_ = shim::declared().m[base_]; }
private:
  std::string package_, base_; std::map<std::string, std::function<void*()>> d_;   // read when made, as pluginlib reads its description files
};
}
