// Stand-in for pluginlib: an in-process registry keyed by C++ base type; lookup names are declared explicitly
// (stub::declare) or default to "pkg/Class" derived from the exported C++ class name ("pkg::Class").
#pragma once
#include <atomic>
#include <functional>
#include <map>
#include <cxxabi.h>
#include <cstdlib>
#include <memory>
#include <typeinfo>
#include <mutex>
#include <string>
#include <vector>
#include <ros/console.h>
#include <pluginlib/exceptions.hpp>
#include <stub_plugin_names.h>
namespace pluginlib {
namespace stub {
template <class Base> struct Registry {
  struct Entry { std::string lookup; std::function<Base*()> make; };
  std::mutex m; std::vector<Entry> v; std::function<void()> onLoader; std::atomic<long> loaders{0}, live_loaders{0}, created{0};
  static Registry& get() { static Registry r; return r; }
  void declare(const std::string& lookup, std::function<Base*()> f) {
    std::lock_guard<std::mutex> g(m);
    for (auto& e : v) if (e.lookup == lookup) { e.make = f; return; }
    v.push_back({lookup, f});
  }
  void undeclare(const std::string& lookup) { std::lock_guard<std::mutex> g(m); for (auto it = v.begin(); it != v.end(); ++it) if (it->lookup == lookup) { v.erase(it); return; } }
};
inline std::string lookupFromClass(std::string s) { auto it = stubPluginNames().find(s); if (it != stubPluginNames().end()) return it->second; auto p = s.rfind("::"); if (p == std::string::npos) return s; std::string a = s.substr(0, p), b = s.substr(p + 2); if (a.compare(0, 2, "::") == 0) a = a.substr(2); return a + "/" + b; }
}
template <class T> using UniquePtr = std::unique_ptr<T, std::function<void(T*)>>;
template <class T> class ClassLoader {
public:
  typedef typename std::vector<std::string>::iterator ClassMapIterator;
  ClassLoader(std::string package, std::string base_class, std::string = "plugin", std::vector<std::string> = {}) : package_(package), base_(base_class) { auto& r = stub::Registry<T>::get(); ++r.live_loaders; if (!knows()) return; ++r.loaders; if (r.onLoader) r.onLoader(); }
  ~ClassLoader() { --stub::Registry<T>::get().live_loaders; }
  ClassLoader(const ClassLoader&) = delete;
  std::vector<std::string> getDeclaredClasses() { auto& r = stub::Registry<T>::get(); std::lock_guard<std::mutex> g(r.m); std::vector<std::string> o; if (!knows()) return o; for (auto& e : r.v) o.push_back(e.lookup); return o; }
  bool isClassAvailable(const std::string& n) { for (auto& c : getDeclaredClasses()) if (c == n) return true; return false; }
  std::shared_ptr<T> createInstance(const std::string& n) { return std::shared_ptr<T>(make(n)); }
  std::shared_ptr<T> createSharedInstance(const std::string& n) { return createInstance(n); }
  UniquePtr<T> createUniqueInstance(const std::string& n) { return UniquePtr<T>(make(n), [](T* p) { delete p; }); }
  T* createUnmanagedInstance(const std::string& n) { return make(n); }
  std::string getPackage() { return package_; }
  std::string getBaseClassType() const { return base_; }
  std::string getName(const std::string& n) { auto p = n.rfind('/'); return p == std::string::npos ? n : n.substr(p + 1); }
  void loadLibraryForClass(const std::string&) {}
  int unloadLibraryForClass(const std::string&) { return 0; }
private:
  std::string package_, base_;
  // plugins are found through the base class' package and the base class' name as given by the caller
  bool knows() const {
    int st = 0; char* d = abi::__cxa_demangle(typeid(T).name(), nullptr, nullptr, &st); std::string n = d && !st ? d : base_; std::free(d);
    std::string b = base_.compare(0, 2, "::") == 0 ? base_.substr(2) : base_; return b == n && (n.find("::") == std::string::npos || n.substr(0, n.find("::")) == package_);
  }
  T* make(const std::string& n) {
    std::function<T*()> f;
    { auto& r = stub::Registry<T>::get(); std::lock_guard<std::mutex> g(r.m); for (auto& e : r.v) if (e.lookup == n) f = e.make; if (f) ++r.created; }
    if (!knows()) f = nullptr;
    if (!f) throw LibraryLoadException("According to the loaded plugin descriptions the class " + n + " does not exist");
    T* p = f(); if (!p) throw CreateClassException("null instance for " + n);
    return p;
  }
};
}
