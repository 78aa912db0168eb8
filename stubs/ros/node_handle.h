// Minimal stand-in for ros::NodeHandle: namespaces, parameters and an in-process service registry.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
#include <ros/console.h>
#include <ros/exceptions.h>
#include <ros/param_store.h>
#include <ros/time.h>
namespace ros {
namespace stub {
struct Services {
  std::mutex m; std::map<std::string, std::function<bool(void*, void*)>> v;
  static Services& get() { static Services s; return s; }
};
template <class Req, class Res> bool callService(const std::string& name, Req& rq, Res& rs) {
  std::function<bool(void*, void*)> f;
  { auto& s = Services::get(); std::lock_guard<std::mutex> g(s.m); auto it = s.v.find(name); if (it == s.v.end()) return false; f = it->second; }
  return f(&rq, &rs);
}
inline std::atomic<bool>& okFlag() { static std::atomic<bool> b{true}; return b; }
}
class ServiceServer {
  struct Impl { std::string name; ~Impl() { auto& s = stub::Services::get(); std::lock_guard<std::mutex> g(s.m); s.v.erase(name); } };
  std::shared_ptr<Impl> i_;
public:
  ServiceServer() = default;
  explicit ServiceServer(const std::string& n) : i_(std::make_shared<Impl>()) { i_->name = n; }
  void shutdown() { i_.reset(); }
  std::string getService() const { return i_ ? i_->name : ""; }
  explicit operator bool() const { return (bool)i_; }
};
class NodeHandle {
public:
  explicit NodeHandle(const std::string& ns = "") { construct("/", ns); }
  NodeHandle(const NodeHandle& parent, const std::string& ns) { construct(parent.ns_, ns); }
  NodeHandle(const NodeHandle&) = default;
  NodeHandle& operator=(const NodeHandle&) = default;
  const std::string& getNamespace() const { return ns_; }
  const std::string& getUnresolvedNamespace() const { return ns_; }
  std::string resolveName(const std::string& n, bool = true) const { return resolve(n); }
  bool ok() const { return stub::okFlag(); }
  bool hasParam(const std::string& k) const {
    std::string r = resolve(k); auto& p = stub::Params::get(); std::lock_guard<std::mutex> g(p.m);
    if (p.v.count(r)) return true;
    std::string pre = r == "/" ? r : r + "/";
    auto it = p.v.lower_bound(pre); return it != p.v.end() && it->first.compare(0, pre.size(), pre) == 0;
  }
  bool getParam(const std::string& k, XmlRpc::XmlRpcValue& v) const { return raw(k, v); }
  bool getParam(const std::string& k, std::string& s) const { XmlRpc::XmlRpcValue v; if (!raw(k, v) || v.getType() != v.TypeString) return false; s = v.s(); return true; }
  bool getParam(const std::string& k, double& d) const { XmlRpc::XmlRpcValue v; if (!raw(k, v)) return false; if (v.getType() == v.TypeInt) { d = v.i(); return true; } if (v.getType() != v.TypeDouble) return false; d = v.d(); return true; }
  bool getParam(const std::string& k, float& f) const { double d; if (!getParam(k, d)) return false; f = (float)d; return true; }
  bool getParam(const std::string& k, int& i) const { XmlRpc::XmlRpcValue v; if (!raw(k, v)) return false; if (v.getType() == v.TypeDouble) { double d = v.d(); if (std::fabs(d) > 2e9 || d != d) return false; i = (int)std::floor(d + 0.5); return true; } if (v.getType() != v.TypeInt) return false; i = v.i(); return true; }
  bool getParam(const std::string& k, bool& b) const { XmlRpc::XmlRpcValue v; if (!raw(k, v) || v.getType() != v.TypeBoolean) return false; b = v.b(); return true; }
  bool getParam(const std::string& k, std::vector<std::string>& o) const { XmlRpc::XmlRpcValue v; if (!raw(k, v) || v.getType() != v.TypeArray) return false; for (auto& e : v.a()) if (e.getType() != v.TypeString) return false; o.clear(); for (auto& e : v.a()) o.push_back(e.s()); return true; }
  bool getParam(const std::string& k, std::vector<double>& o) const { XmlRpc::XmlRpcValue v; if (!raw(k, v) || v.getType() != v.TypeArray) return false; o.clear(); for (auto& e : v.a()) o.push_back(e.getType() == v.TypeInt ? e.i() : e.d()); return true; }
  template <class T> bool param(const std::string& k, T& v, const T& d) const { if (getParam(k, v)) return true; v = d; return false; }
  template <class T> T param(const std::string& k, const T& d) const { T v; return getParam(k, v) ? v : d; }
  std::string param(const std::string& k, const char* d) const { std::string v; return getParam(k, v) ? v : d; }
  template <class T> bool getParamCached(const std::string& k, T& v) const { return getParam(k, v); }
  bool searchParam(const std::string& k, std::string& r) const {
    std::string ns = ns_; auto& p = stub::Params::get(); std::lock_guard<std::mutex> g(p.m);
    for (;;) { std::string c = stub::cleanName(ns + "/" + k); if (p.v.count(c)) { r = c; return true; } if (ns == "/" || ns.empty()) return false; auto q = ns.rfind('/'); ns = q == 0 ? "/" : ns.substr(0, q); }
  }
  void setParam(const std::string& k, const XmlRpc::XmlRpcValue& v) const { stub::setParam(resolve(k), v); }
  bool deleteParam(const std::string& k) const { std::string r = resolve(k); auto& p = stub::Params::get(); std::lock_guard<std::mutex> g(p.m); return p.v.erase(r) > 0; }
  template <class T, class Q, class R> ServiceServer advertiseService(const std::string& n, bool (T::*f)(Q&, R&), T* o) {
    std::string r = resolve(n); auto& s = stub::Services::get(); std::lock_guard<std::mutex> g(s.m);
    s.v[r] = [f, o](void* q, void* a) { return (o->*f)(*static_cast<Q*>(q), *static_cast<R*>(a)); };
    return ServiceServer(r);
  }
private:
  std::string ns_ = "/";
  void construct(const std::string& parent, const std::string& ns) {
    std::string err; if (!stub::validName(ns, err)) throw InvalidNameException(err);
    if (!ns.empty() && ns[0] == '~') { ns_ = stub::cleanName("/node/" + ns.substr(1)); return; }
    ns_ = !ns.empty() && ns[0] == '/' ? stub::cleanName(ns) : stub::cleanName(parent + "/" + ns);
    if (ns_.empty()) ns_ = "/";
  }
  std::string resolve(const std::string& n) const {
    std::string err; if (!stub::validName(n, err)) throw InvalidNameException(err);
    if (n.empty()) return ns_;
    if (n[0] == '~') throw InvalidNameException("Using ~ names with NodeHandle methods is not allowed.");
    return n[0] == '/' ? stub::cleanName(n) : stub::cleanName(ns_ + "/" + n);
  }
  bool raw(const std::string& k, XmlRpc::XmlRpcValue& v) const { std::string r = resolve(k); auto& p = stub::Params::get(); std::unique_lock<std::mutex> g(p.m, std::defer_lock); if (!p.frozen) g.lock(); auto it = p.v.find(r); if (it == p.v.end()) return false; v = it->second; return true; }
};
inline bool ok() { return stub::okFlag(); }
inline bool isShuttingDown() { return !stub::okFlag(); }
inline void shutdown() { stub::okFlag() = false; }
inline void init(int&, char**, const std::string&, uint32_t = 0) {}
inline void spinOnce() {}
inline void spin() {}
}
