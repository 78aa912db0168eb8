// In-process parameter server used by the NodeHandle stand-in.
#pragma once
#include <map>
#include <mutex>
#include <string>
#include <vector>
#include <stdexcept>
#include <ros/exceptions.h>
namespace XmlRpc {
class XmlRpcException : public std::runtime_error { public: explicit XmlRpcException(const std::string& m) : std::runtime_error(m) {} std::string getMessage() const { return what(); } };
class XmlRpcValue {
public:
  enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
  typedef std::map<std::string, XmlRpcValue> ValueStruct;
  typedef ValueStruct::iterator iterator;
  XmlRpcValue() = default;
  XmlRpcValue(bool v) : t_(TypeBoolean), b_(v) {}
  XmlRpcValue(int v) : t_(TypeInt), i_(v) {}
  XmlRpcValue(double v) : t_(TypeDouble), d_(v) {}
  XmlRpcValue(const std::string& v) : t_(TypeString), s_(v) {}
  XmlRpcValue(const char* v) : t_(TypeString), s_(v) {}
  static XmlRpcValue array() { XmlRpcValue v; v.t_ = TypeArray; return v; }
  Type getType() const { return t_; }
  bool valid() const { return t_ != TypeInvalid; }
  int size() const { if (t_ == TypeString) return (int)s_.size(); if (t_ == TypeArray) return (int)a_.size(); if (t_ == TypeStruct) return (int)m_.size(); throw XmlRpcException("type error"); }
  void setSize(int n) { t_ = TypeArray; a_.resize(n); }
  void push_back(const XmlRpcValue& v) { t_ = TypeArray; a_.push_back(v); }
  bool hasMember(const std::string& n) const { return t_ == TypeStruct && m_.count(n); }
  operator bool&() { need(TypeBoolean); return b_; }
  operator int&() { need(TypeInt); return i_; }
  operator double&() { need(TypeDouble); return d_; }
  operator std::string&() { need(TypeString); return s_; }
  XmlRpcValue& operator[](int i) { need(TypeArray); return a_.at(i); }
  const XmlRpcValue& operator[](int i) const { if (t_ != TypeArray) throw XmlRpcException("type error"); return a_.at(i); }
  XmlRpcValue& operator[](const std::string& k) { if (t_ == TypeInvalid) t_ = TypeStruct; need(TypeStruct); return m_[k]; }
  XmlRpcValue& operator[](const char* k) { return (*this)[std::string(k)]; }
  iterator begin() { return m_.begin(); }
  iterator end() { return m_.end(); }
  bool b() const { return b_; } int i() const { return i_; } double d() const { return d_; } const std::string& s() const { return s_; }
  const std::vector<XmlRpcValue>& a() const { return a_; }
private:
  void need(Type t) const { if (t_ != t) throw XmlRpcException("type error"); }
  Type t_ = TypeInvalid; bool b_ = false; int i_ = 0; double d_ = 0; std::string s_;
  std::vector<XmlRpcValue> a_; ValueStruct m_;
};
}
namespace ros { namespace stub {
struct Params {
  // frozen: read-only from now on, so that reading needs no lock (which would order the reading threads)
  bool frozen = false; std::mutex m; std::map<std::string, XmlRpc::XmlRpcValue> v;
  static Params& get() { static Params p; return p; }
};
inline std::string cleanName(const std::string& n) {
  std::string r; for (char c : n) { if (c == '/' && !r.empty() && r.back() == '/') continue; r += c; }
  if (r.size() > 1 && r.back() == '/') r.pop_back();
  return r;
}
inline bool validName(const std::string& n, std::string& err) {
  if (n.empty()) return true;
  auto alpha = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
  char c0 = n[0];
  if (!alpha(c0) && c0 != '/' && c0 != '~') { err = "Character [" + std::string(1, c0) + "] is not valid as the first character in Graph Resource Name"; return false; }
  for (size_t i = 1; i < n.size(); ++i) if (!alpha(n[i]) && !(n[i] >= '0' && n[i] <= '9') && n[i] != '/' && n[i] != '_') { err = "Character at element [" + std::to_string(i) + "] is not valid"; return false; }
  return true;
}
inline void setParam(const std::string& k, const XmlRpc::XmlRpcValue& v) { auto& p = Params::get(); std::lock_guard<std::mutex> g(p.m); p.v[cleanName(k)] = v; }
inline void clearParams() { auto& p = Params::get(); std::lock_guard<std::mutex> g(p.m); p.v.clear(); }
}}
