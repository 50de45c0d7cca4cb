#pragma once
// Stand-in for ros::NodeHandle: a process-local parameter tree with roscpp's name
// resolution, validation and type-coercion rules, and a process-local service registry.
#include <ros/common.h>
#include <ros/console.h>
#include <ros/exceptions.h>
#include <ros/forwards.h>
#include <ros/time.h>
#include <xmlrpcpp/XmlRpcValue.h>
#include <cctype>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <typeinfo>
#include <vector>

namespace ros {
namespace shim {
inline std::map<std::string, XmlRpc::XmlRpcValue>& params() { static std::map<std::string, XmlRpc::XmlRpcValue> p; return p; }
struct Service { std::string req, res; std::function<bool(void*, void*)> fn; };
inline std::map<std::string, Service>& services() { static std::map<std::string, Service> s; return s; }
inline bool& okFlag() { static bool o = true; return o; }
}
inline bool ok() { shim::yieldPoint("ros::ok"); return shim::okFlag(); }
inline bool isShuttingDown() { return !shim::okFlag(); }
inline bool isInitialized() { return true; }
inline bool isStarted() { return true; }
inline void shutdown() { shim::okFlag() = false; }
inline void requestShutdown() { shim::okFlag() = false; }
inline void spinOnce() {}
inline void spin() {}
inline void init(int&, char**, const std::string&, uint32_t = 0) {}
class AsyncSpinner { public: explicit AsyncSpinner(uint32_t) {} void start() {} void stop() {} };
namespace names {
inline bool isValidCharInName(char c) { return isalnum((unsigned char)c) || c == '/' || c == '_'; }
inline bool validate(const std::string& n, std::string& error)
{
  if (n.empty()) return true;
  char c = n[0];
  if (!isalpha((unsigned char)c) && c != '/' && c != '~') { error = "Character [" + std::string(1, c) + "] is not valid as the first character in Graph Resource Name [" + n + "]."; return false; }
  for (size_t i = 1; i < n.size(); ++i) if (!isValidCharInName(n[i])) { error = "Character at element [" + std::to_string(i) + "] is not valid in Graph Resource Name [" + n + "]."; return false; }
  return true;
}
inline std::string clean(const std::string& n)
{ std::string c; for (char ch : n) { if (ch == '/' && !c.empty() && c.back() == '/') continue; c += ch; }
  if (c.size() > 1 && c.back() == '/') c.pop_back(); return c; }
inline std::string append(const std::string& l, const std::string& r) { return clean(l + "/" + r); }
inline std::string resolve(const std::string& ns, const std::string& name, bool = true)
{ std::string err; if (!validate(name, err)) throw InvalidNameException(err);
  if (name.empty()) { if (ns.empty()) return "/"; if (ns[0] == '/') return ns; return append("/", ns); }
  std::string c = name; if (c[0] == '~') c = append("/shim_node", c.substr(1));
  if (c[0] != '/') c = append("/", append(ns, c)); return clean(c); }
inline std::string resolve(const std::string& name, bool b = true) { return resolve("/", name, b); }
inline std::string parentNamespace(const std::string& n) { auto p = n.rfind('/'); if (p == std::string::npos || p == 0) return "/"; return n.substr(0, p); }
}
namespace this_node { inline std::string getName() { return "/shim_node"; } inline std::string getNamespace() { return "/"; } }

class ServiceServer {
public:
  ServiceServer() {}
  void shutdown() { if (h_) { shim::services().erase(h_->name); h_.reset(); } }
  std::string getService() const { return h_ ? h_->name : ""; }
  explicit operator bool() const { return (bool)h_; }
  operator void*() const { return h_ ? (void*)1 : (void*)0; }
private:
  struct H { std::string name; ~H() { shim::services().erase(name); } };
  std::shared_ptr<H> h_;
  friend class NodeHandle;
};
class Publisher { public: template <class M> void publish(const M&) const {} void shutdown() {} uint32_t getNumSubscribers() const { return 0; } };
class Subscriber { public: void shutdown() {} };
class Timer { public: void start() {} void stop() {} };
typedef Timer WallTimer;

class NodeHandle {
public:
  NodeHandle(const std::string& ns = std::string(), const M_string& = M_string()) : ns_("/") { construct(ns); }
  NodeHandle(const NodeHandle& r) = default;
  NodeHandle(const NodeHandle& parent, const std::string& ns) : ns_(parent.ns_) { construct(ns); }
  NodeHandle(const NodeHandle& parent, const std::string& ns, const M_string&) : ns_(parent.ns_) { construct(ns); }
  NodeHandle& operator=(const NodeHandle&) = default;
  const std::string& getNamespace() const { return ns_; }
  const std::string& getUnresolvedNamespace() const { return uns_; }
  std::string resolveName(const std::string& name, bool = true) const
  { if (name.empty()) return ns_;
    if (name[0] == '~') throw InvalidNameException("Using ~ names with NodeHandle methods is not allowed.  If you want to use private names with the NodeHandle interface, construct a NodeHandle using a private name as its namespace.");
    std::string f = name; if (f[0] != '/' && !ns_.empty()) f = names::append(ns_, f);
    return names::resolve(names::clean(f)); }
  // parameters ------------------------------------------------------------
  bool getParam(const std::string& k, std::string& v) const { XmlRpc::XmlRpcValue x; if (!fetch(k, x) || x.getType() != XmlRpc::XmlRpcValue::TypeString) return false; v = (std::string)(const std::string&)static_cast<const XmlRpc::XmlRpcValue&>(x); return true; }
  bool getParam(const std::string& k, double& v) const
  { XmlRpc::XmlRpcValue x; if (!fetch(k, x)) return false; const auto& c = x;
    if (c.getType() == XmlRpc::XmlRpcValue::TypeDouble) { v = (const double&)c; return true; }
    if (c.getType() == XmlRpc::XmlRpcValue::TypeInt) { v = (const int&)c; return true; } return false; }
  bool getParam(const std::string& k, float& v) const { double d; if (!getParam(k, d)) return false; v = (float)d; return true; }
  bool getParam(const std::string& k, int& v) const
  { XmlRpc::XmlRpcValue x; if (!fetch(k, x)) return false; const auto& c = x;
    if (c.getType() == XmlRpc::XmlRpcValue::TypeInt) { v = (const int&)c; return true; }
    if (c.getType() == XmlRpc::XmlRpcValue::TypeDouble) { double d = (const double&)c; if (std::fmod(d, 1.0) < 0.5) d = std::floor(d); else d = std::ceil(d); v = (int)d; return true; } return false; }
  bool getParam(const std::string& k, bool& v) const
  { XmlRpc::XmlRpcValue x; if (!fetch(k, x) || x.getType() != XmlRpc::XmlRpcValue::TypeBoolean) return false; const auto& c = x; v = (const bool&)c; return true; }
  bool getParam(const std::string& k, XmlRpc::XmlRpcValue& v) const { return fetch(k, v); }
  template <class E> bool getParam(const std::string& k, std::vector<E>& v) const
  { XmlRpc::XmlRpcValue x; if (!fetch(k, x) || x.getType() != XmlRpc::XmlRpcValue::TypeArray) return false; const auto& c = x;
    std::vector<E> out; for (int i = 0; i < c.size(); ++i) { E e; if (!conv(c[i], e)) return false; out.push_back(e); } v = out; return true; }
  template <class E> bool getParam(const std::string& k, std::map<std::string, E>& v) const
  { XmlRpc::XmlRpcValue x; if (!fetch(k, x) || x.getType() != XmlRpc::XmlRpcValue::TypeStruct) return false;
    std::map<std::string, E> out; for (auto& p : x) { E e; if (!conv(p.second, e)) return false; out[p.first] = e; } v = out; return true; }
  template <class T> bool getParamCached(const std::string& k, T& v) const { return getParam(k, v); }
  bool hasParam(const std::string& k) const { XmlRpc::XmlRpcValue x; return fetch(k, x); }
  template <class T> void setParam(const std::string& k, const T& v) const { shim::params()[resolveName(k)] = XmlRpc::XmlRpcValue(v); }
  bool deleteParam(const std::string& k) const { return shim::params().erase(resolveName(k)) > 0; }
  bool searchParam(const std::string& k, std::string& out) const
  { std::string ns = ns_; for (;;) { std::string full = names::append(ns, k); if (shim::params().count(full)) { out = full; return true; } if (ns == "/") return false; ns = names::parentNamespace(ns); } }
  bool getParamNames(std::vector<std::string>& keys) const { keys.clear(); for (auto& p : shim::params()) keys.push_back(p.first); return true; }
  template <class T> bool param(const std::string& k, T& v, const T& d) const { if (getParam(k, v)) return true; v = d; return false; }
  template <class T> T param(const std::string& k, const T& d) const { T v; param(k, v, d); return v; }
  std::string param(const std::string& k, const char* d) const { return param<std::string>(k, std::string(d)); }
  // services ----------------------------------------------------------------
  template <class T, class Q, class S> ServiceServer advertiseService(const std::string& n, bool (T::*f)(Q&, S&), T* o) { return adv<Q, S>(n, [=](Q& q, S& s) { return (o->*f)(q, s); }); }
  template <class T, class Q, class S> ServiceServer advertiseService(const std::string& n, bool (T::*f)(Q&, S&), const std::shared_ptr<T>& o) { return adv<Q, S>(n, [=](Q& q, S& s) { return ((*o).*f)(q, s); }); }
  template <class Q, class S> ServiceServer advertiseService(const std::string& n, bool (*f)(Q&, S&)) { return adv<Q, S>(n, [=](Q& q, S& s) { return f(q, s); }); }
  template <class Q, class S> ServiceServer advertiseService(const std::string& n, const std::function<bool(Q&, S&)>& f) { return adv<Q, S>(n, f); }
  template <class M> Publisher advertise(const std::string&, uint32_t, bool = false) { return Publisher(); }
  template <class M, class T> Subscriber subscribe(const std::string&, uint32_t, void (T::*)(M), T*) { return Subscriber(); }
  bool ok() const { return ros::ok(); }
  void shutdown() {}
private:
  void construct(const std::string& ns) { uns_ = ns; ns_ = ns.size() && ns[0] == '~' ? names::resolve(ns) : resolveName(ns); }
  static bool conv(const XmlRpc::XmlRpcValue& c, std::string& e) { if (c.getType() != XmlRpc::XmlRpcValue::TypeString) return false; e = (const std::string&)c; return true; }
  static bool num(const XmlRpc::XmlRpcValue& c, double& d) { switch (c.getType()) { case XmlRpc::XmlRpcValue::TypeDouble: d = (const double&)c; return true; case XmlRpc::XmlRpcValue::TypeInt: d = (const int&)c; return true; case XmlRpc::XmlRpcValue::TypeBoolean: d = (const bool&)c; return true; default: return false; } }
  template <class N> static bool conv(const XmlRpc::XmlRpcValue& c, N& e) { double d; if (!num(c, d)) return false; e = (N)d; return true; }
  bool fetch(const std::string& k, XmlRpc::XmlRpcValue& v) const
  { shim::yieldPoint("param"); std::string full = resolveName(k); auto& p = shim::params(); auto it = p.find(full);
    if (it != p.end()) { v = it->second; return true; }
    // sub-tree: build a struct from the keys below
    std::string pre = full == "/" ? "/" : full + "/"; bool any = false; XmlRpc::XmlRpcValue s;
    for (auto i = p.lower_bound(pre); i != p.end() && i->first.compare(0, pre.size(), pre) == 0; ++i) {
      any = true; XmlRpc::XmlRpcValue* cur = &s; std::string rest = i->first.substr(pre.size()); size_t q;
      while ((q = rest.find('/')) != std::string::npos) { cur = &(*cur)[rest.substr(0, q)]; rest = rest.substr(q + 1); }
      (*cur)[rest] = i->second; }
    if (any) v = s;
    return any; }
  template <class Q, class S> ServiceServer adv(const std::string& n, std::function<bool(Q&, S&)> f)
  { ServiceServer s; s.h_ = std::make_shared<ServiceServer::H>(); s.h_->name = resolveName(n);
    shim::Service e; e.req = typeid(Q).name(); e.res = typeid(S).name();
    e.fn = [f](void* q, void* r) { return f(*(Q*)q, *(S*)r); };
    shim::services()[s.h_->name] = e; return s; }
  std::string ns_, uns_;
};
namespace param {
template <class T> bool get(const std::string& k, T& v) { return NodeHandle().getParam(k, v); }
inline bool has(const std::string& k) { return NodeHandle().hasParam(k); }
template <class T> void set(const std::string& k, const T& v) { NodeHandle().setParam(k, v); }
template <class T> bool param(const std::string& k, T& v, const T& d) { return NodeHandle().param(k, v, d); }
}
namespace shim {
// Calls an advertised service the way a client would. Returns false when it is not there.
template <class Q, class S> bool call(const std::string& name, Q& q, S& s)
{ auto it = services().find(name); if (it == services().end() || it->second.req != typeid(Q).name() || it->second.res != typeid(S).name()) return false;
  auto fn = it->second.fn; return fn(&q, &s); }
}
}
