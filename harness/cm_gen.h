// Random robots, controllers, loaders, hardware scripts and service requests for the simulated manager.
#pragma once
#include "cm_sim.h"
namespace sim {
typedef pluginlib::stub::Registry<controller_interface::ControllerBase> PlugReg;
struct World {
  Sim s; vh::Rng r; std::vector<std::string> names, validNames; std::map<std::string, std::string> nameType; std::unique_ptr<Runner> run;
  std::vector<std::string> allTypes; int extraLoaders = 0; bool scriptsEasy = false; size_t wantLoaded = 2; int big = 0; bool apart = false; /*every controller with resources of its own*/
  explicit World(uint64_t seed) : r(seed) {}
  std::string ns(const std::string& name) const { std::string q = !name.empty() && name[0] == '/' ? name : s.rootNs + "/" + name; q = ros::stub::cleanName(q); return q.empty() ? "/" : q; }
  static void publishPlugins() {
    auto& g = PlugReg::get(); for (auto& d : S->loaders[0]) if (!S->declares(0, d)) g.undeclare(d.type);
    for (auto& d : S->loaders[0]) if (S->declares(0, d)) { TypeDef dd = d; g.declare(d.type, [dd] { return static_cast<controller_interface::ControllerBase*>(make(dd, 0)); }); }
  }
  std::vector<TypeDef> late;
  bool registerLate() {
    if (late.empty()) return false;
    s.loaders.push_back(late); s.gen.push_back(0); late.clear(); int i = (int)s.loaders.size() - 1;
    s.cm->registerControllerLoader(std::make_shared<MonLoader>("loader" + std::to_string(i), i)); return true;
  }
  void build() {
    S = &s; ros::stub::clearParams(); { auto& g = PlugReg::get(); std::lock_guard<std::mutex> l(g.m); g.v.clear(); g.onLoader = nullptr; }
    s.drv = vh::Rng(r.u64()); s.wrk = vh::Rng(r.u64());
    s.rootNs = r.pick(std::vector<std::string>{"/", "/", "/robot", "/a/b"});
    s.midPct = r.pick(std::vector<int>{0, 5, 20, 60}); s.yieldPct = r.pick(std::vector<int>{0, 10, 40, 80});
    // loaders: [0] is pluginlib, others are registered afterwards; types may be declared by several of them
    std::vector<TypeDef> d0; d0.push_back({"t/A", 0}); if (r.chance(70)) d0.push_back({"t/B", 0}); if (r.chance(30)) d0.push_back({"t/T", r.range(1, 3)}); s.loaders.push_back(d0);
    extraLoaders = r.pick(std::vector<int>{0, 0, 1, 1, 2});
    for (int i = 0; i < extraLoaders; ++i) {
      std::vector<TypeDef> d; std::string own = "x/C" + std::to_string(i); d.push_back({own, 0});
      if (r.chance(40)) d.push_back({"t/A", r.chance(70) ? 0 : r.range(1, 3)}); if (r.chance(30)) d.push_back({"x/S", r.chance(70) ? 0 : r.range(1, 3)});
      if (r.chance(25)) d.push_back({"x/T" + std::to_string(i), r.range(1, 3)}); if (r.chance(25)) d.push_back({"x/N" + std::to_string(i), 4});
      for (size_t k = d.size(); k > 1; --k) std::swap(d[k - 1], d[r.below(k)]);
      s.loaders.push_back(d);
    }
    // now and then a loader declares more or fewer types after a reload; the last loader may be registered later
    if (r.chance(50)) for (auto& l : s.loaders) for (auto& d : l) if (r.chance(50)) (r.chance(50) ? d.from : d.until) = r.range(1, 2);
    std::set<std::string> ts; for (auto& l : s.loaders) for (auto& d : l) ts.insert(d.type); allTypes.assign(ts.begin(), ts.end());
    if (extraLoaders && r.chance(30)) { late = s.loaders.back(); s.loaders.pop_back(); --extraLoaders; }
    s.gen.assign(s.loaders.size(), 0); publishPlugins();
    validNames = {"a", "b", "c", "d", "ns/f"}; if (r.chance(30)) validNames.push_back("/g");
    if (r.chance(35)) { static const std::vector<std::string> alike{"aa", "A", "ns/a", "f", "b_", "ab"}; for (int k = r.range(1, 2); k > 0; --k) { std::string x = r.pick(alike); if (std::find(validNames.begin(), validNames.end(), x) == validNames.end()) validNames.push_back(x); } }  // easily confused with others
    if (r.chance(9)) { big = r.pick(std::vector<int>{4, 5, 6, 7, 8, 9, 9, 17, 17, 33, 40}); for (int k = 0; k < big; ++k) validNames.push_back("m" + std::to_string(k)); wantLoaded = (size_t)(big * r.range(50, 110) / 100); apart = r.chance(60); }
    names = validNames; if (r.chance(40)) for (auto n : {"a/", "g", "ns", "/a", "/ns/f"}) if (r.chance(30)) names.push_back(n);
    if (r.chance(60)) for (auto n : {"9x", "bad name", "", "nope"}) if (r.chance(50)) names.push_back(n);
    int nres = big ? r.range(big < 10 ? big / 2 : big, 3 * big) : r.range(2, 6);
    for (auto& n : validNames) configure(n, nres);
    s.hw.reset(new MonHW);
    { RtPause p; s.cm.reset(new controller_manager::ControllerManager(s.hw.get(), ros::NodeHandle(s.rootNs))); }
    for (int i = 1; i <= extraLoaders; ++i) s.cm->registerControllerLoader(std::make_shared<MonLoader>("loader" + std::to_string(i), i));
    PlugReg::get().onLoader = [] { Ev e{LRELOAD}; e.n = 0; S->add(e); ++S->gen[0]; publishPlugins(); };
    s.nextScript = [this] { return script(); };
    run.reset(new Runner(s)); run->resetPct = r.pick(std::vector<int>{0, 5, 20, 60}); run->maxPeriodMs = r.pick(std::vector<int>{1, 10, 50, 400});
    s.now = r.pick(std::vector<int64_t>{1000000000000LL, 1000000000000LL, 1000000000000LL, 999999999LL, 2147483646500000001LL, 4000000000000000000LL, 1700000000123456789LL, 0LL}); if (s.now == 0) run->zeroFor = r.range(1, 60); run->periodKind = r.pick(std::vector<int>{0, 0, 0, 0, 1, 2, 3, 4});
    s.fine = r.pick(std::vector<int>{0, 0, 30, 300, 2000}); s.fineRnd[0] = r.u64() | 1; s.fineRnd[1] = r.u64() | 1; if (s.fine) { s.rearm(0); s.rearm(1); }
    ros::Time t; t.fromNSec((uint64_t)s.now); ros::Time::setNow(t);
  }
  int nres_ = 4;
  void configure(const std::string& n, int nres) {
    nres_ = nres; NameCfg c; int ncl = r.pick(std::vector<int>{0, 1, 1, 1, 2, 2}); bool selfDup = ncl == 2 && r.chance(12);
    for (int k = 0; k < ncl; ++k) { hardware_interface::InterfaceResources ir; ir.hardware_interface = r.chance(50) ? "iface::Pos" : "iface::Eff"; if (k == 1) ir.hardware_interface = c.claims[0].hardware_interface == "iface::Pos" ? "iface::Eff" : "iface::Pos"; int m = r.chance(3) ? r.range(3, 12) : r.range(r.chance(10) ? 0 : 1, 2); for (int j = 0; j < m; ++j) ir.resources.insert((apart && !r.chance(3) ? n + "." : std::string("r")) + std::to_string(r.below(nres)) + (r.chance(6) ? "/x" : "")); c.claims.push_back(ir); }
    if (ncl == 2) { if (selfDup && !c.claims[0].resources.empty()) c.claims[1].resources.insert(*c.claims[0].resources.begin()); else for (auto& x : c.claims[0].resources) c.claims[1].resources.erase(x); }
    if (ncl == 2 && r.chance(10)) c.claims[1].hardware_interface = c.claims[0].hardware_interface;
    c.init = r.chance(86) ? 0 : r.range(1, 3); s.cfg[ns(n)] = c; setType(n);
  }
  void setType(const std::string& n) {
    std::string key = ns(n) + "/type"; { auto& p = ros::stub::Params::get(); std::lock_guard<std::mutex> g(p.m); p.v.erase(ros::stub::cleanName(key)); } nameType.erase(ns(n));
    int k = (int)r.below(30);
    if (k == 0) return; if (k == 1) { ros::stub::setParam(key, XmlRpc::XmlRpcValue(3)); return; }
    std::string t = k == 2 ? std::string("t/Unknown") : r.pick(allTypes);
    if (k == 3) { static const std::vector<std::string> near{"", "t", "t/", "t/AA", "t/a", "x/C", "/A", " t/A", "t/A "}; t = r.pick(near); } ros::stub::setParam(key, XmlRpc::XmlRpcValue(t)); nameType[ns(n)] = t;
  }
  bool finiteOnly = true;
  Script script() {
    vh::Rng& q = s.wrk; Script c; c.accept = !q.chance(8);
    auto seq = [&](std::vector<int>& v, int& end) { int n = q.chance(45) ? 0 : q.range(1, 6); for (int i = 0; i < n; ++i) v.push_back(q.chance(12) ? (q.chance(50) ? 0 : 2) : 1); end = q.chance(80) ? 0 : 2; if (!finiteOnly && q.chance(60)) end = 1; };
    seq(c.global, c.globalEnd); for (auto& n : validNames) seq(c.per[n], c.perEnd[n]);
    return c;
  }
  Strs pickNames(int maxN) { Strs o; int n = r.range(0, maxN); for (int i = 0; i < n; ++i) o.push_back(r.chance(88) ? r.pick(validNames) : r.pick(names)); if (!o.empty() && r.chance(12)) o.push_back(o[r.below(o.size())]); return o; }
  std::string nearMiss(const std::string& n) { switch (r.below(6)) { case 0: return n + "/"; case 1: return "/" + n; case 2: return n.substr(0, n.size() - 1); case 3: return n.substr(1); case 4: return n + n; default: { std::string o = n; for (auto& c : o) c = (char)toupper(c); return o; } } }
  // loaded controllers as seen by the driver (name, running) to bias requests towards effective ones
  std::vector<std::pair<std::string, bool>> view; std::map<std::string, std::set<std::string>> viewRes;
  Req request() {
    Req q; int k = (int)r.below(100); q.api = r.chance(30);
    if (view.size() < wantLoaded && r.chance(view.empty() || big ? 80 : 50)) k = 0;
    if (k < 25) { q.k = LOAD; q.name = r.chance(85) ? r.pick(validNames) : r.pick(names); if (r.chance(70)) { Strs cand; for (auto& n : validNames) { bool l = false; for (auto& v : view) l |= v.first == n; if (!l) cand.push_back(n); } if (!cand.empty()) q.name = r.pick(cand); } bool l = false; for (auto& v : view) l |= v.first == q.name; if (!l && r.chance(25) && std::find(validNames.begin(), validNames.end(), q.name) != validNames.end()) configure(q.name, nres_); }
    else if (k < 40) { q.k = UNLOAD; q.name = r.chance(85) ? r.pick(validNames) : r.pick(names); if (r.chance(70) && !view.empty()) q.name = r.pick(view).first; if (!view.empty() && r.chance(12)) q.name = nearMiss(r.pick(view).first); }
    else if (k < 88) {
      q.k = SWITCH;
      int s3 = (int)r.below(100); q.strictness = s3 < 45 ? 2 : s3 < 85 ? 1 : 0;
      int some = big && r.chance(40) ? 90 : 42, odd = big && r.chance(60) ? 0 : 4;
      if (r.chance(75) && !view.empty()) { for (auto& v : view) { int c = (int)r.below(100); if (v.second) { if (c < some - 2) q.stop.push_back(v.first); else if (c < some - 2 + odd) q.start.push_back(v.first); } else { if (c < some + 3) q.start.push_back(v.first); else if (c < some + 3 + odd) q.stop.push_back(v.first); } }
        for (size_t i = q.start.size(); i > 1; --i) std::swap(q.start[i - 1], q.start[r.below(i)]); if (!q.start.empty() && r.chance(10)) q.start.push_back(r.pick(q.start)); if (!q.stop.empty() && r.chance(10)) q.stop.push_back(r.pick(q.stop)); if (r.chance(8)) q.start.push_back(r.pick(names)); if (r.chance(8)) q.stop.push_back(r.pick(names)); if (r.chance(4)) (r.chance(50) ? q.start : q.stop).push_back(nearMiss(r.pick(view).first)); }
      else { q.start = pickNames(3); q.stop = pickNames(3); }
      if (r.chance(12)) { // one controller for a resource that a running one has: in its place, beside it, or along with others
        std::vector<std::pair<std::string, std::string>> pairs; for (auto& a : view) if (a.second) for (auto& b : view) if (!b.second) for (auto& x : viewRes[a.first]) if (viewRes[b.first].count(x)) { pairs.push_back({a.first, b.first}); break; }
        if (!pairs.empty()) { auto p = r.pick(pairs); Strs keep; if (r.chance(25)) for (auto& n : q.start) if (n != p.first && n != p.second) keep.push_back(n); keep.insert(keep.begin() + r.below(keep.size() + 1), p.second); q.start = keep; q.stop.clear(); if (r.chance(35)) q.stop.push_back(p.first); else if (r.chance(30)) { auto& o = r.pick(view); if (o.second && o.first != p.first) q.stop.push_back(o.first); } }
      }
      q.asap = r.chance(40); q.timeout = r.chance(50) ? 0 : r.pick(std::vector<double>{0.5, 1, 2, 0.05, 0.5, 1, 2, 0.05, 0.25, 1.75, 3, 0.001, 0.0001, 1e-6}); if (big && q.timeout > 0.5) q.timeout = 0.5; q.mode = r.pick(std::vector<int>{0, 0, 0, 1, 2, 3}); finiteOnly = q.timeout == 0;
    }
    else if (k < 95) { q.k = r.chance(65) ? LIST : TYPES; q.api = false; }
    else { q.k = RELOAD; q.force = r.chance(70); q.api = false; finiteOnly = true; }
    if (q.k == LOAD) { std::string err; q.validName = ros::stub::validName(q.name, err); q.ns = ns(q.name); q.hasType = nameType.count(q.ns); if (q.hasType) q.type = nameType[q.ns]; q.init = s.cfg.count(q.ns) ? s.cfg[q.ns].init : 0; }
    if (q.k != SWITCH) { q.mode = r.chance(15) ? 1 : 0; finiteOnly = true; }
    return q;
  }
  // state of the listing without touching the log
  void refresh() { size_t n; { std::lock_guard<std::mutex> g(s.lm); n = s.log.size(); } (void)n; controller_manager_msgs::ListControllers srv; run->call("list_controllers", srv); view.clear(); viewRes.clear(); for (auto& c : srv.response.controller) { view.push_back({c.name, c.state == "running"}); for (auto& h : c.claimed_resources) for (auto& x : h.resources) viewRes[c.name].insert(x); } }
};
}
