// C12: the real controller manager under real threads. One thread runs control cycles without pause, 2-4 threads issue
// requests; delays are injected at function boundaries of the manager and at callbacks. The sanitizer of the build (TSan
// or ASan) watches memory; results, final state and callbacks are checked by searching for an equivalent order of requests.
// The harness itself adds no synchronisation between the threads while they run (thread-local logs, relaxed atomics).
#include <algorithm>
#include <atomic>
#include <thread>
#include <time.h>
#include <sched.h>
#include <sys/syscall.h>
#include <controller_manager/controller_manager.h>
#include <controller_manager/controller_loader_interface.h>
#include "vh.h"
using vh::H; using vh::Rng; using controller_interface::ControllerBase; using hardware_interface::ControllerInfo;
typedef std::vector<std::string> Strs;
#define NOINS __attribute__((no_instrument_function))
#if defined(__SANITIZE_THREAD__)
#define NOSAN __attribute__((no_instrument_function, no_sanitize("thread")))
#else
#define NOSAN __attribute__((no_instrument_function))
#endif
enum Kind { LOAD, UNLOAD, SWITCH, LIST, RELOAD, TYPES, LOOKUP };
struct Op { Kind k; std::string name; Strs start, stop; int strictness = 2; bool asap = false, force = false, api = false; double timeout = 0; int ongoing = 0; bool error = false; bool ok = false, sd = false; int64_t t0 = 0, t1 = 0; std::vector<std::pair<std::string, std::string>> listed; Strs names; int thread = 0; };
struct Fate { int id; std::string name; bool init; int starts, stops, updates; bool bad; };
struct ThreadLog { std::vector<Fate> destroyed; };
static thread_local ThreadLog* tLog = nullptr; static thread_local Op* tOp = nullptr; static thread_local int64_t tVirt = 0; static thread_local bool tService = false;
static std::atomic<long> gDown{0};   // ROS is shut down at this many injection points from now
static thread_local uint64_t tRnd = 0; static thread_local int tDelay = 0; static thread_local long tDelays = 0;
NOSAN static int64_t mono() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (int64_t)t.tv_sec * 1000000000LL + t.tv_nsec; }
NOSAN static inline void maybeDelay(unsigned odds) {
  if (!tDelay) return; tRnd ^= tRnd << 13; tRnd ^= tRnd >> 7; tRnd ^= tRnd << 17; uint64_t r = tRnd >> 20;
  if (r % odds) return; r /= odds; ++tDelays; if (gDown.load(std::memory_order_relaxed) > 0 && gDown.fetch_sub(1, std::memory_order_relaxed) == 1) ros::stub::okFlag().store(false, std::memory_order_relaxed);
  switch (r % 4) { case 0: syscall(SYS_sched_yield); break; case 1: { for (volatile int i = 0; i < (int)(r / 4 % 2000); ++i) {} break; } default: { timespec t{0, (long)(1000 + r / 4 % (tDelay > 1 ? 400000 : 60000))}; syscall(SYS_nanosleep, &t, nullptr); } }
}
extern "C" {
NOSAN void __cyg_profile_func_enter(void*, void*) { maybeDelay(tDelay > 1 ? 150 : 700); }
NOSAN void __cyg_profile_func_exit(void*, void*) { maybeDelay(tDelay > 1 ? 150 : 700); }
// requests see a wall clock that runs fast, so that they reach their time-outs
NOSAN int clock_gettime(clockid_t id, struct timespec* t) {
  long r = syscall(SYS_clock_gettime, id, t); if (r) return -1;
  if (tService) { if (tOp && tOp->timeout > 0) tVirt += 25000000; int64_t n = (int64_t)t->tv_sec * 1000000000LL + t->tv_nsec + tVirt; t->tv_sec = n / 1000000000LL; t->tv_nsec = n % 1000000000LL; }
  return 0;
}
}
struct World;
static World* W = nullptr;
struct NameCfg { std::vector<std::string> claims; bool initOk = true; };
struct Ctl;
struct World { std::map<std::string, NameCfg> cfg; std::atomic<int> nextId{0}; int reloads = 0; };
struct Ctl : ControllerBase {
  int id; std::string name; bool init = false; int touched = 0, starts = 0, stops = 0, updates = 0; bool bad = false, live = false;
  Ctl() : id(W->nextId.fetch_add(1, std::memory_order_relaxed)) { maybeDelay(4); }
  ~Ctl() override { ++touched; if (live) bad = true; if (tLog) tLog->destroyed.push_back({id, name, init, starts, stops, updates, bad}); maybeDelay(4); }
  void starting(const ros::Time&) override { ++touched; ++starts; maybeDelay(6); ++touched; }
  void stopping(const ros::Time&) override { ++touched; ++stops; maybeDelay(6); ++touched; }
  void waiting(const ros::Time&) override { ++touched; maybeDelay(6); }
  void aborting(const ros::Time&) override { ++touched; maybeDelay(6); }
  void update(const ros::Time&, const ros::Duration&) override { ++touched; live = true; ++updates; maybeDelay(10); live = false; ++touched; }
  bool initRequest(hardware_interface::RobotHW*, ros::NodeHandle&, ros::NodeHandle& nh, ClaimedResources& claimed) override {
    ++touched; name = nh.getNamespace().substr(1); const NameCfg& c = W->cfg.at(name); maybeDelay(3); if (!c.initOk) return false;
    claimed.clear(); for (auto& r : c.claims) { hardware_interface::InterfaceResources ir; ir.hardware_interface = "I"; ir.resources.insert(r); claimed.push_back(ir); }
    init = true; state_ = ControllerState::INITIALIZED; return true;
  }
};
struct Hw : hardware_interface::RobotHW {
  // like real hardware, keeps what prepareSwitch computed in plain members for doSwitch
  std::list<ControllerInfo> a, b; mutable int left = 0; bool err = false; int prepares = 0, commits = 0; mutable int touched = 0; bool mismatch = false, pending = false;
  bool prepareSwitch(const std::list<ControllerInfo>& x, const std::list<ControllerInfo>& y) override { ++touched; ++prepares; a = x; b = y; left = tOp ? tOp->ongoing : 0; err = tOp ? tOp->error : false; pending = true; maybeDelay(3); return true; }
  static bool same(const std::list<ControllerInfo>& x, const std::list<ControllerInfo>& y) { if (x.size() != y.size()) return false; auto i = x.begin(); auto j = y.begin(); for (; i != x.end(); ++i, ++j) if (i->name != j->name) return false; return true; }
  void doSwitch(const std::list<ControllerInfo>& x, const std::list<ControllerInfo>& y) override { ++touched; ++commits; if (!same(x, a) || !same(y, b) || !pending) mismatch = true; pending = false; maybeDelay(3); }
  SwitchState switchResult() const override { ++touched; if (left < 0) return SwitchState::ONGOING; if (left > 0) { --left; return SwitchState::ONGOING; } return err ? SwitchState::ERROR : SwitchState::DONE; }
  SwitchState switchResult(const ControllerInfo&) const override { return switchResult(); }
};
struct Loader : controller_manager::ControllerLoaderInterface {
  Loader() : ControllerLoaderInterface("stress") {}
  controller_interface::ControllerBaseSharedPtr createInstance(const std::string&) override { return controller_interface::ControllerBaseSharedPtr(new Ctl); }
  Strs getDeclaredClasses() override { maybeDelay(6); return Strs{"T"}; }
  void reload() override { ++W->reloads; maybeDelay(3); }
};
// ---------------------------------------------------------------- sequential specification
struct Inst { std::string name; int k; bool running; int starts, stops; bool operator==(const Inst& o) const { return name == o.name && k == o.k && running == o.running && starts == o.starts && stops == o.stops; } };
struct St { std::vector<Inst> v; std::map<std::string, std::vector<std::pair<int, int>>> made; int reloads = 0;  // made: per name, counts of every initialised instance
  std::string key() const { std::ostringstream o; for (auto& i : v) o << i.name << i.k << i.running << ','; o << '|' << reloads; for (auto& m : made) { o << m.first; for (auto& c : m.second) o << c.first << '/' << c.second << ' '; } return o.str(); }
  Inst* find(const std::string& n) { for (auto& i : v) if (i.name == n) return &i; return nullptr; } };
static bool gCounts = true, gWide = false;
static const St* gGoal = nullptr;
static void start1(St& s, Inst& i) { i.running = true; if (gCounts) s.made[i.name][i.k].first++; }
static void stop1(St& s, Inst& i) { i.running = false; if (gCounts) s.made[i.name][i.k].second++; }
static void apply(const Op& o, const St& s0, std::vector<St>& out) {
  St s = s0;
  if (o.sd && !o.ok) {   // ended by the shutdown of ROS: may have taken effect nonetheless, switches and reloads also in part
    if (o.k == LOAD) { auto c = W->cfg.find(o.name); if (c != W->cfg.end() && c->second.initOk && !s.find(o.name)) { auto& m = s.made[o.name]; s.v.push_back({o.name, (int)m.size(), false, 0, 0}); m.push_back({0, 0}); out.push_back(s); } }
    if (o.k == UNLOAD) { Inst* i = s.find(o.name); if (i && !i->running) { s.v.erase(s.v.begin() + (i - s.v.data())); out.push_back(s); } }
    if (o.k == RELOAD) { for (auto& i : s.v) if (i.running) stop1(s, i); out.push_back(s); while (!s.v.empty()) { s.v.erase(s.v.begin()); out.push_back(s); } }
    out.push_back(s0); s = s0; if (o.k != SWITCH) return;
  }
  switch (o.k) {
    case LOAD: { auto c = W->cfg.find(o.name); bool ok = c != W->cfg.end() && c->second.initOk && !s.find(o.name); if (ok != o.ok) return;
      if (ok) { auto& m = s.made[o.name]; s.v.push_back({o.name, (int)m.size(), false, 0, 0}); m.push_back({0, 0}); } out.push_back(s); return; }
    case UNLOAD: { Inst* i = s.find(o.name); bool ok = i && !i->running; if (ok != o.ok) return; if (ok) s.v.erase(s.v.begin() + (i - s.v.data())); out.push_back(s); return; }
    case LIST: { if (o.listed.size() != s.v.size()) return; for (size_t i = 0; i < s.v.size(); ++i) if (o.listed[i].first != s.v[i].name || (o.listed[i].second == "running") != s.v[i].running) return; out.push_back(s); return; }
    case LOOKUP: { if ((s.find(o.name) != nullptr) == o.ok) out.push_back(s); return; }
    case TYPES: { if (o.names != Strs{"T"} || !o.ok) return; out.push_back(s); return; }
    case RELOAD: {
      if (!s.v.empty() && !o.force) { if (!o.ok) out.push_back(s); return; }
      if (!o.ok) return; for (auto& i : s.v) if (i.running) stop1(s, i); s.v.clear(); ++s.reloads; out.push_back(s); return; }
    case SWITCH: {
      std::set<std::string> a(o.start.begin(), o.start.end()), b(o.stop.begin(), o.stop.end()); bool strict = o.strictness == 2, ok = true; std::set<std::string> ea, eb;
      for (auto& n : b) { Inst* i = s.find(n); if (!i || !i->running) { if (strict) ok = false; } else eb.insert(n); }
      for (auto& n : a) { Inst* i = s.find(n); if (!i) { if (strict) ok = false; } else if (i->running) { if (eb.count(n)) ok = false; else if (strict) ok = false; } else ea.insert(n); }
      if (ok) { std::set<std::string> used; for (auto& i : s.v) if ((i.running && !eb.count(i.name)) || ea.count(i.name)) for (auto& c : W->cfg[i.name].claims) if (!used.insert(c).second) ok = false; }
      if (!ok) { if (!o.ok) out.push_back(s); return; }
      if (o.sd && !o.ok) { for (auto& n : eb) stop1(s, *s.find(n)); out.push_back(s); if (o.asap && ea.size() > 8) { /* too many subsets: the one the outcome shows; others make the search inconclusive */ gWide = true; St p = s; for (auto& n : ea) { Inst* i = p.find(n); for (auto& g : gGoal->v) if (g.name == n && g.k == i->k && g.running) { start1(p, *i); break; } } out.push_back(p); } else if (o.asap) { Strs v(ea.begin(), ea.end()); for (int m = 1; m < 1 << v.size(); ++m) { St p = s; for (size_t i = 0; i < v.size(); ++i) if (m >> i & 1) start1(p, *p.find(v[i])); out.push_back(p); } } return; }
      if (o.error || o.timeout > 0) {   // may be aborted by the hardware, or withdrawn, at any point: nothing, stopped only, or complete
        if (!o.ok && !o.error) out.push_back(s);
        St p = s; for (auto& n : eb) stop1(p, *p.find(n)); if (!o.ok || o.error) out.push_back(p);
        if (o.ok && !o.error) { for (auto& n : ea) start1(p, *p.find(n)); out.push_back(p); } return;
      }
      if (!o.ok) return; for (auto& n : eb) stop1(s, *s.find(n)); for (auto& n : ea) start1(s, *s.find(n)); out.push_back(s); return; }
  }
}
struct Search {
  std::vector<std::vector<Op>>& t; const std::string& goal; const St* last = nullptr; std::set<std::string> seen; long steps = 0; std::vector<size_t> pos; bool found = false; std::vector<const Op*> order;
  Search(std::vector<std::vector<Op>>& t_, const std::string& g) : t(t_), goal(g), pos(t_.size(), 0) {}
  void go(const St& s) {
    if (found || ++steps > 200000) return; bool all = true; int64_t first = INT64_MAX;
    for (size_t i = 0; i < t.size(); ++i) if (pos[i] < t[i].size()) { all = false; first = std::min(first, t[i][pos[i]].t1); }
    if (all) { if (s.key() == goal) found = true; return; }
    std::string k; for (auto p : pos) k += (char)('0' + p); k += s.key(); if (!seen.insert(k).second) return;
    for (size_t i = 0; i < t.size() && !found; ++i) {
      if (pos[i] >= t[i].size() || t[i][pos[i]].t0 > first) continue; const Op& o = t[i][pos[i]]; std::vector<St> nx; apply(o, s, nx);
      ++pos[i]; order.push_back(&o); for (auto& n : nx) { go(n); if (found) return; } order.pop_back(); --pos[i];
    }
  }
};
static std::string opStr(const Op& o) {
  static const char* n[] = {"load", "unload", "switch", "list", "reload", "types", "lookup"}; std::ostringstream s; s << "T" << o.thread << " " << n[o.k] << "(" << o.name; if (o.k == SWITCH) { s << "start:"; for (auto& x : o.start) s << " " << x; s << " stop:"; for (auto& x : o.stop) s << " " << x; s << " strictness=" << o.strictness << " asap=" << o.asap << " timeout=" << o.timeout << " hw=" << o.ongoing << (o.error ? " error" : ""); } if (o.k == RELOAD) s << "force=" << o.force; s << ")" << (o.api ? "[api]" : "") << " -> " << (o.ok ? "ok" : "fail") << (o.sd ? " (shut down)" : ""); if (o.k == LIST) for (auto& l : o.listed) s << " " << l.first << ":" << l.second; s << "  @" << o.t0 % 1000000000 << ".." << o.t1 % 1000000000; return s.str();
}
typedef std::function<bool(void*, void*)> Fn;
struct Services { Fn load, unload, sw, list, reload, types; };
template <class S> struct Call { typename S::Request q; typename S::Response r; bool go(const Fn& f) { return f(&q, &r); } };
static void doOp(controller_manager::ControllerManager& cm, const Services& sv, Op& o) {
  tOp = &o; tVirt = 0; o.t0 = mono();
  switch (o.k) {
    case LOAD: if (o.api) o.ok = cm.loadController(o.name); else { Call<controller_manager_msgs::LoadController> c; c.q.name = o.name; o.ok = c.go(sv.load) && c.r.ok; } break;
    case UNLOAD: if (o.api) o.ok = cm.unloadController(o.name); else { Call<controller_manager_msgs::UnloadController> c; c.q.name = o.name; o.ok = c.go(sv.unload) && c.r.ok; } break;
    case SWITCH: if (o.api) o.ok = cm.switchController(o.start, o.stop, o.strictness, o.asap, o.timeout); else { Call<controller_manager_msgs::SwitchController> c; c.q.start_controllers = o.start; c.q.stop_controllers = o.stop; c.q.strictness = o.strictness; c.q.start_asap = o.asap; c.q.timeout = o.timeout; o.ok = c.go(sv.sw) && c.r.ok; } break;
    case LIST: { Call<controller_manager_msgs::ListControllers> c; o.ok = c.go(sv.list); for (auto& x : c.r.controller) o.listed.push_back({x.name, x.state}); break; }
    case RELOAD: { Call<controller_manager_msgs::ReloadControllerLibraries> c; c.q.force_kill = o.force; o.ok = c.go(sv.reload) && c.r.ok; break; }
    case TYPES: { Call<controller_manager_msgs::ListControllerTypes> c; o.ok = c.go(sv.types); o.names = c.r.types; break; }
    case LOOKUP: o.ok = cm.getControllerByName(o.name) != nullptr; break;
  }
  o.t1 = mono(); tOp = nullptr; o.sd = !ros::stub::okFlag().load(std::memory_order_relaxed);
}
static void oneCase(Rng& r, long) {
  World w; W = &w; bool big = r.chance(8), longer = !big && r.chance(8); Strs nm = r.chance(70) ? Strs{"a", "b", "c", "d", "e"} : Strs{"arm", "arm2", "ar", "arm/x", "Arm"}; if (big) { int n = r.range(8, 30); for (int i = 0; i < n; ++i) nm.push_back("arm_" + std::to_string(i)); }
  auto& params = ros::stub::Params::get(); params.frozen = false; ros::stub::clearParams();
  for (auto n : nm) { NameCfg c; c.initOk = !r.chance(10); int k = r.range(0, 2); for (int i = 0; i < k; ++i) { std::string x = "r" + std::to_string(r.range(0, big ? 90 : 4)); if (std::find(c.claims.begin(), c.claims.end(), x) == c.claims.end()) c.claims.push_back(x); } w.cfg[n] = c; ros::stub::setParam("/" + n + "/type", "T"); }
  ros::Time t0; t0.fromNSec(1000000000000ULL); ros::Time::setNow(t0); params.frozen = true;
  auto hw = std::unique_ptr<Hw>(new Hw); ros::NodeHandle nh; auto cm = std::unique_ptr<controller_manager::ControllerManager>(new controller_manager::ControllerManager(hw.get(), nh)); cm->registerControllerLoader(std::make_shared<Loader>());
  Services sv; { auto& m = ros::stub::Services::get().v; auto g = [&](const char* n) { return m.at(std::string("/controller_manager/") + n); }; sv.load = g("load_controller"); sv.unload = g("unload_controller"); sv.sw = g("switch_controller"); sv.list = g("list_controllers"); sv.reload = g("reload_controller_libraries"); sv.types = g("list_controller_types"); }
  bool resets = r.chance(15); gCounts = !resets; int intensity = r.range(0, 2); bool mixApi = r.chance(35); bool down = r.chance(12); long downAfter = down ? r.range(1, r.chance(50) ? 12 : 120) : 0, lastCycles = r.chance(40) ? 1000000000 : r.range(0, 3);
  // requests
  int nt = r.range(2, 4), per = nt == 4 ? 3 : r.range(2, 4); if (big) { nt = r.range(2, 6); per = nt > 4 ? 2 : r.range(1, 3); } if (longer) { nt = 2; per = r.range(5, 12); } std::vector<std::vector<Op>> ops(nt); int focus = r.range(0, 3); std::vector<std::string> pool; int np = big ? (int)nm.size() : r.range(2, 5); for (int i = 0; i < np; ++i) pool.push_back(nm[i]); bool withTimeouts = r.chance(25), hwErrors = r.chance(12);
  auto subset = [&](int pct) { Strs o; for (auto& n : pool) if (r.chance(pct)) o.push_back(n); if (r.chance(5)) o.push_back("zz"); if (!o.empty() && r.chance(8)) o.push_back(o[0]); return o; };
  for (int t = 0; t < nt; ++t) for (int i = 0; i < per; ++i) {
    Op o; o.thread = t; int p = r.range(0, 99); if (focus == 1) p = p / 2 + (p > 60 ? 20 : 0); if (focus == 2) p = 40 + p * 40 / 100;
    if (p < 25) o.k = LOAD; else if (p < 45) o.k = UNLOAD; else if (p < 80) o.k = SWITCH; else if (p < 90) o.k = mixApi && r.chance(50) ? LOOKUP : LIST; else if (p < 97) o.k = mixApi ? LIST : RELOAD; else o.k = TYPES;
    o.name = o.k == LOAD || o.k == UNLOAD || o.k == LOOKUP ? r.chance(4) ? std::string("zz") : r.pick(pool) : ""; o.api = mixApi && (o.k == LOAD || o.k == UNLOAD || o.k == SWITCH) && r.chance(60);
    if (o.k == SWITCH) { o.start = subset(r.chance(50) ? 40 : 20); o.stop = subset(r.chance(50) ? 30 : 10); o.strictness = r.chance(55) ? 1 : 2; o.asap = r.chance(25); o.ongoing = r.chance(60) ? 0 : r.range(1, 6); if (withTimeouts && !o.asap && r.chance(50)) { o.timeout = 0.01; if (r.chance(60)) o.ongoing = -1; } if (hwErrors && o.timeout == 0 && r.chance(30)) o.error = true; if (down && !o.error && o.timeout == 0 && r.chance(25)) o.ongoing = -1; }
    o.force = r.chance(60); ops[t].push_back(o);
  }
  // the control loop
  std::atomic<bool> stop{false}; std::atomic<long> cyc{0}; std::atomic<bool> ended{false}; ThreadLog loopLog; long loopDelays = 0; uint64_t seedL = r.u64() | 1;
  std::thread loop([&] {
    tLog = &loopLog; tRnd = seedL; tDelay = intensity; long n = 0; uint64_t q = seedL;
    while (!stop.load(std::memory_order_relaxed)) { if (!ros::stub::okFlag().load(std::memory_order_relaxed) && lastCycles-- <= 0) { ended.store(true, std::memory_order_relaxed); break; } ++n; ros::Time t; t.fromNSec(1000000000000ULL + n); ros::Duration d; d.fromNSec(1000); q = q * 6364136223846793005ULL + 1442695040888963407ULL; cm->update(t, d, resets && (q >> 60) == 0); cyc.store(n, std::memory_order_relaxed); if ((q >> 40) % 16 == 0) { timespec ts{0, (long)((q >> 20) % 30000)}; syscall(SYS_nanosleep, &ts, nullptr); } }
    loopDelays = tDelays; tLog = nullptr; tDelay = 0;
  });
  // progress is judged by control cycles: a request that is outstanding for ages while the loop runs, or a loop that stands still
  auto watch = [&](std::atomic<int>& done, int nt) {
    int64_t begin = mono(), lastMove = begin; long lastCyc = -1, doneBefore = 0, cycAtDone = cyc.load(std::memory_order_relaxed);
    while (done.load(std::memory_order_relaxed) < nt) {
      timespec ts{0, 200000}; syscall(SYS_nanosleep, &ts, nullptr); long c = cyc.load(std::memory_order_relaxed); int64_t n = mono(); if (c != lastCyc || ended.load(std::memory_order_relaxed)) { lastCyc = c; lastMove = n; }
      if (done.load(std::memory_order_relaxed) != doneBefore) { doneBefore = done.load(std::memory_order_relaxed); cycAtDone = c; begin = n; }
      if ((n - begin > 60000000000LL && (c - cycAtDone > 20000 || ended.load(std::memory_order_relaxed))) || n - lastMove > 60000000000LL) {
        H().fail("deadlock", n - lastMove > 60000000000LL ? "the control loop stands still" : std::string(ros::ok() ? "" : "after the shutdown of ROS ") + "requests did not return although the control loop ran on for " + std::to_string(c - cycAtDone) + " cycles"); H().finish(); fflush(nullptr); _exit(1);
      }
    }
  };
  // initial population
  St s0; ThreadLog mainLog; tLog = &mainLog; std::vector<std::vector<Op>> pre(1); Strs initial;
  for (auto& n : pool) if (r.chance(big ? 85 : 60)) { Op o; o.k = LOAD; o.name = n; pre[0].push_back(o); initial.push_back(n); }
  for (int i = r.range(0, 2); i > 0 && !initial.empty(); --i) { Op o; o.k = SWITCH; o.strictness = 1; o.start = {r.pick(initial)}; pre[0].push_back(o); }
  std::string bad;
  auto alone = [&](std::vector<Op>& v) { std::atomic<int> d{0}; std::thread t([&] { tLog = &mainLog; for (auto& o : v) doOp(*cm, sv, o); d.store(1, std::memory_order_relaxed); }); watch(d, 1); t.join(); };
  alone(pre[0]);
  for (auto& o : pre[0]) { std::vector<St> nx; apply(o, s0, nx); if (nx.size() != 1) bad += "sequential request with a wrong result: " + opStr(o) + "\n"; else s0 = nx[0]; }
  // concurrent requests
  std::vector<ThreadLog> logs(nt); std::vector<std::thread> th; std::atomic<int> ready{0}; std::atomic<int> done{0}; std::vector<uint64_t> seeds; for (int i = 0; i < nt; ++i) seeds.push_back(r.u64() | 1); std::vector<long> dl(nt, 0);
  for (int i = 0; i < nt; ++i) th.emplace_back([&, i] {
    tLog = &logs[i]; tService = true; tRnd = seeds[i]; tDelay = 0; ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) syscall(SYS_sched_yield); tDelay = intensity;
    for (auto& o : ops[i]) { maybeDelay(3); doOp(*cm, sv, o); }
    dl[i] = tDelays; tService = false; tDelay = 0; done.fetch_add(1, std::memory_order_relaxed);
  });
  gDown.store(downAfter, std::memory_order_relaxed);
  if (down) { /* at the latest when the other requests are done, those that never end of themselves need it */ std::thread([&] { timespec ts{0, 20000000}; syscall(SYS_nanosleep, &ts, nullptr); ros::stub::okFlag().store(false, std::memory_order_relaxed); }).join(); }
  watch(done, nt);
  for (auto& t : th) t.join(); gDown.store(0, std::memory_order_relaxed);
  std::vector<Op> last(1); last[0].k = LIST; alone(last); Op& fin = last[0];
  stop.store(true, std::memory_order_relaxed); loop.join();
  if (down) {   // a request that was cut short leaves the superseded list behind: the next request disposes of it
    ros::stub::okFlag().store(true, std::memory_order_relaxed); ros::Time t; t.fromNSec(2000000000000LL); cm->update(t, ros::Duration(0.001), false); std::vector<Op> v(1); v[0].k = UNLOAD; v[0].name = "zz"; alone(v);
  }
  // observed outcome
  std::map<std::string, ControllerBase*> byName; for (auto& l : fin.listed) byName[l.first] = cm->getControllerByName(l.first);
  std::vector<Fate> fates; for (auto& n : byName) if (auto* c = dynamic_cast<Ctl*>(n.second)) fates.push_back({c->id, c->name, c->init, c->starts, c->stops, c->updates, c->bad}); else bad += "listed controller cannot be looked up: " + n.first + "\n";
  std::vector<Fate> dead = loopLog.destroyed; if (!dead.empty()) bad += "a controller was destroyed by the control loop\n";
  dead.insert(dead.end(), mainLog.destroyed.begin(), mainLog.destroyed.end()); for (auto& l : logs) dead.insert(dead.end(), l.destroyed.begin(), l.destroyed.end());
  fates.insert(fates.end(), dead.begin(), dead.end()); std::sort(fates.begin(), fates.end(), [](const Fate& x, const Fate& y) { return x.id < y.id; });
  if ((int)fates.size() != w.nextId) bad += "instances created " + std::to_string(w.nextId.load()) + ", listed or destroyed " + std::to_string(fates.size()) + "\n";
  for (size_t i = 0; i + 1 < fates.size(); ++i) if (fates[i].id == fates[i + 1].id) bad += "instance destroyed twice or while listed\n";
  for (auto& f : fates) { if (f.bad) bad += "instance of " + f.name + " destroyed in the middle of a callback\n"; if (!f.init && (f.starts || f.stops || f.updates)) bad += "uninitialised instance was called\n"; }
  if (hw->mismatch) bad += "hardware was given other lists than prepared, or a switch was committed twice\n"; if (hw->commits > hw->prepares) bad += "more hardware switches than prepared\n";
  if (hw->commits < hw->prepares) { bool wd = false; for (auto& t : ops) for (auto& o : t) if (o.k == SWITCH && (o.timeout > 0 || o.sd) && !o.ok) wd = true; if (down) wd = true; if (!wd) bad += "a prepared switch was never committed\n"; }
  if (resets) { for (auto& f : fates) { bool run = false; for (auto& l : fin.listed) if (l.first == f.name && l.second == "running" && dynamic_cast<Ctl*>(byName[f.name]) && static_cast<Ctl*>(byName[f.name])->id == f.id) run = true; if (f.starts - f.stops != (run ? 1 : 0)) bad += "starts and stops of " + f.name + " do not match its state\n"; } }
  // is there an order of the requests that explains everything?
  St g; for (auto& l : fin.listed) { int k = -1; for (auto& f : fates) if (f.init && f.name == l.first) ++k; g.v.push_back({l.first, k, l.second == "running", 0, 0}); }
  for (auto& f : fates) if (f.init) g.made[f.name].push_back(gCounts ? std::make_pair(f.starts, f.stops) : std::make_pair(0, 0)); for (auto& m : s0.made) g.made[m.first]; g.reloads = w.reloads; std::string goal = g.key();
  auto dump = [&] { std::ostringstream o; o << "initial:"; for (auto& i : s0.v) o << " " << i.name << (i.running ? "*" : ""); o << "\n"; std::vector<const Op*> all; for (auto& t : ops) for (auto& x : t) all.push_back(&x); std::sort(all.begin(), all.end(), [](const Op* x, const Op* y) { return x->t0 < y->t0; }); for (auto x : all) o << opStr(*x) << "\n"; o << "final:"; for (auto& l : fin.listed) o << " " << l.first << ":" << l.second; o << "  instances:"; for (auto& f : fates) o << " " << f.name << "#" << f.id << " started " << f.starts << " stopped " << f.stops; o << " reloads " << w.reloads << "\n"; return o.str(); };
  if (!bad.empty()) H().fail("concurrent-bookkeeping", bad + dump());
  gGoal = &g; gWide = false; Search se(ops, goal); se.go(s0); gGoal = nullptr;
  if (!se.found) { if (se.steps > 200000 || gWide) H().count("inconclusive searches"); else H().fail("no-equivalent-order", "no order of the requests explains the outcome:\n" + dump()); }
  // destruction
  ros::stub::okFlag().store(true, std::memory_order_relaxed); cm.reset(); W = nullptr; tLog = nullptr; params.frozen = false;
  { std::set<int> ids; size_t n = 0; for (auto* l : {&mainLog, &loopLog}) for (auto& f : l->destroyed) { ids.insert(f.id); ++n; } for (auto& l : logs) for (auto& f : l.destroyed) { ids.insert(f.id); ++n; } if (n != ids.size() || (int)n != w.nextId) H().fail("destruction", "after the manager's destruction " + std::to_string(n) + " destructions of " + std::to_string(w.nextId.load()) + " instances\n" + dump()); }
  // coverage
  long overlaps = 0; std::vector<const Op*> all; for (auto& t : ops) for (auto& x : t) all.push_back(&x); for (auto a : all) for (auto b : all) if (a->thread < b->thread && a->t0 < b->t1 && b->t0 < a->t1) ++overlaps;
  H().count("requests", (long)all.size()); H().count("overlapping pairs of requests", overlaps); H().count("control cycles", cyc.load()); long d = loopDelays; for (auto x : dl) d += x; H().count("injected delays", d); H().count("searched states", se.steps);
  for (auto a : all) { if (a->k == SWITCH && a->ok) H().count("accepted switches"); if (a->k == SWITCH && a->timeout > 0 && !a->ok) H().count("switches refused or withdrawn"); if (a->k == UNLOAD && a->ok) H().count("unloads"); if (a->k == LOAD && a->ok) H().count("loads"); if (a->k == RELOAD && a->ok) H().count("library reloads"); if (a->sd) H().count("requests ended after the shutdown of ROS"); if (a->sd && !a->ok) H().count("requests refused after the shutdown of ROS"); if (a->api) H().count("direct calls"); }
  std::string ev; { std::vector<std::pair<int64_t, std::string>> e; for (auto a : all) { std::string n = std::to_string(a->thread) + "." + std::to_string(a->k) + (a->ok ? "+" : "-"); e.push_back({a->t0, "(" + n}); e.push_back({a->t1, ")" + n}); } std::sort(e.begin(), e.end()); for (auto& x : e) ev += x.second; }
  for (auto& l : fin.listed) ev += "|" + l.first + l.second; H().seen(vh::hashStr(ev)); { std::string o; for (auto x : se.order) o += std::to_string(x->thread); H().seenSub("request orders", vh::hashStr(o + "/" + std::to_string(all.size()))); }
  if (H().evaluations % 97 == 1) H().sample(dump());
}
int main(int argc, char** argv) {
  H().args(argc, argv); ros::stub::logOn() = false; if (H().prop.empty()) H().prop = "C12";
  H().rule = "distinct orders of request beginnings and ends with their kinds and results, and the final listing";
#if defined(__SANITIZE_THREAD__)
  H().loop("tsan", H().cases(12000, 150000), oneCase);
#else
  H().loop("asan", H().cases(8000, 100000), oneCase);
#endif
  H().require("overlapping pairs of requests", 500); H().require("accepted switches", 100); H().require("unloads", 50); H().require("loads", 100); H().require("control cycles", 5000); H().require("injected delays", 500); H().require("library reloads", 5); H().require("requests ended after the shutdown of ROS", 20);
  return H().finish();
}
