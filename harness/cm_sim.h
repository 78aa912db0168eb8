// Simulated robot around the real controller_manager::ControllerManager: monitored hardware, controllers and loaders,
// one worker thread for service requests and one driver thread for control cycles, handing over to each other at
// every sleep / log statement / callback of the service thread and inside control cycles. Everything that happens is
// recorded in one event log.
#pragma once
#include <atomic>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <thread>
#include <time.h>
#include <sys/syscall.h>
#include <controller_manager/controller_manager.h>
#include <controller_manager/controller_loader_interface.h>
#include "vh.h"
namespace sim {
using controller_interface::ControllerBase;
using hardware_interface::RobotHW;
using hardware_interface::ControllerInfo;
using hardware_interface::InterfaceResources;
typedef std::vector<std::string> Strs;
typedef std::vector<InterfaceResources> Claims;

// ---------------------------------------------------------------- cooperative threads
extern thread_local bool tIsWorker;
extern thread_local bool tInCoop;    // inside the hand-over machinery itself
extern thread_local bool tInRt;      // inside a control cycle (real-time context)
extern thread_local int tSuspend;    // harness code running inside the real-time context
struct CoopScope { CoopScope() { tInCoop = true; } ~CoopScope() { tInCoop = false; } };
struct Coop {
  std::mutex m; std::condition_variable cv;
  std::function<void()> job; bool posted = false, done = true, sleeping = false, quit = false; int grant = 0;
  long sleeps = 0, yields = 0, forced = 0; std::atomic<int64_t> voff{0}; std::atomic<int64_t> stepNs{0};
  std::thread th;
  static Coop*& cur() { static Coop* c = nullptr; return c; }
  static Coop& get() { if (!cur()) { cur() = new Coop; cur()->start(); } return *cur(); }
  static void abandon() { cur() = nullptr; }  // leave a stuck worker behind
  void start();
  void workerYield(int64_t advance, bool isSleep) {
    voff += advance;
    CoopScope cs; std::unique_lock<std::mutex> l(m); sleeping = true; if (isSleep) ++sleeps; else ++yields; cv.notify_all();
    cv.wait(l, [&] { return grant > 0; }); grant = 0; sleeping = false;
  }
  void post(std::function<void()> f) { std::lock_guard<std::mutex> l(m); job = f; posted = true; done = false; sleeping = false; grant = 0; cv.notify_all(); }
  bool await(int ms) { std::unique_lock<std::mutex> l(m); return cv.wait_for(l, std::chrono::milliseconds(ms), [&] { return done || (sleeping && grant == 0); }); }
  bool isDone() { std::lock_guard<std::mutex> l(m); return done; }
  bool isSleeping() { std::lock_guard<std::mutex> l(m); return sleeping && grant == 0; }
  void resume() { std::lock_guard<std::mutex> l(m); if (sleeping) { grant = 1; cv.notify_all(); } }
};
extern thread_local volatile unsigned char tSel, tArm;  // system-call trap of the real-time oracle (armed there only)
struct RtPause { RtPause() { ++tSuspend; tSel = 0; } ~RtPause() { if (!--tSuspend && tInRt) tSel = tArm; } };

// ---------------------------------------------------------------- events
enum Kind { REQ_BEGIN, REQ_END, CYC_BEGIN, CYC_END, CB, PREPARE, DOSWITCH, CONSTRUCT, DESTROY, INIT_BEGIN, INIT_END, LCREATE, LRELOAD, PROBE };
enum CbKind { UPDATE, START, STOP, WAIT, ABORT };
inline const char* cbName(int k) { static const char* n[] = {"update", "start", "stop", "wait", "abort"}; return n[k]; }
enum St { CONSTRUCTED, INITIALIZED, RUNNING, STOPPED, WAITING, ABORTED, UNKNOWN };
inline const char* stName(int s) { static const char* n[] = {"constructed", "initialized", "running", "stopped", "waiting", "aborted", "unknown"}; return n[s]; }
struct Listed { std::string name, type, state; std::string claims; int inst = -1; };
struct Ev {
  Kind k; bool rt = false; int cycle = -1; int inst = -1; int cb = -1; int64_t t = 0, p = 0; bool flag = false; int n = -1; int64_t wall = 0;
  std::string s, s2; std::vector<std::string> a, b; std::vector<Listed> listed; std::map<int, int> states;
};
std::string claimsStr(const Claims& c);
inline std::string infoStr(const ControllerInfo& i) { return i.name + "|" + i.type + "|" + claimsStr(i.claimed_resources); }
inline std::string claimsStr(const Claims& c) { std::string o; for (auto& r : c) { o += r.hardware_interface + "{"; for (auto& x : r.resources) o += x + ","; o += "}"; } return o; }

enum ReqKind { LOAD, UNLOAD, SWITCH, LIST, RELOAD, TYPES };
struct Req { ReqKind k = LIST; std::string name; Strs start, stop; int strictness = 2; bool asap = false; double timeout = 0; bool force = false, api = false; bool ok = false; bool returned = false; int mode = 0; bool hasType = false, validName = true; std::string type, ns; int init = 0; };
inline std::string reqStr(const Req& r) {
  std::ostringstream o; auto l = [&](const Strs& v) { o << "["; for (auto& x : v) o << x << " "; o << "]"; };
  switch (r.k) {
    case LOAD: o << "load(" << r.name << ")"; break; case UNLOAD: o << "unload(" << r.name << ")"; break; case LIST: o << "list()"; break; case TYPES: o << "types()"; break;
    case RELOAD: o << "reload(force=" << r.force << ")"; break;
    case SWITCH: o << "switch(start="; l(r.start); o << ",stop="; l(r.stop); o << ",strictness=" << r.strictness << ",asap=" << r.asap << ",timeout=" << r.timeout << ",loop=" << r.mode << ")"; break;
  }
  if (r.returned) o << "->" << r.ok; return o.str();
}
// what the hardware reports, per control cycle since the switch was committed
struct Script { bool accept = true; std::vector<int> global; int globalEnd = 0; std::map<std::string, std::vector<int>> per; std::map<std::string, int> perEnd;
  int at(int c) const { return c < (int)global.size() ? global[c] : globalEnd; }
  int at(int c, const std::string& n) const { auto it = per.find(n); if (it == per.end()) return 0; return c < (int)it->second.size() ? it->second[c] : perEnd.at(n); } };

struct NameCfg { Claims claims; int init = 0; };  // init: 0 ok, 1 false, 2 std exception, 3 int
struct TypeDef { std::string type; int behaviour; int from = 0, until = 1 << 30; };  // behaviour: 0 ok, 1 runtime_error, 2 logic_error, 3 int, 4 null; declared while from <= number of reloads of its loader < until
struct Sim;
extern Sim* S;
struct Mon;

struct Sim {
  std::mutex lm; std::vector<Ev> log; std::map<int, Mon*> alive; int nextInst = 0;
  int cycle = -1; bool inCycle = false; int64_t now = 1000000000000LL;
  std::map<std::string, NameCfg> cfg; std::string rootNs;
  std::vector<Script> scripts; int curScript = -1; int commitCycle = -1; std::function<Script()> nextScript;
  std::vector<std::vector<TypeDef>> loaders;  // [0] = pluginlib
  std::vector<int> gen;                       // reloads of each loader so far
  bool declares(size_t i, const TypeDef& d) const { int g = i < gen.size() ? gen[i] : 0; return g >= d.from && g < d.until; }
  std::unique_ptr<RobotHW> hw; std::unique_ptr<controller_manager::ControllerManager> cm;
  bool midAllowed = false, stirred = false;  // stirred: the service thread may have run during this cycle
  int midPct = 0; int yieldPct = 0; vh::Rng drv{1}, wrk{2}; bool monitoring = true;
  long midSteps = 0;
  // fine-grained interleaving: with the manager's functions instrumented, either thread may hand over at any function entry or exit
  int fine = 0; long fineRt = 0, fineSvc = 0, fineN = 0; uint64_t fineRnd[2] = {0, 0};
  void rearm(int w) { uint64_t& x = fineRnd[w]; x ^= x << 13; x ^= x >> 7; x ^= x << 17; (w ? fineSvc : fineRt) = 1 + (long)((x >> 11) % (uint64_t)(2 * fine)); }
  void hook();
  // RT self-observation used by the real-time oracle
  Ev& push(Ev e) { e.rt = tInRt; e.cycle = inCycle ? cycle : -1; log.push_back(std::move(e)); return log.back(); }
  void add(Ev e) { std::lock_guard<std::mutex> g(lm); push(std::move(e)); }
  void midStep() {
    if (!midAllowed || !tInRt || !drv.chance(midPct)) return;
    Coop& c = Coop::get(); if (!c.isSleeping()) return;
    ++midSteps; stirred = true; c.resume(); c.await(3);
  }
  void yieldPoint() { if (tIsWorker && wrk.chance(yieldPct)) Coop::get().workerYield(0, false); }
};

inline void Sim::hook() {
  if (!fine) return;
  if (tInRt) { if (tSuspend || --fineRt > 0) return; RtPause p; rearm(0); if (!midAllowed) return; Coop& c = Coop::get(); if (!c.isSleeping()) return; ++midSteps; stirred = true; ++fineN; c.resume(); c.await(3); }
  else if (tIsWorker && !tInCoop) { if (--fineSvc > 0) return; rearm(1); if (Coop::cur()) { ++fineN; Coop::get().workerYield(0, false); } }
}
struct Mon : ControllerBase {
  int id; uint32_t magic = 0xC0FFEE11;
  explicit Mon() { RtPause p; std::lock_guard<std::mutex> g(S->lm); id = S->nextInst++; S->alive[id] = this; Ev e{CONSTRUCT}; e.inst = id; S->push(e); }
  ~Mon() override { RtPause p; if (magic != 0xC0FFEE11) { fprintf(stderr, "MONITOR: controller destroyed twice\n"); abort(); } magic = 0xDEAD; std::lock_guard<std::mutex> g(S->lm); S->alive.erase(id); Ev e{DESTROY}; e.inst = id; S->push(e); }
  void cb(int k, const ros::Time& t, int64_t per) {
    RtPause p; if (magic != 0xC0FFEE11) { fprintf(stderr, "MONITOR: callback on a destroyed controller\n"); abort(); }
    { std::lock_guard<std::mutex> g(S->lm); Ev e{CB}; e.inst = id; e.cb = k; e.t = (int64_t)t.toNSec(); e.p = per; S->push(e); }
    S->midStep();
  }
  void starting(const ros::Time& t) override { cb(START, t, 0); }
  void stopping(const ros::Time& t) override { cb(STOP, t, 0); }
  void waiting(const ros::Time& t) override { cb(WAIT, t, 0); }
  void aborting(const ros::Time& t) override { cb(ABORT, t, 0); }
  void update(const ros::Time& t, const ros::Duration& d) override { cb(UPDATE, t, d.toNSec()); }
  bool initRequest(RobotHW* hw, ros::NodeHandle& root, ros::NodeHandle& nh, ClaimedResources& claimed) override {
    NameCfg c; { std::lock_guard<std::mutex> g(S->lm); c = S->cfg[nh.getNamespace()]; Ev e{INIT_BEGIN}; e.inst = id; e.s = root.getNamespace(); e.s2 = nh.getNamespace(); e.flag = hw == S->hw.get(); S->push(e); }
    S->yieldPoint();
    Ev e{INIT_END}; e.inst = id; e.n = c.init; e.s = claimsStr(c.claims); S->add(e);
    if (c.init == 2) throw std::logic_error("init failed"); if (c.init == 3) throw 42; if (c.init == 1) return false;
    claimed = c.claims; state_ = ControllerState::INITIALIZED; return true;
  }
};
inline int stateOf(const ControllerBase& c) { if (c.isRunning()) return RUNNING; if (c.isInitialized()) return INITIALIZED; if (c.isStopped()) return STOPPED; if (c.isWaiting()) return WAITING; if (c.isAborted()) return ABORTED; return CONSTRUCTED; }

struct MonHW : RobotHW {
  bool prepareSwitch(const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b) override {
    RtPause p; Script sc = S->nextScript ? S->nextScript() : Script(); bool ok = sc.accept;
    { std::lock_guard<std::mutex> g(S->lm); S->scripts.push_back(sc); Ev e{PREPARE}; for (auto& i : a) e.a.push_back(infoStr(i)); for (auto& i : b) e.b.push_back(infoStr(i)); e.flag = ok; e.n = (int)S->scripts.size() - 1; S->push(e); if (ok) { S->curScript = e.n; S->commitCycle = -1; } }
    S->yieldPoint(); return ok;
  }
  void doSwitch(const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b) override {
    RtPause p; { std::lock_guard<std::mutex> g(S->lm); Ev e{DOSWITCH}; e.flag = S->stirred; for (auto& i : a) e.a.push_back(infoStr(i)); for (auto& i : b) e.b.push_back(infoStr(i)); S->push(e); S->commitCycle = S->cycle; }
    S->midStep();
  }
  static SwitchState conv(int v) { return v == 0 ? SwitchState::DONE : v == 1 ? SwitchState::ONGOING : SwitchState::ERROR; }
  SwitchState switchResult() const override { RtPause p; std::lock_guard<std::mutex> g(S->lm); if (S->curScript < 0 || S->commitCycle < 0) return SwitchState::DONE; return conv(S->scripts[S->curScript].at(S->cycle - S->commitCycle)); }
  SwitchState switchResult(const ControllerInfo& c) const override { RtPause p; std::lock_guard<std::mutex> g(S->lm); if (S->curScript < 0 || S->commitCycle < 0) return SwitchState::DONE; return conv(S->scripts[S->curScript].at(S->cycle - S->commitCycle, c.name)); }
};
inline ControllerBase* make(const TypeDef& d, int loader) {
  { Ev e{LCREATE}; e.n = loader; e.s = d.type; S->add(e); } S->yieldPoint();
  switch (d.behaviour) { case 1: throw std::runtime_error("construct"); case 2: throw std::logic_error("construct"); case 3: throw 7; case 4: return nullptr; default: return new Mon; }
}
struct MonLoader : controller_manager::ControllerLoaderInterface {
  int idx; MonLoader(const std::string& n, int i) : ControllerLoaderInterface(n), idx(i) {}
  controller_interface::ControllerBaseSharedPtr createInstance(const std::string& t) override {
    for (auto& d : S->loaders[idx]) if (d.type == t && S->declares(idx, d)) { ControllerBase* p = make(d, idx); return controller_interface::ControllerBaseSharedPtr(p); }
    Ev e{LCREATE}; e.n = idx; e.s = "?" + t; S->add(e); return nullptr;
  }
  Strs getDeclaredClasses() override { Strs o; for (auto& d : S->loaders[idx]) if (S->declares(idx, d)) o.push_back(d.type); return o; }
  void reload() override { Ev e{LRELOAD}; e.n = idx; S->add(e); ++S->gen[idx]; }
};

// ---------------------------------------------------------------- running cycles and requests
struct Runner {
  Sim& s; vh::Rng& r; int resetPct = 8; bool frozen = false; int maxPeriodMs = 50, periodKind = 0, zeroFor = 0; std::vector<Req> reqs; bool hung = false; std::string hangWhat; long cyclesTotal = 0;
  std::function<void()> rtEnter, rtLeave;
  Runner(Sim& s_) : s(s_), r(s_.drv) {}
  void cycle(int forceReset = -1) {
    // periodKind: 1 odd nanoseconds, 2 period unrelated to the time passed, 3 now and then several cycles at one time or a long gap, 4 a fixed one that hits timeouts exactly
    int64_t per = frozen || zeroFor > 0 ? 0 : (int64_t)r.range(1, maxPeriodMs) * 1000000LL; if (per && periodKind == 1) per += r.range(-999999, 999999); if (per && periodKind == 3 && r.chance(20)) per = r.chance(80) ? 0 : r.range(1000, 3000) * 1000000LL;
    if (per && periodKind == 4) per = 250000000LL;
    if (zeroFor > 0) --zeroFor;  // simulated time has not begun to run
    s.now += per; int64_t pr = per ? per : 1000000LL; if (periodKind == 2) pr = r.pick(std::vector<int64_t>{0, 1, 1000000, 999999999, 1000000000, 2500000001LL, 30000000000LL});
    ros::Time t; t.fromNSec((uint64_t)s.now); ros::Time::setNow(t); ros::Duration d; d.fromNSec(pr);
    bool reset = forceReset >= 0 ? forceReset : r.chance(resetPct);
    { std::lock_guard<std::mutex> g(s.lm); ++s.cycle; s.inCycle = true; Ev e{CYC_BEGIN}; e.wall = Coop::get().voff.load(); e.t = s.now; e.p = pr; e.flag = reset; s.push(e); }
    s.stirred = !Coop::get().isSleeping(); if (rtEnter) rtEnter(); tInRt = true; tSel = tArm; s.cm->update(t, d, reset); tSel = 0; tInRt = false; if (rtLeave) rtLeave();
    { std::lock_guard<std::mutex> g(s.lm); Ev e{CYC_END}; for (auto& a : s.alive) e.states[a.first] = stateOf(*a.second); s.push(e); s.inCycle = false; }
    ++cyclesTotal;
  }
  static std::vector<Listed> listing(const controller_manager_msgs::ListControllers::Response& res) {
    std::vector<Listed> o;
    for (auto& c : res.controller) { Listed l; l.name = c.name; l.type = c.type; l.state = c.state; for (auto& h : c.claimed_resources) { l.claims += h.hardware_interface + "{"; for (auto& x : h.resources) l.claims += x + ","; l.claims += "}"; } o.push_back(l); }
    return o;
  }
  template <class Srv> bool call(const std::string& n, Srv& srv) { return ros::stub::callService(ros::stub::cleanName(s.rootNs + "/controller_manager/" + n), srv.request, srv.response); }
  // listing and lookup by name with no request in progress
  uint64_t probes = 0; std::set<std::string> everListed;
  void probe() {
    controller_manager_msgs::ListControllers srv; Ev e{PROBE}; e.flag = call("list_controllers", srv); e.listed = listing(srv.response);
    // in any order, so that no lookup is always preceded by the same one; names that were loaded once are tried as well
    uint64_t h = vh::mix(++probes, vh::hashStr(e.listed.empty() ? "" : e.listed[0].name)); auto shuffle = [&](std::vector<std::string>& v) { for (size_t i = v.size(); i > 1; --i) { h = vh::mix(h, i); std::swap(v[i - 1], v[h % i]); } };
    std::map<std::string, Listed*> there; std::vector<std::string> order, near{"nope", "", "a_", "/a"}; for (auto& l : e.listed) there[l.name] = &l; for (auto& n : everListed) if (!there.count(n)) order.push_back(n); for (auto& l : e.listed) { order.push_back(l.name); everListed.insert(l.name); } shuffle(order);
    auto look = [&](const std::string& n) { ControllerBase* c = s.cm->getControllerByName(n); auto it = there.find(n); if (it == there.end()) { if (c) e.s += std::string("lookup of '") + n + "' returned a controller; "; return; } Listed& l = *it->second; l.inst = -1; std::lock_guard<std::mutex> g(s.lm); for (auto& a : s.alive) if (a.second == c) l.inst = a.first; };
    for (auto& n : order) look(n);
    for (auto& l : e.listed) { near.push_back(l.name + "/"); near.push_back("/" + l.name); near.push_back(l.name.substr(0, l.name.size() / 2)); near.push_back(l.name + l.name); }
    for (auto& n : near) if (!there.count(n)) look(n);
    if (!order.empty()) look(order[h / 7 % order.size()]);
    s.add(e);
  }
  void run(Req& q) {
    Coop& c = Coop::get();
    Ev b{REQ_BEGIN}; b.n = (int)reqs.size(); b.t = s.now; b.wall = c.voff.load(); s.add(b); int myIdx = b.n; reqs.push_back(q);
    Req* qp = &q; Ev end{REQ_END}; end.n = myIdx; Ev* ep = &end;
    c.stepNs = 0;     c.post([this, qp, ep] {
      Req& q = *qp;
      switch (q.k) {
        case LOAD: if (q.api) q.ok = s.cm->loadController(q.name); else { controller_manager_msgs::LoadController v; v.request.name = q.name; ep->flag = call("load_controller", v); q.ok = v.response.ok; } break;
        case UNLOAD: if (q.api) q.ok = s.cm->unloadController(q.name); else { controller_manager_msgs::UnloadController v; v.request.name = q.name; ep->flag = call("unload_controller", v); q.ok = v.response.ok; } break;
        case SWITCH: if (q.api) q.ok = s.cm->switchController(q.start, q.stop, q.strictness, q.asap, q.timeout); else { controller_manager_msgs::SwitchController v; v.request.start_controllers = q.start; v.request.stop_controllers = q.stop; v.request.strictness = q.strictness; v.request.start_asap = q.asap; v.request.timeout = q.timeout; ep->flag = call("switch_controller", v); q.ok = v.response.ok; } break;
        case RELOAD: { controller_manager_msgs::ReloadControllerLibraries v; v.request.force_kill = q.force; ep->flag = call("reload_controller_libraries", v); q.ok = v.response.ok; } break;
        case LIST: { controller_manager_msgs::ListControllers v; ep->flag = q.ok = call("list_controllers", v); ep->listed = listing(v.response); } break;
        case TYPES: { controller_manager_msgs::ListControllerTypes v; ep->flag = q.ok = call("list_controller_types", v); ep->a = v.response.types; ep->b = v.response.base_classes; } break;
      }
      q.returned = true; ep->wall = Coop::get().voff.load(); s.add(*ep);
    });
    int cycles = 0, stall = 0, unresp = 0; long sl0 = c.sleeps;
    if (q.mode == 1) stall = q.timeout > 0 ? 1000000 : r.range(5, 40);  // loop stalls
    bool midOk = q.k != LIST && q.k != TYPES; s.midAllowed = midOk;
    frozen = q.mode == 2; int64_t v0 = c.voff.load(), t0 = s.now;
    for (;;) {
      if (!c.await(20)) { ++unresp; ++c.forced; cycle(); ++cycles; if (unresp > 1500) { hang(q, "request neither returned nor slept"); return; } continue; }
      if (c.isDone()) break;
      int k;
      if (stall > 0 && c.sleeps > sl0) { k = 0; --stall; c.stepNs = (int64_t)(r.uniform(0.02, 0.4) * 1e9); }
      else if (q.mode == 2) { k = r.range(0, 2); c.stepNs = (int64_t)(r.uniform(0.02, 0.4) * 1e9); }
      else if (q.mode == 3) { k = r.range(0, 2); c.stepNs = (int64_t)(r.uniform(0, 0.3) * 1e9); }
      else { k = r.chance(10) ? 0 : r.range(1, r.chance(20) ? 4 : 1); c.stepNs = 0; }
      for (int i = 0; i < k; ++i) { cycle(); ++cycles; }
      if (c.isDone()) continue;
      if (cycles > 400 && (q.k != SWITCH || q.timeout == 0 || s.now - t0 > (int64_t)((q.timeout + 1) * 1e9))) { hang(q, "request did not return within 400 control cycles"); return; }
      if (c.sleeps - sl0 > (q.k == SWITCH && q.timeout > 0 && s.now - t0 <= (int64_t)((q.timeout + 1) * 1e9) && c.voff.load() - v0 <= (int64_t)((q.timeout + 30) * 1e9) ? 400000 : 20000)) { hang(q, "request still waiting"); return; }
      if (q.timeout > 0 && (q.mode == 1 || q.mode == 2) && c.voff.load() - v0 > (int64_t)((q.timeout + 30) * 1e9)) { hang(q, "switch with a timeout did not return long after it"); return; }
      c.resume();
    }
    s.midAllowed = false; frozen = false; c.stepNs = 0; reqs[myIdx] = q;
  }
  void hang(const Req& q, const std::string& w) { hung = true; hangWhat = w + ": " + reqStr(q); }
};
}
