// H06: robots without any hooks of their own (alone, nested, or as parts of a combined robot), driven end to end: typed
// controllers, the real controller manager, and the robot's own variables.
#include "vh.h"
#include <combined_robot_hw/combined_robot_hw.h>
#include <controller_interface/controller.h>
#include <controller_interface/multi_interface_controller.h>
#include <controller_manager/controller_manager.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/posvel_command_interface.h>
#include <atomic>
#include <functional>
#include <memory>
#include <thread>
extern "C" void simBlock(const char*) {}
using namespace hardware_interface; using vh::H; using vh::Rng; typedef std::string S; typedef std::vector<S> VS; typedef std::list<ControllerInfo> CL;
typedef PositionJointInterface PI; typedef VelocityJointInterface VI; typedef EffortJointInterface EI; typedef JointStateInterface SI; typedef PosVelJointInterface PVI;
struct Joint { double v[8]; int ifaces = 0; int part = 0; };   // pos vel eff, commands: position velocity effort, position+velocity
struct Part : RobotHW { PI p; VI v; EI e; SI s; PVI pv; };     // overrides nothing
struct Ctl;
struct Spec { int kind; VS joints[5]; };   // joints per interface: P V E S PV
struct World {
  Rng& r; std::map<S, Joint> joints; std::vector<std::unique_ptr<Part>> own; std::unique_ptr<combined_robot_hw::CombinedRobotHW> comb; RobotHW* hw = nullptr; int parts = 1, made = 0; std::map<S, Spec> specs; std::map<S, Ctl*> live; std::map<double*, double> writes; long cycle = 0; S bad, what;
  explicit World(Rng& r) : r(r) {}
  void fill(Part& x, int part) {
    for (auto& j : joints) if (j.second.part == part) { double* d = j.second.v; int m = j.second.ifaces; JointStateHandle st(j.first, d, d + 1, d + 2); if (m & 1) x.p.registerHandle(JointHandle(st, d + 3)); if (m & 2) x.v.registerHandle(JointHandle(st, d + 4)); if (m & 4) x.e.registerHandle(JointHandle(st, d + 5)); if (m & 8) x.pv.registerHandle(PosVelJointHandle(st, d + 6, d + 7)); x.s.registerHandle(st); }
    x.registerInterface(&x.p); x.registerInterface(&x.v); x.registerInterface(&x.e); x.registerInterface(&x.s); x.registerInterface(&x.pv);
  }
};
static World* W = nullptr;
struct Ctl { S n; virtual ~Ctl() { if (W) W->live.erase(n); } long started = -1, stopped = -1, nStart = 0, nStop = 0, nWait = 0, nAbort = 0, nUpd = 0, from = 0; };
static S last(const ros::NodeHandle& nh) { S s = nh.getNamespace(); return s.substr(s.rfind('/') + 1); }
template <class B> struct Base : B, Ctl {
  std::vector<std::pair<JointHandle, int>> cmd; std::vector<PosVelJointHandle> pv; std::vector<JointStateHandle> st;
  void note(ros::NodeHandle& nh) { n = last(nh); W->live[n] = this; }
  void take(PI* i) { for (auto& j : W->specs[n].joints[0]) cmd.emplace_back(i->getHandle(j), 3); } void take(VI* i) { for (auto& j : W->specs[n].joints[1]) cmd.emplace_back(i->getHandle(j), 4); } void take(EI* i) { for (auto& j : W->specs[n].joints[2]) cmd.emplace_back(i->getHandle(j), 5); } void take(SI* i) { for (auto& j : W->specs[n].joints[3]) st.push_back(i->getHandle(j)); } void take(PVI* i) { for (auto& j : W->specs[n].joints[4]) pv.push_back(i->getHandle(j)); }
  void put(JointHandle& h, double* d, double v) { h.setCommand(v); W->writes[d] = v; }
  void look(const JointStateHandle& h) { const double* d = W->joints[h.getName()].v; H().count("joint states read by controllers"); if (h.getPosition() != d[0] || h.getVelocity() != d[1] || h.getEffort() != d[2]) W->bad = "controller " + n + " reads another state of joint " + h.getName() + " than the robot's"; }
  void command() { for (auto& c : cmd) { look(c.first); put(c.first, W->joints[c.first.getName()].v + c.second, W->r.uniform(-9, 9)); } for (auto& h : pv) { look(h); double a = W->r.uniform(-9, 9), b = W->r.uniform(-9, 9); double* d = W->joints[h.getName()].v; h.setCommandPosition(a); h.setCommandVelocity(b); W->writes[d + 6] = a; W->writes[d + 7] = b; } for (auto& h : st) look(h); }
  void starting(const ros::Time&) override { started = W->cycle; ++nStart; if (n.size() % 2) command(); }
  void stopping(const ros::Time&) override { stopped = W->cycle; ++nStop; } void waiting(const ros::Time&) override { ++nWait; } void aborting(const ros::Time&) override { ++nAbort; }
  void update(const ros::Time&, const ros::Duration&) override { ++nUpd; command(); }
};
template <class I> struct One : Base<controller_interface::Controller<I>> { bool init(I* i, ros::NodeHandle& nh) override { this->note(nh); this->take(i); return true; } };
template <class... I> struct Many : Base<controller_interface::MultiInterfaceController<I...>> { template <class X> void t(RobotHW* hw) { this->take(hw->get<X>()); } bool init(RobotHW* hw, ros::NodeHandle& nh) override { this->note(nh); int x[] = {(t<I>(hw), 0)...}; (void)x; return true; } };
static controller_interface::ControllerBase* build(int k) { switch (k) { case 0: return new One<PI>; case 1: return new One<VI>; case 2: return new One<EI>; case 3: return new One<SI>; case 4: return new One<PVI>; case 5: return new Many<PI, EI>; case 6: return new Many<VI, SI>; default: return new Many<PVI, VI, EI>; } }
static bool uses(int k, int i) { static const char* u[] = {"0", "1", "2", "3", "4", "05", "13", "412"}; if (k == 5) return i == 0 || i == 2; return S(u[k]).find((char)('0' + i)) != S::npos; }
static S list(const VS& v) { S o; for (auto& x : v) o += x + " "; return o; }
static std::vector<double> shot(World& w) { std::vector<double> o; for (auto& j : w.joints) o.insert(o.end(), j.second.v, j.second.v + 8); return o; }
static void one(Rng& r, long) {
  World w(r); W = &w; ros::stub::clearParams(); int style = (int)r.below(3); w.parts = style == 0 ? 1 : r.range(1, 4); int nj = r.range(1, 7); static const char* styles[] = {"a single robot", "a robot with nested ones", "a combined robot"};
  for (int i = 0; i < nj; ++i) { Joint& j = w.joints["j" + std::to_string(i)]; for (double& x : j.v) x = r.uniform(-5, 5); j.ifaces = r.range(0, 15); j.part = (int)r.below(w.parts); } w.what = S(styles[style]) + " of " + std::to_string(w.parts) + " parts and " + std::to_string(nj) + " joints";
  uint64_t sig = vh::hashStr(w.what); for (auto& j : w.joints) sig = vh::mix(sig, j.second.ifaces * 8 + j.second.part); H().count(styles[style]);
  ros::NodeHandle root("/"), nh("/robot");
  if (style < 2) { for (int i = 0; i < w.parts; ++i) { w.own.emplace_back(new Part); if (r.chance(30) && !w.own[i]->init(root, nh)) { H().fail("init", "the default initialisation of a robot without interfaces fails"); return; } w.fill(*w.own[i], i); if (i) w.own[0]->registerInterfaceManager(w.own[i].get()); } w.hw = w.own[0].get(); RobotHW* h = w.hw; if (!h->init(root, nh)) { H().fail("init", "the default initialisation fails"); return; } }
  else {
    auto& reg = pluginlib::stub::Registry<RobotHW>::get(); { std::lock_guard<std::mutex> g(reg.m); reg.v.clear(); } reg.declare("p/Plain", []() -> RobotHW* { Part* p = new Part; W->fill(*p, W->made++); return p; });
    XmlRpc::XmlRpcValue l = XmlRpc::XmlRpcValue::array(); for (int i = 0; i < w.parts; ++i) { S n = "part" + std::to_string(i); l.push_back(XmlRpc::XmlRpcValue(n)); ros::stub::setParam("/robot/" + n + "/type", XmlRpc::XmlRpcValue("p/Plain")); } ros::stub::setParam("/robot/robot_hardware", l);
    w.comb.reset(new combined_robot_hw::CombinedRobotHW); w.hw = w.comb.get(); if (!w.hw->init(root, nh)) { H().fail("init", "a combined robot of parts without hooks does not initialise"); return; }
  }
  { // the hooks themselves
    VS all; for (auto& j : w.joints) all.push_back(j.first); auto rnd = [&] { CL l; for (int k = r.range(0, 3); k > 0; --k) { ControllerInfo c; c.name = "x" + std::to_string(k); c.type = "t"; for (int q = r.range(0, 2); q > 0; --q) { InterfaceResources x; x.hardware_interface = r.chance(80) ? "hardware_interface::PositionJointInterface" : "no::Such"; for (auto& j : all) if (r.chance(40)) x.resources.insert(j); c.claimed_resources.push_back(x); } l.push_back(c); } return l; };
    RobotHW& h = *w.hw; auto before = shot(w); auto names = h.getNames(); typedef RobotHW::SwitchState St;
    for (int k = r.range(1, 4); k > 0; --k) { CL a = rnd(), b = rnd(); H().count("hooks tried"); if (h.switchResult() != St::DONE) { H().fail("result", w.what + ": not done while nothing is switching"); return; } if (!h.prepareSwitch(a, b)) { H().fail("prepare", w.what + " refuses a switch"); return; } h.doSwitch(a, b); if (h.switchResult() != St::DONE) { H().fail("result", w.what + ": a switch is not reported as done"); return; } for (auto& c : a) if (h.switchResult(c) != St::DONE) { H().fail("result", w.what + ": a controller's switch is not reported as done"); return; } ros::Time t(5.0); ros::Duration d(0.01); if (r.chance(50)) h.read(t, d); if (r.chance(50)) h.write(t, d); }
    if (shot(w) != before) { H().fail("hooks", w.what + ": the default hooks changed joint variables"); return; } if (h.getNames() != names) { H().fail("hooks", w.what + ": the default hooks changed the interfaces"); return; }
  }
  auto& reg = pluginlib::stub::Registry<controller_interface::ControllerBase>::get(); { std::lock_guard<std::mutex> g(reg.m); reg.v.clear(); } for (int k = 0; k < 8; ++k) reg.declare("t/K" + std::to_string(k), [k] { return build(k); });
  { controller_manager::ControllerManager cm(w.hw, ros::NodeHandle("/")); int nc = r.range(1, 5); VS names; std::set<S> running;
    for (int i = 0; i < nc; ++i) { S n = "c" + S(i % 3, 'x') + std::to_string(i); Spec& s = w.specs[n]; s.kind = (int)r.below(8); for (int k = 0; k < 5; ++k) if (uses(s.kind, k)) for (auto& j : w.joints) if (k == 3 || (j.second.ifaces & (k == 4 ? 8 : 1 << k))) if (r.chance(nj > 3 ? 35 : 50)) s.joints[k].push_back(j.first); names.push_back(n); ros::stub::setParam("/" + n + "/type", XmlRpc::XmlRpcValue("t/K" + std::to_string(s.kind))); sig = vh::mix(sig, vh::hashStr(n + list(s.joints[0]) + "/" + list(s.joints[1]) + "/" + list(s.joints[2]) + "/" + list(s.joints[4])) + s.kind); }
    int64_t now = 1000000000000LL; std::map<S, long> upd;
    auto cycle = [&]() -> bool {
      now += 1000000; ros::Time t; t.fromNSec((uint64_t)now); ros::Duration d(0.001); ++w.cycle; for (auto& j : w.joints) for (int k = 0; k < 3; ++k) j.second.v[k] = r.uniform(-5, 5);
      w.writes.clear(); auto before = shot(w); w.hw->read(t, d); cm.update(t, d); w.hw->write(t, d); auto after = shot(w); size_t i = 0; for (auto& j : w.joints) for (int k = 0; k < 8; ++k, ++i) { auto it = w.writes.find(&j.second.v[k]); double want = it == w.writes.end() ? before[i] : it->second; if (it != w.writes.end()) H().count("commands that arrived"); if (!vh::sameBits(after[i], want)) w.bad = "joint " + j.first + ": variable " + std::to_string(k) + " is " + vh::num(after[i]) + " instead of " + vh::num(want); } H().count("control cycles"); return w.bad.empty();
    };
    auto request = [&](std::function<bool()> f) { std::atomic<bool> done{false}; bool res = false; std::thread svc([&] { res = f(); done = true; }); int c = 0; for (; !done && c < 200000; ++c) { cycle(); std::this_thread::sleep_for(std::chrono::microseconds(20)); } if (!done) { H().fail("never-ends", w.what + ": a request did not end"); _exit(H().finish()); } svc.join(); cycle(); return res; };
    VS loaded; S now_;
    for (auto& n : names) { if (!request([&] { return cm.loadController(n); })) { H().fail("load", w.what + ": controller " + n + " does not load"); return; } loaded.push_back(n); H().step("load " + n + " of kind " + std::to_string(w.specs[n].kind)); }
    for (int k = r.range(2, 6); k > 0 && w.bad.empty(); --k) {
      VS start, stop; for (auto& n : loaded) { bool on = running.count(n) > 0; if (r.chance(on ? 35 : 45)) (on ? stop : start).push_back(n); } std::set<S> after = running; for (auto& n : stop) after.erase(n); for (auto& n : start) after.insert(n);
      std::map<S, int> occ; bool conflict = false; for (auto& n : after) for (int i = 0; i < 5; ++i) if (i != 3) for (auto& j : w.specs[n].joints[i]) if (++occ[j] > 1) conflict = true;
      for (auto& c : w.live) { c.second->started = c.second->stopped = -1; c.second->nStart = c.second->nStop = c.second->nWait = c.second->nAbort = 0; }
      bool asap = r.chance(50); double to = r.chance(70) ? 0 : 20; now_ = S(asap ? "as soon as possible: " : "") + "start " + list(start) + "stop " + list(stop) + (conflict ? "(conflict)" : ""); H().step(now_);
      bool ok = request([&] { return cm.switchController(start, stop, 2, asap, to); }); S ctx = w.what + ", " + now_ + ": ";
      if (ok == conflict) { H().fail(ok ? "conflict" : "refused", ctx + (ok ? "accepted in spite of a conflict" : "refused")); return; } H().count(ok ? "switches accepted" : "switches refused for conflicts"); if (ok) running = after;
      long c0 = -1; for (auto& x : w.live) { bool a = ok && std::count(start.begin(), start.end(), x.first), b = ok && std::count(stop.begin(), stop.end(), x.first); auto* c = x.second; if (c->nStart != a || c->nStop != b || c->nWait || c->nAbort) { H().fail("callbacks", ctx + "controller " + x.first + " was started " + std::to_string(c->nStart) + " times, stopped " + std::to_string(c->nStop) + ", waiting " + std::to_string(c->nWait) + ", aborted " + std::to_string(c->nAbort)); return; } for (long q : {c->started, c->stopped}) if (q >= 0) { if (c0 >= 0 && q != c0) { H().fail("cycle", ctx + "it took more than one cycle"); return; } c0 = q; } }
      for (int q = r.range(1, 5); q > 0; --q) { for (auto& x : w.live) x.second->nUpd = 0; if (!cycle()) break; for (auto& x : w.live) if (x.second->nUpd != (long)running.count(x.first)) { H().fail("updates", ctx + "controller " + x.first + (running.count(x.first) ? " is not updated once" : " is updated though it was not started")); return; } }
      sig = vh::mix(sig, vh::hashStr(list(start) + "/" + list(stop)));
    }
    if (!w.bad.empty()) { H().fail("data", w.what + ", " + now_ + ": " + w.bad); return; }
  }
  H().seen(sig); if (H().samples.size() < 2) H().sample(w.what);
}
int main(int argc, char** argv) {
  H().args(argc, argv); H().rule = "distinct = distinct (robot, controllers and joints, sequence of switches)"; H().loop("plain", H().cases(8000, 200000), [](Rng& r, long k) { one(r, k); W = nullptr; });
  for (auto s : {"switches accepted", "switches refused for conflicts", "commands that arrived", "joint states read by controllers", "hooks tried", "a single robot", "a robot with nested ones", "a combined robot"}) H().require(s, 50); return H().finish();
}
