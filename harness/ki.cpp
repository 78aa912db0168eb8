// K01: single- and multi-interface controllers against random robots (nested ones included), with leftovers of earlier claims,
// failing hooks, missing interfaces and repeated initialisation.
#include "hw_handles.h"
#include <controller_interface/controller.h>
#include <controller_interface/multi_interface_controller.h>
#include <hardware_interface/robot_hw.h>
using namespace hh; using vh::H;
namespace ci = controller_interface;
extern "C" void simBlock(const char*) {}
namespace kitest { struct OddInterface : HardwareResourceManager<JointHandle, ClaimResources> {}; struct PlainInterface : HardwareInterface {}; }
typedef VelocityJointInterface V; typedef EffortJointInterface E; typedef PositionJointInterface P; typedef JointStateInterface JS; typedef kitest::OddInterface O; typedef kitest::PlainInterface PL;
template <class I> S nm(); template <> S nm<V>() { return "hardware_interface::VelocityJointInterface"; } template <> S nm<E>() { return "hardware_interface::EffortJointInterface"; } template <> S nm<P>() { return "hardware_interface::PositionJointInterface"; }
template <> S nm<JS>() { return "hardware_interface::JointStateInterface"; } template <> S nm<O>() { return "kitest::OddInterface"; } template <> S nm<PL>() { return "kitest::PlainInterface"; }
static S sset(const std::set<S>& s) { S o; for (auto& x : s) o += x + " "; return o; }
struct Ctx {   // what the hooks shall do, and what they saw
  vh::Rng* r; RobotHW* robot; bool ok[2] = {true, true}; int calls[2] = {0, 0}; std::map<S, std::set<S>> took; std::map<S, bool> avail; bool sawWrong = false; S wrong; int cb[5] = {0, 0, 0, 0, 0}; S rootNs, ctrlNs;
  void bad(const S& w) { if (!sawWrong) wrong = w; sawWrong = true; }
};
template <class I> void take(Ctx& c, I* i) {   // takes some handles (and fails to take others)
  S t = nm<I>(); for (auto& n : i->getNames()) if (c.r->chance(40)) { i->getHandle(n); if (t != nm<JS>()) c.took[t].insert(n); }
  for (int k = c.r->range(0, 1); k > 0; --k) { try { i->getHandle("no such joint"); c.bad("an unregistered joint was found"); } catch (const HardwareInterfaceException&) {} }
}
template <> void take<PL>(Ctx& c, PL* i) { if (c.r->chance(50)) { i->claim("plain"); c.took[nm<PL>()].insert("plain"); } }
template <class B> struct Cb : B {
  Ctx* c; using B::B;
  void starting(const ros::Time&) override { ++c->cb[0]; } void update(const ros::Time&, const ros::Duration&) override { ++c->cb[1]; } void stopping(const ros::Time&) override { ++c->cb[2]; } void waiting(const ros::Time&) override { ++c->cb[3]; } void aborting(const ros::Time&) override { ++c->cb[4]; }
};
template <class I> struct Single : Cb<ci::Controller<I>> {
  using Cb<ci::Controller<I>>::c;
  bool hook(int k, I* hw) { ++c->calls[k]; if (hw != c->robot->template get<I>()) c->bad("the hook got another interface than the robot's"); take<I>(*c, hw); return c->ok[k]; }
  bool init(I* hw, ros::NodeHandle& nh) override { if (nh.getNamespace() != c->ctrlNs) c->bad("controller namespace is " + nh.getNamespace()); return hook(0, hw); }
  bool init(I* hw, ros::NodeHandle& root, ros::NodeHandle& nh) override { if (nh.getNamespace() != c->ctrlNs || root.getNamespace() != c->rootNs) c->bad("namespaces are wrong"); return hook(1, hw); }
};
template <class... I> struct Multi : Cb<ci::MultiInterfaceController<I...>> {
  typedef Cb<ci::MultiInterfaceController<I...>> Base; using Base::c;
  Multi(bool opt) : Base(opt) {}
  template <class X> void see(RobotHW* hw, std::set<S>& want) { X* i = hw->get<X>(); if (i != c->robot->template get<X>()) c->bad("the hook sees another " + nm<X>() + " than the robot's"); if (i) { want.insert(nm<X>()); take<X>(*c, i); } }
  template <class X> void other(RobotHW* hw, const std::set<S>& mine) { if (!mine.count(nm<X>()) && hw->get<X>()) c->bad("the hook sees " + nm<X>() + ", which it did not ask for"); }
  bool hook(int k, RobotHW* hw) {
    ++c->calls[k]; std::set<S> want; int d[] = {(see<I>(hw, want), 0)...}; (void)d; auto v = hw->getNames(); std::set<S> got(v.begin(), v.end());
    if (got != want || v.size() != got.size()) c->bad("the hook sees " + sset(got) + "instead of " + sset(want));
    std::set<S> mine{nm<I>()...}; other<V>(hw, mine); other<E>(hw, mine); other<P>(hw, mine); other<JS>(hw, mine); other<O>(hw, mine); other<PL>(hw, mine);
    return c->ok[k];
  }
  bool init(RobotHW* hw, ros::NodeHandle& nh) override { if (nh.getNamespace() != c->ctrlNs) c->bad("controller namespace is " + nh.getNamespace()); return hook(0, hw); }
  bool init(RobotHW* hw, ros::NodeHandle& root, ros::NodeHandle& nh) override { if (nh.getNamespace() != c->ctrlNs || root.getNamespace() != c->rootNs) c->bad("namespaces are wrong"); return hook(1, hw); }
};
struct Robot {
  vh::Rng& r; Arena a; RobotHW root, kid1, kid2; std::vector<std::function<void()>> del; std::set<S> types; uint64_t sig = 0, all = 0; int n = 0;
  explicit Robot(vh::Rng& r) : r(r), a(r) { if (r.chance(60)) { root.registerInterfaceManager(&kid1); root.registerInterfaceManager(&kid2); nested = true; } int p = r.range(40, 100); some<V>(p); some<E>(p); some<P>(p); some<JS>(p); some<O>(p); plain(p); }
  ~Robot() { for (auto& f : del) f(); }
  bool nested = false;
  template <class I> void one(RobotHW& hw) { I* i = new I; del.push_back([i] { delete i; }); for (int k = r.range(0, 4); k > 0; --k) i->registerHandle(T<typename I::ResourceHandleType>::make("j" + std::to_string(r.chance(60) ? n++ : (int)r.below(4)), *a.add())); hw.registerInterface(i); types.insert(nm<I>()); }
  template <class I> void some(int p) { if (!r.chance(p)) return; int w = nested ? r.range(1, 7) : 1; sig = vh::mix(sig, w); if (w & 1) one<I>(root); if (w & 2) one<I>(kid1); if (w & 4) one<I>(kid2); }
  void plain(int p) { if (!r.chance(p)) return; PL* i = new PL; del.push_back([i] { delete i; }); (nested && r.chance(50) ? kid1 : root).registerInterface(i); types.insert(nm<PL>()); sig = vh::mix(sig, 99); }
  template <class I> void leftover() { I* i = root.get<I>(); if (!i) return; for (auto& x : names(i)) if (r.chance(50)) i->claim(x); if (r.chance(30)) i->claim("ghost"); }
  template <class I> static std::vector<S> names(I* i) { return i->getNames(); } static std::vector<S> names(PL*) { return {"plain"}; }
  void leftovers() { leftover<V>(); leftover<E>(); leftover<P>(); leftover<JS>(); leftover<O>(); leftover<PL>(); }
  template <class I> S claims() { I* i = root.get<I>(); return i && !i->getClaims().empty() ? nm<I>() + ": " + sset(i->getClaims()) : S(); }
};
typedef std::vector<InterfaceResources> CR;
template <class C, class... I> void drive(vh::Rng& r, Robot& rob, std::unique_ptr<C> ctrl, bool optional, const S& tn) {
  Ctx c; c.r = &r; c.robot = &rob.root; ctrl->c = &c; ci::ControllerBase* b = ctrl.get(); std::vector<S> mine{nm<I>()...}; bool missing = false; for (auto& t : mine) if (!rob.types.count(t)) missing = true; bool can = optional || !missing; bool inited = false; uint64_t sig = vh::hashStr(tn);
  auto key = [&](const S& k) { return tn.substr(0, 6) == "Multi<" ? "multi-" + k : "single-" + k; };
  for (int attempt = r.range(1, 4); attempt > 0 && H().violations.empty(); --attempt) {
    c.ok[0] = r.chance(75); c.ok[1] = r.chance(75); c.calls[0] = c.calls[1] = 0; c.took.clear(); c.sawWrong = false; c.rootNs = r.chance(50) ? "/robot" : "/"; c.ctrlNs = "/robot/c" + std::to_string(r.below(9)); ros::NodeHandle root(c.rootNs), nh(c.ctrlNs);
    if (r.chance(70)) rob.leftovers();
    CR cr; bool pre = r.chance(40); if (pre) cr.push_back(InterfaceResources("leftover", {"x"}));
    bool want = can && c.ok[0] && c.ok[1] && !inited, refusable = !inited;
    bool got = b->initRequest(&rob.root, root, nh, cr); H().count("initialisations"); H().step(tn + (optional ? " optional" : "") + " on { " + sset(rob.types) + "} hooks " + (c.ok[0] ? "ok" : "fail") + "/" + (c.ok[1] ? "ok" : "fail") + " -> " + (got ? "initialised" : "refused")); sig = vh::mix(sig, (want ? 1 : 0) + (inited ? 2 : 0) + (can ? 4 : 0) + (c.ok[0] ? 8 : 0) + (c.ok[1] ? 16 : 0));
    S ctx = tn + (optional ? " (optional interfaces)" : "") + ", robot provides " + sset(rob.types);
    if (got != want) { H().fail(key("result"), ctx + ": initialisation " + (got ? "succeeds" : "fails") + (inited ? " for a controller already initialised" : missing ? " with an interface missing" : c.ok[0] && c.ok[1] ? " although everything is there" : " with a failing hook")); return; }
    if (c.sawWrong) H().fail(key("sees"), ctx + ": " + c.wrong);
    if (!can || inited) { if (c.calls[0] || c.calls[1]) H().fail(key("hooks"), ctx + ": hooks of a controller that cannot be initialised were called"); }
    else if (want && (c.calls[0] != 1 || c.calls[1] != 1)) H().fail(key("hooks"), ctx + ": hooks were called " + std::to_string(c.calls[0]) + " and " + std::to_string(c.calls[1]) + " times");
    if (want) {
      H().count("successful initialisations"); inited = true; std::map<S, std::set<S>> rep; for (auto& x : cr) { if (rep.count(x.hardware_interface)) H().fail(key("report"), ctx + ": " + x.hardware_interface + " is reported twice"); rep[x.hardware_interface] = x.resources; }
      std::map<S, std::set<S>> exp; for (auto& t : mine) if (rob.types.count(t)) exp[t] = c.took[t];
      S left = rob.claims<V>() + rob.claims<E>() + rob.claims<P>() + rob.claims<JS>() + rob.claims<O>() + rob.claims<PL>();
      if (rep != exp) { S o; for (auto& x : rep) o += x.first + ": " + sset(x.second); S w; for (auto& x : exp) w += x.first + ": " + sset(x.second); H().fail(key("report"), ctx + ": reports claims { " + o + "} but took { " + w + "}"); }
      for (auto& t : mine) if (left.find(t) != S::npos) H().fail(key("left"), ctx + ": claims remain on the hardware: " + left);
      for (auto& x : exp) H().count("claims reported", x.second.size());
      if (!b->isInitialized()) H().fail(key("state"), ctx + ": not in the initialised state");
    } else {
      H().count(inited ? "refused repeated initialisations" : missing && !optional ? "initialisations refused for missing interfaces" : "initialisations failed by hooks");
      if (!inited && !pre && !cr.empty()) H().fail(key("failed-report"), ctx + ": claims are reported though the initialisation failed");
      if (refusable) {   // never initialised: must not be startable
        ros::Time t = r.chance(30) ? ros::Time() : r.chance(30) ? ros::TIME_MAX : ros::Time(5, 0); int before = c.cb[0] + c.cb[1] + c.cb[2] + c.cb[3] + c.cb[4]; bool s[4]; for (int k : {0, 1, 2, 3}) { switch (k) { case 0: s[k] = b->startRequest(t); break; case 1: s[k] = b->stopRequest(t); break; case 2: s[k] = b->waitRequest(t); break; default: s[k] = b->abortRequest(t); } b->updateRequest(t, ros::Duration(0.1)); if (s[k]) H().fail(key("startable"), ctx + ": accepts a " + S(k == 0 ? "start" : k == 1 ? "stop" : k == 2 ? "wait" : "abort") + " request though not initialised"); }
        if (c.cb[0] + c.cb[1] + c.cb[2] + c.cb[3] + c.cb[4] != before) H().fail(key("startable"), ctx + ": a callback reached an uninitialised controller");
        if (b->isInitialized() || b->isRunning() || b->isStopped() || b->isWaiting() || b->isAborted()) H().fail(key("startable"), ctx + ": state changed though not initialised"); H().count("refused lifecycle requests", 4);
      }
    }
    if (inited && r.chance(40)) { if (!b->startRequest(ros::Time(6, 0)) || !b->isRunning() || c.cb[0] == 0) H().fail(key("start"), ctx + ": cannot be started after initialisation"); b->updateRequest(ros::Time(6, 1), ros::Duration(0.1)); if (c.cb[1] == 0) H().fail(key("start"), ctx + ": not updated while running"); if (r.chance(50)) b->stopRequest(ros::Time(7, 0)); }
  }
  rob.all = vh::mix(rob.all, vh::mix(sig, rob.sig));
}
template <class I> void single(vh::Rng& r, Robot& rob) { drive<Single<I>, I>(r, rob, std::unique_ptr<Single<I>>(new Single<I>), false, "Single<" + nm<I>() + ">"); }
template <class... I> void multi(vh::Rng& r, Robot& rob) { bool opt = r.chance(50); S tn; int d[] = {(tn += nm<I>() + " ", 0)...}; (void)d; drive<Multi<I...>, I...>(r, rob, std::unique_ptr<Multi<I...>>(new Multi<I...>(opt)), opt, "Multi<" + tn + ">"); }
static void k01(vh::Rng& r, long k) {
  Robot rob(r);
  for (int rep = r.range(1, 3); rep > 0 && H().violations.empty(); --rep) switch ((k + rep) % 16) {
    case 0: single<V>(r, rob); break; case 1: single<E>(r, rob); break; case 2: single<P>(r, rob); break; case 3: single<JS>(r, rob); break; case 4: single<O>(r, rob); break; case 5: single<PL>(r, rob); break;
    case 6: multi<V>(r, rob); break; case 7: multi<V, E>(r, rob); break; case 8: multi<P, JS>(r, rob); break; case 9: multi<V, E, P>(r, rob); break; case 10: multi<O, JS, PL>(r, rob); break; case 11: multi<E, P, V, JS>(r, rob); break;
    case 12: multi<JS, O, V, PL>(r, rob); break; case 13: multi<PL>(r, rob); break; case 14: multi<P, V>(r, rob); break; default: multi<V, E, P, JS, O, PL>(r, rob);
  }
  H().seen(rob.all);
}
int main(int argc, char** argv) {
  H().args(argc, argv); H().rule = "controller kind, outcome sequence and interface placement in the robot tree";
  H().require("successful initialisations", 100); H().require("initialisations refused for missing interfaces", 50); H().require("refused repeated initialisations", 50); H().require("claims reported", 100);
  H().loop("init", H().cases(24000, 1200000), k01); return H().finish();
}
