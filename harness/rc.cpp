// R01-R03: combined robots (nested ones included) built from plugin parts whose behaviour is scripted and observed.
#include "vh.h"
#include <combined_robot_hw/combined_robot_hw.h>
#include <controller_manager/controller_manager.h>
#include <hardware_interface/joint_command_interface.h>
#include <atomic>
#include <memory>
#include <mutex>
#include <thread>
extern "C" void simBlock(const char*) {}
using namespace hardware_interface; using vh::H; using vh::Rng; typedef std::string S; typedef std::vector<S> VS; typedef RobotHW::SwitchState St; typedef std::list<ControllerInfo> CL;
namespace rctest { struct OddInterface : HardwareResourceManager<JointHandle, ClaimResources> {}; struct PlainInterface : HardwareInterface {}; }
static const char* IF[] = {"hardware_interface::PositionJointInterface", "hardware_interface::VelocityJointInterface", "hardware_interface::EffortJointInterface", "hardware_interface::JointStateInterface", "rctest::OddInterface", "rctest::PlainInterface"};
struct Cfg { std::map<S, std::set<S>> own; bool plain = false, inInit = false, late = false /*handles join their interfaces after these were registered, as with the transmission loader*/; int ctor = 0, init = 0; };   // ctor/init: 0 ok 1 false (null) 2 std 3 other exception
struct Leaf; struct Ev { int leaf; S kind, a, b; };
struct World { std::map<S, Cfg> types; std::vector<Leaf*> live; std::vector<Ev> log; std::mutex m; int next = 0, alive = 0; void add(const Ev& e) { std::lock_guard<std::mutex> g(m); log.push_back(e); } };
static World* W = nullptr;
static S str(const CL& l) { S o; for (auto& c : l) { o += c.name + "|" + c.type + "("; for (auto& r : c.claimed_resources) { o += r.hardware_interface + "{"; for (auto& x : r.resources) o += x + ","; o += "}"; } o += ") "; } return o; }
struct Leaf : RobotHW {
  int id; Cfg c; std::map<S, std::array<double, 4>> var; JointStateInterface js; PositionJointInterface p; VelocityJointInterface v; EffortJointInterface e; rctest::OddInterface o; rctest::PlainInterface pl;
  std::atomic<bool> accept{true}; std::atomic<int> global{0}; std::map<S, int> per; mutable std::atomic<long> asked{0}; mutable S told;
  // integration: how many cycles after its commit the part needs
  std::atomic<int> since{-1}; int need = 0; bool fails = false; std::map<S, int> needOf; bool timed = false; std::set<S> share;
  explicit Leaf(const Cfg& k) : id(W->next++), c(k) { W->live.push_back(this); ++W->alive; if (!c.inInit) setup(); }
  ~Leaf() override { --W->alive; for (auto& l : W->live) if (l == this) l = nullptr; }
  // a further joint joins an interface of the part, possibly one registered only now
  void grow(const S& i, const S& n) {
    bool known = c.own.count(i) > 0; if (known && c.own[i].count(n)) return; c.own[i].insert(n); auto& d = var[n]; JointStateHandle s(n, &d[0], &d[1], &d[2]);
    if (i == IF[3]) js.registerHandle(s); else { JointHandle h(s, &d[3]); if (i == IF[0]) p.registerHandle(h); else if (i == IF[1]) v.registerHandle(h); else if (i == IF[2]) e.registerHandle(h); else o.registerHandle(h); }
    if (!known) { if (i == IF[0]) registerInterface(&p); else if (i == IF[1]) registerInterface(&v); else if (i == IF[2]) registerInterface(&e); else if (i == IF[3]) registerInterface(&js); else registerInterface(&o); }
    H().count(known ? "joints added between switches" : "interfaces added between switches");
  }
  void setup() {
    auto handles = [this] { for (auto& i : c.own) for (auto& n : i.second) { auto& d = var[n]; JointStateHandle s(n, &d[0], &d[1], &d[2]); if (i.first == IF[3]) js.registerHandle(s); else { JointHandle h(s, &d[3]); if (i.first == IF[0]) p.registerHandle(h); else if (i.first == IF[1]) v.registerHandle(h); else if (i.first == IF[2]) e.registerHandle(h); else o.registerHandle(h); } } };
    auto interfaces = [this] { for (auto& i : c.own) { if (i.first == IF[0]) registerInterface(&p); else if (i.first == IF[1]) registerInterface(&v); else if (i.first == IF[2]) registerInterface(&e); else if (i.first == IF[3]) registerInterface(&js); else registerInterface(&o); } if (c.plain) registerInterface(&pl); };
    if (c.late) { interfaces(); handles(); } else { handles(); interfaces(); }
  }
  bool init(ros::NodeHandle& root, ros::NodeHandle& nh) override { W->add({id, "init", root.getNamespace(), nh.getNamespace()}); if (c.inInit) setup(); if (c.init == 2) throw std::runtime_error("part failed"); if (c.init == 3) throw 3; return c.init == 0; }
  bool prepareSwitch(const CL& a, const CL& b) override { W->add({id, "prepare", str(a), str(b)}); if (timed) { std::lock_guard<std::mutex> g(W->m); share.clear(); for (auto& x : a) share.insert(x.name); since = -1; } return accept; }
  void doSwitch(const CL& a, const CL& b) override { W->add({id, "switch", str(a), str(b)}); since = 0; }
  void read(const ros::Time& t, const ros::Duration& d) override { W->add({id, "read", std::to_string(t.toNSec()), std::to_string(d.toNSec())}); }
  void write(const ros::Time& t, const ros::Duration& d) override { W->add({id, "write", std::to_string(t.toNSec()), std::to_string(d.toNSec())}); }
  static St conv(int x) { return x == 0 ? St::DONE : x == 1 ? St::ONGOING : St::ERROR; }
  bool ready() const { return since >= need; } bool readyFor(const S& n) const { auto it = needOf.find(n); return since >= (it == needOf.end() ? 0 : it->second); }
  St switchResult() const override { ++asked; if (timed) return since < 0 ? St::DONE : since < need ? St::ONGOING : fails ? St::ERROR : St::DONE; return conv(global); }
  St switchResult(const ControllerInfo& ci) const override { ++asked; if (!timed) told = str({ci}); if (timed) return since < 0 ? St::DONE : readyFor(ci.name) ? (fails ? St::ERROR : St::DONE) : St::ONGOING; auto it = per.find(ci.name); return it == per.end() ? St::ERROR : conv(it->second); }
};
// ---- described robots
struct Node { S name, ns, type; bool nested = false; int typeKind = 0; /*0 given 1 missing 2 unknown 3 not a string*/ bool badName = false; std::vector<Node> parts; int list = 0; /*0 list 1 missing 2 not a list 3 a list of numbers*/ };
static bool badNode(const Node& n) { return n.badName || n.typeKind; }
struct Gen {
  Rng& r; int t = 0, nAbs = 0; bool faults, big; VS joints;
  Gen(Rng& r, bool f) : r(r), faults(f) { big = r.chance(2); int n = big ? r.range(9, 30) : r.range(1, 8); for (int i = 0; i < n; ++i) joints.push_back("j" + std::to_string(i)); if (big) H().count("big robots"); }
  S leafType() {
    if (t && r.chance(15)) return "p/T" + std::to_string(r.below(t)); S ty = "p/T" + std::to_string(t++); Cfg c; int n = r.chance(10) ? 0 : r.range(1, 4); bool sparse = r.chance(60);
    for (int i = 0; i < n; ++i) { auto& s = c.own[IF[r.below(5)]]; if (!r.chance(8)) for (auto& j : joints) if (r.chance(sparse ? 35 : 75)) s.insert(j); }
    c.plain = r.chance(15); c.inInit = r.chance(50); c.late = r.chance(35); if (c.late) H().count("parts registering handles after their interfaces"); if (faults && r.chance(20)) { if (r.chance(40)) c.ctor = r.range(1, 3); else c.init = r.range(1, 3); } W->types[ty] = c; return ty;
  }
  Node combined(const S& ns, int depth) {
    Node n; n.nested = true; n.ns = ns; n.type = "combined_robot_hw/CombinedRobotHW"; int k = r.chance(8) ? 0 : big && r.chance(50) ? r.range(6, 20) : r.range(1, depth ? 3 : 5); if (faults && r.chance(12)) n.list = r.range(1, 3); std::map<S, Node> byName;
    for (int i = 0; i < k; ++i) { S nm = (r.chance(10) && !byName.empty()) ? byName.begin()->first : r.chance(15) ? "sub/p" + std::to_string(i) : "part" + std::to_string(r.chance(50) ? i : 99 - i); if (r.chance(6)) nm = "/abs" + std::to_string(nAbs++) + "/part"; if (byName.count(nm)) { n.parts.push_back(byName[nm]); continue; } Node c; S cns = nm[0] == '/' ? nm : ns + "/" + nm; if (nm[0] == '/') H().count("parts with absolute names");
      if (depth < (big ? 4 : 2) && r.chance(20)) c = combined(cns, depth + 1); else c.type = leafType(); c.name = nm; c.ns = cns; if (faults && r.chance(6)) c.typeKind = r.range(1, 3); if (faults && r.chance(3)) { c.badName = true; c.name = r.chance(50) ? "bad name" : "9part"; } byName[nm] = c; n.parts.push_back(c); }
    return n;
  }
};
static void params(const Node& n) {
  using XmlRpc::XmlRpcValue; XmlRpcValue l = XmlRpcValue::array(); for (auto& p : n.parts) { l.push_back(n.list == 3 ? XmlRpcValue(3) : XmlRpcValue(p.name)); if (!p.badName && p.typeKind != 1) ros::stub::setParam(p.ns + "/type", p.typeKind == 3 ? XmlRpcValue(5) : XmlRpcValue(p.typeKind == 2 ? S("no/SuchRobot") : p.type)); if (p.nested && !p.badName) params(p); }
  if (n.list == 3 && n.parts.empty()) l.push_back(XmlRpcValue(3)); if (n.list != 1) ros::stub::setParam(n.ns + "/robot_hardware", n.list == 2 ? XmlRpcValue("part1") : l);
}
// leaves that are to be initialised, in order, up to the first failure; returns whether all goes well
static bool expectInit(const Node& n, std::vector<const Node*>& leaves) { if (n.list) return false; for (auto& p : n.parts) { if (badNode(p)) return false; if (p.nested) { if (!expectInit(p, leaves)) return false; } else { const Cfg& c = W->types[p.type]; if (c.ctor) return false; leaves.push_back(&p); if (c.init) return false; } } return true; }
static S dump(const Node& n) { S s = n.name + "[" + (n.list ? "bad list " : ""); for (auto& p : n.parts) s += (p.badName ? "bad name " : "") + S(p.typeKind ? "bad type " : "") + (p.nested ? dump(p) : p.name + ":" + p.type) + " "; return s + "]"; }
static S dumpTypes() { S s; for (auto& t : W->types) { s += t.first + "={"; for (auto& i : t.second.own) { s += i.first.substr(i.first.find(':') + 2) + "("; for (auto& j : i.second) s += j + " "; s += ") "; } s += (t.second.plain ? "plain " : "") + S(t.second.ctor ? "constructor fails " : "") + (t.second.init ? "init fails" : "") + "} "; } return s; }
struct Robot {
  World w; Rng& r; Node root; std::vector<const Node*> leaves; std::vector<Leaf*> parts; std::unique_ptr<combined_robot_hw::CombinedRobotHW> hw; bool ok = false, want = false; S threw, ns, what, rootNs; std::vector<Ev> inits;
  Robot(Rng& r, bool faults) : r(r) {
    W = &w; ros::stub::clearParams(); auto& reg = pluginlib::stub::Registry<RobotHW>::get(); { std::lock_guard<std::mutex> g(reg.m); reg.v.clear(); } reg.declare("combined_robot_hw/CombinedRobotHW", [] { return static_cast<RobotHW*>(new combined_robot_hw::CombinedRobotHW); });
    Gen g(r, faults); ns = r.chance(50) ? "/robot" : "/a/b/hw"; root = g.combined(ns, 0); params(root); for (auto& t : w.types) { S n = t.first; reg.declare(n, [n]() -> RobotHW* { Cfg c = W->types[n]; if (c.ctor == 1) return nullptr; if (c.ctor == 2) throw std::logic_error("constructor failed"); if (c.ctor == 3) throw 7; return new Leaf(c); }); }
    want = expectInit(root, leaves); what = dump(root) + " with " + dumpTypes(); hw.reset(new combined_robot_hw::CombinedRobotHW); rootNs = r.chance(40) ? "/" : r.chance(50) ? "/robot" : "/other/root"; ros::NodeHandle rn(rootNs), hn(ns); try { ok = hw->init(rn, hn); } catch (const std::exception& e) { threw = e.what(); } catch (...) { threw = "a non-standard exception"; }
    inits.swap(w.log); parts.assign(leaves.size(), nullptr); size_t k = 0; if (ok && want) for (auto& e : inits) if (e.kind == "init" && k < leaves.size()) for (auto* l : w.live) if (l && l->id == e.leaf) { parts[k++] = l; break; }
  }
  bool good() { if (!ok || !want) return false; for (auto* p : parts) if (!p) return false; return true; }
};
static uint64_t shape(const Node& n) { uint64_t h = n.parts.size(); for (auto& p : n.parts) h = vh::mix(h, p.nested ? shape(p) : vh::hashStr(p.type)); return h; }
static void R02() {
  H().rule = "distinct = distinct (tree of parts, types with their interfaces and joints, faults)";
  H().loop("robots", H().cases(30000, 800000), [](Rng& r, long) {
    Robot b(r, r.chance(50)); auto& w = b.w; H().seen(vh::hashStr(b.what)); if (H().samples.size() < 2 && b.leaves.size() > 2) H().sample(b.what);
    if (!b.threw.empty()) { H().fail("throw", "init() threw " + b.threw + " for " + b.what); return; } if (b.ok != b.want) { H().fail(b.want ? "refused" : "accepted", S("init() returned ") + (b.ok ? "true" : "false") + " for " + b.what); return; } H().count(b.ok ? "robots initialised" : "robots refused"); if (b.root.list) H().count("robots without a part list");
    // parts initialised: exactly the leaves in order (up to the failure)
    size_t i = 0; for (auto& e : b.inits) { if (e.kind != "init") { H().fail("stray", "a part got " + e.kind + " during initialisation of " + b.what); return; } while (!b.ok && i < b.leaves.size() && b.leaves[i]->ns != e.b) ++i; if (i >= b.leaves.size()) { if (b.ok) { H().fail("order", "an unexpected part was initialised (namespace " + e.b + ") in " + b.what); return; } break; } if (e.b != b.leaves[i]->ns || e.a != b.rootNs) { H().fail("namespace", "part " + std::to_string(i) + " (" + b.leaves[i]->ns + ") was initialised with " + e.a + " and " + e.b + " in " + b.what); return; } ++i; }
    if (!b.ok) { bool one = false; for (auto& t : w.types) one |= t.second.ctor > 0; H().count(one ? "refused robots with failing constructors" : "refused robots, other faults"); b.hw.reset(); return; }
    if (i != b.leaves.size() || !b.good()) { H().fail("missing", "only " + std::to_string(i) + " of " + std::to_string(b.leaves.size()) + " parts were initialised in " + b.what); return; } H().count("parts initialised", (long)i);
    // interfaces
    std::map<S, std::set<S>> all; int plain = 0; for (auto* p : b.parts) { for (auto& x : p->c.own) all[x.first].insert(x.second.begin(), x.second.end()); plain += p->c.plain; } auto nm = b.hw->getNames(); std::set<S> got(nm.begin(), nm.end()), wantN; for (auto& a : all) wantN.insert(a.first); if (plain) wantN.insert(IF[5]); if (got != wantN) { H().fail("interfaces", "the interfaces of the combined robot are not those of its parts: " + b.what); return; }
    auto chk = [&](int k, bool found, VS names) { bool has = all.count(IF[k]) > 0; if (has != found) { H().fail("interface", S(IF[k]) + (has ? " is not found in " : " is found in ") + b.what); return false; } std::set<S> n(names.begin(), names.end()); if (has && n != all[IF[k]]) { H().fail("resources", S(IF[k]) + " does not offer its parts' joints in " + b.what); return false; } if (has) { H().count("combined interfaces compared"); auto rs = b.hw->getInterfaceResources(IF[k]); if (std::set<S>(rs.begin(), rs.end()) != all[IF[k]]) { H().fail("resources", S("resources of ") + IF[k] + " are not its parts' joints in " + b.what); return false; } } return true; };
    auto* pj = b.hw->get<PositionJointInterface>(); auto* vj = b.hw->get<VelocityJointInterface>(); auto* ej = b.hw->get<EffortJointInterface>(); auto* sj = b.hw->get<JointStateInterface>(); auto* oj = b.hw->get<rctest::OddInterface>(); if (!chk(0, pj, pj ? pj->getNames() : VS()) || !chk(1, vj, vj ? vj->getNames() : VS()) || !chk(2, ej, ej ? ej->getNames() : VS()) || !chk(3, sj, sj ? sj->getNames() : VS()) || !chk(4, oj, oj ? oj->getNames() : VS())) return;
    if (plain == 1 && !b.hw->get<rctest::PlainInterface>()) { H().fail("interface", "an interface of a part is not found in " + b.what); return; }
    if (pj) for (auto& j : pj->getNames()) { int n = 0; bool mine = false; double v = r.uniform(1, 9); pj->getHandle(j).setCommand(v); for (auto* p : b.parts) { auto it = p->c.own.find(IF[0]); if (it != p->c.own.end() && it->second.count(j)) { ++n; mine |= p->var[j][3] == v; } } if (!mine) { H().fail("handle", "a command to joint " + j + " does not reach its part in " + b.what); return; } H().count("commands"); }
    pj = nullptr; // cycles
    int n = r.range(1, 8); for (int c = 0; c < n; ++c) { w.log.clear(); bool rd = r.chance(50); ros::Time t; t.fromNSec(r.chance(15) ? 0 : r.below(1ULL << 50)); ros::Duration d; d.fromNSec(r.chance(15) ? 0 : (int64_t)r.below(1ULL << 40)); if (rd) b.hw->read(t, d); else b.hw->write(t, d); S k = rd ? "read" : "write", a = std::to_string(t.toNSec()), e = std::to_string(d.toNSec());
      if (w.log.size() != b.parts.size()) { H().fail("cycle", "one " + k + " reached " + std::to_string(w.log.size()) + " parts of " + std::to_string(b.parts.size()) + " in " + b.what); return; } for (size_t q = 0; q < w.log.size(); ++q) if (w.log[q].leaf != b.parts[q]->id || w.log[q].kind != k || w.log[q].a != a || w.log[q].b != e) { H().fail("cycle", "a " + k + " did not reach the parts in order with its time and period in " + b.what); return; } H().count(k + "s"); }
    if (b.parts.size() > 1) H().count("robots of several parts"); b.hw.reset(); if (w.alive) { H().fail("leak", "parts outlive the combined robot " + b.what); return; }
  });
  for (auto s : {"robots initialised", "robots refused", "robots without a part list", "refused robots with failing constructors", "refused robots, other faults", "combined interfaces compared", "commands", "reads", "writes", "robots of several parts"}) H().require(s, 100);
}
// ---- R01, R03
static ControllerInfo rndCtrl(Rng& r, const S& name, const VS& joints) {
  ControllerInfo c; c.name = name; c.type = "type" + std::to_string(r.below(3)); int n = r.chance(15) ? 0 : r.range(1, 4); for (int i = 0; i < n; ++i) { InterfaceResources x; x.hardware_interface = r.chance(8) ? "no::Interface" : IF[r.below(r.chance(10) ? 6 : 5)]; for (auto& j : joints) if (r.chance(40)) x.resources.insert(j); if (r.chance(15)) x.resources.insert("nobody"); if (r.chance(15)) { static const VS near{"j", "j00", "j1x", "xj0", "J0", "j 0", "j12", ""}; x.resources.insert(near[r.below(near.size())]); } if (x.resources.empty()) x.resources.insert(joints[r.below(joints.size())]); c.claimed_resources.push_back(x); } return c;
}
static bool ownsPart(const Leaf& l, const ControllerInfo& c, ControllerInfo& o) {
  o.name = c.name; o.type = c.type; o.claimed_resources.clear(); if (c.claimed_resources.empty()) return true;
  for (auto& x : c.claimed_resources) { auto it = l.c.own.find(x.hardware_interface); if (it == l.c.own.end()) continue; InterfaceResources y; y.hardware_interface = x.hardware_interface; for (auto& q : x.resources) if (it->second.count(q)) y.resources.insert(q); if (!y.resources.empty()) o.claimed_resources.push_back(y); } return !o.claimed_resources.empty();
}
static CL shareOf(const Leaf& l, const CL& all) { CL o; for (auto& c : all) { ControllerInfo k; if (ownsPart(l, c, k)) o.push_back(k); } return o; }
static VS universe(Robot& b) { VS u; for (int i = 0; i < 8; ++i) u.push_back("j" + std::to_string(i)); (void)b; u.resize(4 + b.r.below(5)); return u; }
static void lists(Rng& r, const VS& u, CL& start, CL& stop) { start.clear(); stop.clear(); bool big = r.chance(2); int n = big ? r.range(5, 20) : r.range(0, 4), m = big ? r.range(0, 20) : r.range(0, 3), k = 0; for (int i = 0; i < n; ++i) start.push_back(rndCtrl(r, "c" + std::to_string(k++), u)); for (int i = 0; i < m; ++i) stop.push_back(rndCtrl(r, "c" + std::to_string(k++), u)); if (r.chance(30) && n && m) stop.push_back(start.front()); }
static bool sameSwitch(Robot& b, const CL& start, const CL& stop, const S& kind, const S& e1, bool all, size_t upto) {
  size_t q = 0; for (auto& e : b.w.log) { while (kind == "switch" && false) {} (void)q; if (e.kind != kind) { H().fail("stray", "a part got " + e.kind + " during " + kind + " in " + b.what); return false; } }
  std::vector<int> seen(b.parts.size(), 0); int lastPos = -1;
  for (auto& e : b.w.log) { size_t i = 0; while (i < b.parts.size() && b.parts[i]->id != e.leaf) ++i; if (i >= b.parts.size()) { H().fail("stray", "an unknown part got " + kind); return false; } ++seen[i]; if (kind == "prepare" && (int)i <= lastPos) { H().fail("order", "parts were not asked in order in " + b.what); return false; } lastPos = (int)i;
    S a = str(shareOf(*b.parts[i], start)), s = str(shareOf(*b.parts[i], stop)); H().count("lists compared", 2); if (a.empty() && s.empty()) H().count("parts without a share"); if (e.a != a || e.b != s) { H().fail(kind + "-lists", e1 + "part " + b.leaves[i]->ns + " got start " + e.a + " and stop " + e.b + " instead of " + a + " and " + s + " from start " + str(start) + " stop " + str(stop) + " in " + b.what); return false; } }
  for (size_t i = 0; i < seen.size(); ++i) { bool must = all || i <= upto; if (seen[i] > 1 || (must && !seen[i])) { H().fail(kind + "-once", e1 + "part " + b.leaves[i]->ns + " got " + kind + " " + std::to_string(seen[i]) + " times in " + b.what); return false; } } return true;
}
static void R01() {
  H().rule = "distinct = distinct (robot, start list, stop list, refusing parts)";
  H().loop("switches", H().cases(20000, 600000), [](Rng& r, long) {
    Robot b(r, false); if (!b.good()) { H().fail("init", "the robot did not initialise: " + b.what); return; } VS u = universe(b); int n = r.range(1, 6); CL start, stop; uint64_t h0 = vh::hashStr(b.what); bool lastOk = false; (void)lastOk; if (H().samples.size() < 1) H().sample(b.what);
    for (int i = 0; i < n; ++i) {
      if (i && r.chance(30)) for (int k = r.range(1, 3); k > 0; --k) { auto* p = b.parts.empty() ? nullptr : b.parts[r.below(b.parts.size())]; if (!p) break; S f = IF[r.below(5)]; if (!p->c.own.empty() && r.chance(70)) { auto it = p->c.own.begin(); std::advance(it, r.below(p->c.own.size())); f = it->first; } p->grow(f, u[r.below(u.size())]); }
      lists(r, u, start, stop); bool want = true; size_t first = b.parts.size(); uint64_t h = vh::mix(h0, vh::hashStr(str(start) + "/" + str(stop))); bool refuse = r.chance(30); for (size_t k = 0; k < b.parts.size(); ++k) { bool a = !(refuse && r.chance(35)); b.parts[k]->accept = a; if (!a && want) { want = false; first = k; } h = h * 2 + a; } H().seen(h);
      CL s0 = start, p0 = stop; b.w.log.clear(); bool got = b.hw->prepareSwitch(start, stop); if (got != want) { H().fail(want ? "refused" : "accepted", S("prepareSwitch returned ") + (got ? "true" : "false") + " in " + b.what); return; } if (str(s0) != str(start) || str(p0) != str(stop)) { H().fail("changed", "the lists given were changed"); return; }
      if (!sameSwitch(b, start, stop, "prepare", "preparing: ", got, first)) return; H().count(got ? "switches prepared" : "switches refused"); if (!got) continue;
      if (r.chance(10)) continue; // prepared, but withdrawn
      b.w.log.clear(); b.hw->doSwitch(start, stop); if (!sameSwitch(b, start, stop, "switch", "committing: ", true, 0)) return; H().count("switches committed"); if (b.root.parts.size() != b.parts.size()) H().count("switches on nested robots");
    }
  });
  for (auto s : {"switches prepared", "switches refused", "switches committed", "switches on nested robots", "lists compared", "parts without a share", "joints added between switches", "interfaces added between switches"}) H().require(s, 100);
}
// controllers for the integration runs
struct Ctl;
struct Sys { Robot* b; std::mutex m; std::map<S, ControllerInfo> claims; S bad; long starts = 0, waits = 0, delayed = 0; bool asap = false; std::map<S, Ctl*> byName; };
static Sys* SYS = nullptr;
static thread_local bool quietLog = true;
struct Ctl : controller_interface::ControllerBase {
  S n; bool initRequest(RobotHW*, ros::NodeHandle&, ros::NodeHandle& nh, ClaimedResources& c) override { n = nh.getNamespace().substr(nh.getNamespace().rfind('/') + 1); for (auto& x : SYS->claims[n].claimed_resources) c.push_back(x); state_ = ControllerState::INITIALIZED; return true; }
  void waiting(const ros::Time&) override { ++SYS->waits; }
  void starting(const ros::Time&) override {
    std::lock_guard<std::mutex> g(SYS->m); ++SYS->starts; for (auto* p : SYS->b->parts) { bool mine = p->share.count(n) > 0; S who = "controller " + n + " with " + str({SYS->claims[n]}) + "was started " + std::to_string(p->since) + " cycles after the switch, while part " + std::to_string(p->id) + " needs ";
      if (p->since < 0) SYS->bad = "controller " + n + " was started before part " + std::to_string(p->id) + " was switched"; else if (p->fails && (!SYS->asap || mine)) SYS->bad = who + "more (its switch failed)"; else if (!SYS->asap && !p->ready()) SYS->bad = who + std::to_string(p->need); else if (SYS->asap && mine && !p->readyFor(n)) SYS->bad = who + std::to_string(p->needOf[n]) + " for it"; if (p->since > 0) ++SYS->delayed; }
  }
  void update(const ros::Time&, const ros::Duration&) override {}
};
static void R03() {
  H().rule = "distinct = distinct (robot, start list, states reported by the parts) and distinct (robot, controllers, readiness of the parts) of runs with a controller manager";
  H().loop("states", H().cases(20000, 600000), [](Rng& r, long) {
    Robot b(r, false); if (!b.good()) { H().fail("init", "the robot did not initialise: " + b.what); return; } VS u = universe(b); CL start, stop; uint64_t h0 = vh::hashStr(b.what); static const char* nm[] = {"done", "ongoing", "error"};
    for (int i = r.range(1, 3); i > 0; --i) {
      lists(r, u, start, stop); if (r.chance(30)) { for (auto* p : b.parts) p->accept = false; b.hw->prepareSwitch(stop, start); for (auto* p : b.parts) p->accept = true; } if (!b.hw->prepareSwitch(start, stop)) { H().fail("refused", "prepareSwitch failed"); return; } b.hw->doSwitch(start, stop);
      for (int k = r.range(1, 5); k > 0; --k) {
        int style = (int)r.below(4), g = 0; S desc; auto one = [&] { return style == 0 ? (r.chance(80) ? 0 : 1) : style == 1 ? (r.chance(80) ? 0 : (int)r.below(3)) : style == 2 ? 0 : (int)r.below(3); }; uint64_t h = vh::mix(h0, vh::hashStr(str(start)));
        for (auto* p : b.parts) { p->global = one(); h = h * 3 + p->global; desc += S(nm[p->global]) + " "; p->per.clear(); for (auto& c : start) p->per[c.name] = one(); } auto join = [](int a, int x) { return a == 2 || x == 2 ? 2 : a == 1 || x == 1 ? 1 : 0; }; for (auto* p : b.parts) g = join(g, p->global);
        int got = (int)b.hw->switchResult(); H().step("parts report " + desc + "-> combined " + nm[got]); H().count(S("combined reports: ") + nm[g]); if (got != g) { H().fail("global", S("the combined robot reports ") + nm[got] + " while its parts report " + desc + "in " + b.what); return; }
        for (auto& c : start) { int w = 0, n = 0; S d; for (auto* p : b.parts) { ControllerInfo o; if (ownsPart(*p, c, o)) { w = join(w, p->per[c.name]); p->told.clear(); h = h * 3 + p->per[c.name]; d += S(nm[p->per[c.name]]) + " "; ++n; } } got = (int)b.hw->switchResult(c); H().count(S("controller reports: ") + nm[w]); for (auto* p : b.parts) { ControllerInfo o; if (ownsPart(*p, c, o) && !p->told.empty()) { H().count("parts asked about a controller"); if (p->told != str({o})) { H().fail("controller-info", "a part that was switched with " + str({o}) + "is asked about " + p->told + "in " + b.what); return; } } } if (n > 1) H().count("controller reports involving several parts"); if (!c.claimed_resources.empty() && n < (int)b.parts.size()) H().count("controller reports not involving some part");
          if (got != w) { H().fail("controller", S("the combined robot reports ") + nm[got] + " for " + str({c}) + "while the parts that own its claims report " + d + "in " + b.what); return; } }
        H().seen(h);
      }
    }
  });
  H().loop("manager", H().cases(1600, 40000), [](Rng& r, long) {
    Robot b(r, false); if (!b.good()) { H().fail("init", "the robot did not initialise: " + b.what); return; } Sys sys; sys.b = &b; SYS = &sys; VS u = universe(b); auto& reg = pluginlib::stub::Registry<controller_interface::ControllerBase>::get(); { std::lock_guard<std::mutex> g(reg.m); reg.v.clear(); } reg.declare("t/C", [] { return static_cast<controller_interface::ControllerBase*>(new Ctl); });
    int n = r.range(1, 4); VS names; std::set<S> used; for (int i = 0; i < n; ++i) { ControllerInfo c = rndCtrl(r, "c" + std::to_string(i), u); std::vector<InterfaceResources> k; for (auto x : c.claimed_resources) { std::set<S> y; for (auto& q : x.resources) if (used.insert(q).second) y.insert(q); if (!y.empty()) { x.resources = y; k.push_back(x); } } c.claimed_resources = k; sys.claims[c.name] = c; names.push_back(c.name); ros::stub::setParam("/" + c.name + "/type", XmlRpc::XmlRpcValue("t/C")); }
    for (auto* p : b.parts) p->timed = true; { controller_manager::ControllerManager cm(b.hw.get(), ros::NodeHandle("/")); std::atomic<bool> done{false}, quit{false};
    int64_t now = 1000000000000LL; auto cycle = [&] { now += 1000000; ros::Time t; t.fromNSec((uint64_t)now); ros::Duration d(0.001); b.hw->read(t, d); cm.update(t, d); b.hw->write(t, d); for (auto* p : b.parts) if (p->since >= 0) ++p->since; };
    std::mutex jm; std::function<void()> job; for (auto& c : names) if (!cm.loadController(c)) { H().fail("load", "loading failed"); return; } for (int i = 0; i < 3; ++i) cycle();
    uint64_t h = vh::hashStr(b.what);
    for (int k = r.range(1, 3); k > 0 && sys.bad.empty(); --k) {
      VS start, stop; for (auto& c : names) { int x = (int)r.below(3); if (x == 0) start.push_back(c); else if (x == 1) stop.push_back(c); } if (start.empty()) start.push_back(names[0]); { std::lock_guard<std::mutex> g(sys.m); sys.asap = r.chance(50); }
      for (auto* p : b.parts) { p->need = r.chance(40) ? 0 : r.range(1, 12); p->fails = r.chance(10); p->needOf.clear(); for (auto& c : start) { p->needOf[c] = r.chance(40) ? 0 : r.range(0, 12); h = h * 13 + p->needOf[c]; } h = h * 13 + p->need; }
      done = false; bool asap = sys.asap; std::thread svc([&] { cm.switchController(start, stop, controller_manager_msgs::SwitchController::Request::BEST_EFFORT, asap, 0.0); done = true; }); int c = 0; for (; !done && c < 200000; ++c) { cycle(); std::this_thread::sleep_for(std::chrono::microseconds(30)); } if (!done) { H().fail("never-ends", "a switch did not end although all parts were done; robot " + b.what); _exit(H().finish()); } svc.join(); for (int q = 0; q < 16; ++q) cycle(); H().count("switches of the controller manager"); b.w.log.clear();
    }
    H().seen(h); } H().count("controllers started", sys.starts); H().count("controllers started after their hardware took time", sys.delayed); SYS = nullptr; if (!sys.bad.empty()) H().fail("early-start", sys.bad + "; robot " + b.what);
  });
  for (auto s : {"combined reports: done", "combined reports: ongoing", "combined reports: error", "controller reports: done", "controller reports: ongoing", "controller reports: error", "controller reports involving several parts", "controller reports not involving some part", "controllers started", "controllers started after their hardware took time"}) H().require(s, 50);
}
int main(int argc, char** argv) {
  H().args(argc, argv); S p = H().prop; if (p == "R01") R01(); else if (p == "R02") R02(); else if (p == "R03") R03(); else { fprintf(stderr, "HARNESS-ERROR: unknown property\n"); return 3; } return H().finish();
}
