// H01-H05: handles, registries, claims, interface lookup and conflict detection of hardware_interface (and the registries
// of transmission_interface and joint_limits_interface), against small models, under ASan+UBSan.
#include "hw_handles.h"
#include <hardware_interface/robot_hw.h>
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/transmission_interface.h>
#include <joint_limits_interface/joint_limits_interface.h>
using namespace hh;
using vh::H;
extern "C" void simBlock(const char*) {}
static S list(const std::vector<S>& v) { S o; for (auto& x : v) o += "'" + x + "' "; return o; }

// ---------------------------------------------------------------- H01
template <class I, class Hd, class Ex> void registryCase(vh::Rng& r, const S& tn) {
  Arena a(r); std::unique_ptr<I> i(new I); std::map<S, Block*> m; bool big = r.chance(2); int pool = r.range(2, 14), ops = big ? r.range(100, 300) : r.range(5, 40); if (big) H().count("big registries"); uint64_t sig = vh::hashStr(tn); long regs = 0, rereg = 0, miss = 0, gets = 0;
  for (int k = 0; k < ops && H().violations.empty(); ++k) {
    S n = nearName(r, pool); if (big && r.chance(80)) n = "joint" + std::to_string(r.below(120)); int op = r.range(0, 9); auto before = a.shot(); H().step(k ? "" : tn); H().step((op < 4 ? "register '" : op < 8 ? "look up '" : op == 8 ? "change data '" : "copy '") + n + "'");
    if (op < 4) { Block* b = a.add(r.range(0, 255)); before = a.shot(); i->registerHandle(T<Hd>::make(n, *b)); if (m.count(n)) ++rereg; m[n] = b; ++regs; }
    else if (op < 8) {
      if (m.count(n)) { Hd h = i->getHandle(n); S e = checkFull(h, n, *m[n]); ++gets; if (!e.empty()) H().fail(tn + "-get", "handle '" + n + "': " + e); }
      else {
        ++miss; int res = 0; try { i->getHandle(n); } catch (const Ex&) { res = 1; } catch (const std::exception& e) { res = 2; } catch (...) { res = 3; }
        if (res != 1) H().fail(tn + "-miss", "looking up unregistered '" + n + (res ? "' fails with another exception type than documented" : "' succeeds"));
      }
    } else if (op == 8) a.shuffleAll(), before = a.shot();
    else { I* c = new I(*i); i.reset(c); }   // copies of a registry are equivalent to it
    if (!a.diff(before).empty()) H().fail(tn + "-memory", "an operation of the registry changed joint data");
    std::vector<S> got = i->getNames(), want; for (auto& x : m) want.push_back(x.first); auto g = got; std::sort(g.begin(), g.end());
    if (g != want) H().fail(tn + "-names", "registered: " + list(want) + " but listed: " + list(got));
    sig = vh::mix(sig, op * 1000 + m.size() * 10 + (m.count(n) ? 1 : 0));
  }
  for (auto& x : m) { Hd h = i->getHandle(x.first); S e = checkFull(h, x.first, *x.second); if (!e.empty()) H().fail(tn + "-get", "handle '" + x.first + "' at the end: " + e); }
  H().count("registrations", regs); H().count("re-registrations", rereg); H().count("lookups", gets); H().count("failed lookups", miss); H().count(tn + " registries"); H().seen(sig);
}
// Registries of transmissions and limits: a handle is identified by what it does to its own data.
namespace ti = transmission_interface; namespace jl = joint_limits_interface;
struct TrData { double a, j; std::unique_ptr<ti::SimpleTransmission> t; double red; };
template <class Hd, int Kind, bool ToJoint> void trRegistryCase(vh::Rng& r, const S& tn) {
  std::vector<std::unique_ptr<TrData>> all; ti::TransmissionInterface<Hd> i; std::map<S, TrData*> m; int pool = r.range(2, 10); uint64_t sig = vh::hashStr(tn);
  auto reset = [&] { for (auto& d : all) { d->a = ToJoint ? 3.0 : 77.0; d->j = ToJoint ? 77.0 : 3.0; } };
  auto is = [&](Hd h, TrData* d, const S& n) {
    reset(); h.propagate();
    if (h.getName() != n) H().fail(tn + "-name", "name of handle '" + n + "' is '" + h.getName() + "'");
    for (auto& x : all) {
      double want = x.get() != d ? 77.0 : Kind == 2 ? (ToJoint ? 3.0 * d->red : 3.0 / d->red) : (ToJoint ? 3.0 / d->red : 3.0 * d->red), got = ToJoint ? x->j : x->a;
      if (std::fabs(want - got) > 1e-12) H().fail(tn + "-get", "the handle found under '" + n + "' is not the latest one registered under that name");
    }
  };
  bool big = r.chance(2);
  for (int k = big ? r.range(80, 200) : r.range(4, 25); k > 0; --k) {
    S n = nearName(r, pool); if (big && r.chance(80)) n = "joint" + std::to_string(r.below(70)); int op = r.range(0, 1); 
    if (op == 0) {
      all.emplace_back(new TrData); TrData* d = all.back().get(); d->red = 2.0 + all.size(); d->t.reset(new ti::SimpleTransmission(d->red)); ti::ActuatorData ad; ti::JointData jd;
      if (Kind == 0) ad.position = {&d->a}, jd.position = {&d->j}; else if (Kind == 1) ad.velocity = {&d->a}, jd.velocity = {&d->j}; else ad.effort = {&d->a}, jd.effort = {&d->j};
      i.registerHandle(Hd(n, d->t.get(), ad, jd)); if (m.count(n)) H().count("re-registrations"); m[n] = d; H().count("registrations");
    } else if (m.count(n)) { is(i.getHandle(n), m[n], n); H().count("lookups"); }
    else { int res = 0; try { i.getHandle(n); } catch (const ti::TransmissionInterfaceException&) { res = 1; } catch (...) { res = 2; } H().count("failed lookups"); if (res != 1) H().fail(tn + "-miss", "looking up unregistered '" + n + "' did not fail with the documented exception"); }
    std::vector<S> got = i.getNames(), want; for (auto& x : m) want.push_back(x.first); std::sort(got.begin(), got.end()); if (got != want) H().fail(tn + "-names", "registered: " + list(want) + " but listed: " + list(got));
    sig = vh::mix(sig, op * 100 + m.size());
  }
  for (auto& x : m) is(i.getHandle(x.first), x.second, x.first);
  H().count(tn + " registries"); H().seen(sig);
}
struct LimData { double pos = 0, vel = 0, eff = 0, cmd = 0, bound; };
template <class I, class Hd, int Kind> void limRegistryCase(vh::Rng& r, const S& tn) {
  std::vector<std::unique_ptr<LimData>> all; I i; std::map<S, LimData*> m; int pool = r.range(2, 10); uint64_t sig = vh::hashStr(tn);
  auto is = [&](Hd h, LimData* d, const S& n) {
    for (auto& x : all) x->cmd = 1e6;
    h.enforceLimits(ros::Duration(1.0));
    if (h.getName() != n) H().fail(tn + "-name", "name of handle '" + n + "' is '" + h.getName() + "'");
    for (auto& x : all) { double want = x.get() == d ? d->bound : 1e6; if (std::fabs(x->cmd - want) > 1e-9) H().fail(tn + "-get", "the handle found under '" + n + "' is not the latest one registered under that name"); }
  };
  bool big = r.chance(2);
  for (int k = big ? r.range(80, 200) : r.range(4, 25); k > 0; --k) {
    S n = nearName(r, pool); if (big && r.chance(80)) n = "joint" + std::to_string(r.below(70)); int op = r.range(0, 1);
    if (op == 0) {
      all.emplace_back(new LimData); LimData* d = all.back().get(); d->bound = 2.0 + all.size(); JointHandle jh(JointStateHandle(n, &d->pos, &d->vel, &d->eff), &d->cmd);
      jl::JointLimits l; if (Kind == 0) { l.has_position_limits = true; l.min_position = -1; l.max_position = d->bound; } else { l.has_velocity_limits = true; l.max_velocity = Kind == 1 ? d->bound : 1000; if (Kind == 2) { l.has_effort_limits = true; l.max_effort = d->bound; } }
      i.registerHandle(Hd(jh, l)); if (m.count(n)) H().count("re-registrations"); m[n] = d; H().count("registrations");
    } else if (m.count(n)) { is(i.getHandle(n), m[n], n); H().count("lookups"); }
    else { int res = 0; try { i.getHandle(n); } catch (const jl::JointLimitsInterfaceException&) { res = 1; } catch (...) { res = 2; } H().count("failed lookups"); if (res != 1) H().fail(tn + "-miss", "looking up unregistered '" + n + "' did not fail with the documented exception"); }
    std::vector<S> got = i.getNames(), want; for (auto& x : m) want.push_back(x.first); std::sort(got.begin(), got.end()); if (got != want) H().fail(tn + "-names", "registered: " + list(want) + " but listed: " + list(got));
    sig = vh::mix(sig, op * 100 + m.size());
  }
  for (auto& x : m) is(i.getHandle(x.first), x.second, x.first);
  H().count(tn + " registries"); H().seen(sig);
}
typedef HardwareInterfaceException HE;
#define ALL_HW(X) X(JointStateInterface, JointStateHandle) X(ActuatorStateInterface, ActuatorStateHandle) X(JointCommandInterface, JointHandle) X(EffortJointInterface, JointHandle) X(VelocityJointInterface, JointHandle) X(PositionJointInterface, JointHandle) \
  X(PosVelJointInterface, PosVelJointHandle) X(PosVelAccJointInterface, PosVelAccJointHandle) X(PositionVelocityTorqueGainsJointInterface, PositionVelocityTorqueGainsJointHandle) X(ActuatorCommandInterface, ActuatorHandle) X(EffortActuatorInterface, ActuatorHandle) \
  X(VelocityActuatorInterface, ActuatorHandle) X(PositionActuatorInterface, ActuatorHandle) X(JointModeInterface, JointModeHandle) X(ForceTorqueSensorInterface, ForceTorqueSensorHandle) X(ImuSensorInterface, ImuSensorHandle)
static const int NHW = 16;
static void h01(vh::Rng& r, long k) {
  switch (k % 24) {
#define X(I, Hd) case __COUNTER__: registryCase<I, Hd, HE>(r, #I); break;
    ALL_HW(X)
#undef X
    case 16: trRegistryCase<ti::ActuatorToJointPositionHandle, 0, true>(r, "ActuatorToJointPosition"); break;
    case 17: trRegistryCase<ti::JointToActuatorEffortHandle, 2, false>(r, "JointToActuatorEffort"); break;
    case 18: trRegistryCase<ti::ActuatorToJointVelocityHandle, 1, true>(r, "ActuatorToJointVelocity"); break;
    case 19: trRegistryCase<ti::JointToActuatorPositionHandle, 0, false>(r, "JointToActuatorPosition"); break;
    case 20: limRegistryCase<jl::PositionJointSaturationInterface, jl::PositionJointSaturationHandle, 0>(r, "PositionJointSaturation"); break;
    case 21: limRegistryCase<jl::VelocityJointSaturationInterface, jl::VelocityJointSaturationHandle, 1>(r, "VelocityJointSaturation"); break;
    case 22: limRegistryCase<jl::EffortJointSaturationInterface, jl::EffortJointSaturationHandle, 2>(r, "EffortJointSaturation"); break;
    case 23: trRegistryCase<ti::ActuatorToJointEffortHandle, 2, true>(r, "ActuatorToJointEffort"); break;
  }
}
// ---------------------------------------------------------------- H02
template <class F> static int outcome(F f) { try { f(); return 0; } catch (const HE&) { return 1; } catch (...) { return 2; } }
static void expectCtor(const S& tn, int got, bool allPresent, int mask) {
  int want = allPresent ? 0 : 1; H().count(allPresent ? "constructions accepted" : "constructions refused");
  if (got != want) H().fail(tn + "-ctor", tn + " with pointers missing (bit mask of those present " + std::to_string(mask) + "): " + (got == 0 ? "construction succeeds" : got == 1 ? "construction is refused" : "fails with another exception type"));
}
template <class SH> void stateCtors(const S& tn, Arena& a) {
  Block* b = a.add(); double* d = b->d;
  for (int mask = 0; mask < 32; ++mask) {
    const double* p[5]; for (int k = 0; k < 5; ++k) p[k] = mask >> k & 1 ? d + k : nullptr;
    if (mask < 8) expectCtor(tn, outcome([&] { SH("n", p[0], p[1], p[2]); }), mask == 7, mask);
    if (mask < 16) { const double* q = mask & 8 ? d + 3 : nullptr; expectCtor(tn + "+absolute", outcome([&] { SH("n", p[0], p[1], p[2], q); }), mask == 15, mask); const double* t = mask & 8 ? d + 4 : nullptr; expectCtor(tn + "+torque", outcome([&] { SH("n", p[0], p[1], p[2], t, true); }), mask == 15, mask); expectCtor(tn + "+torque", outcome([&] { SH("n", p[0], p[1], p[2], t, false); }), mask == 15, mask); }
    expectCtor(tn + "+both", outcome([&] { SH("n", p[0], p[1], p[2], p[3], p[4]); }), mask == 31, mask);
  }
}
template <class Hd> void liveCase(vh::Rng& r, const S& tn) {
  Arena a(r); struct E { S n; Block* b; std::unique_ptr<Hd> h; }; std::vector<E> es; int n = r.range(2, 5); uint64_t sig = vh::hashStr(tn);
  for (int k = 0; k < n; ++k) { E e; e.n = oddName(r, 14); e.b = a.add(r.range(0, 255)); e.h.reset(new Hd(T<Hd>::make(e.n, *e.b))); es.push_back(std::move(e)); }
  for (int op = r.range(4, 20); op > 0; --op) {
    int k = r.below(es.size()); int what = r.range(0, 9); sig = vh::mix(sig, what * 8 + k); { static const char* w[] = {"copy", "assign", "destroy", "move", "assign to default", "change data", "change data", "write", "write", "write"}; H().step(tn + " " + w[what] + " #" + std::to_string(k)); }
    if (what == 0) { E e; e.n = es[k].n; e.b = es[k].b; e.h.reset(new Hd(*es[k].h)); es.push_back(std::move(e)); H().count("copies"); }
    else if (what == 1) { int j = r.below(es.size()); *es[j].h = *es[k].h; es[j].n = es[k].n; es[j].b = es[k].b; H().count("copies"); }
    else if (what == 2 && es.size() > 1) { es.erase(es.begin() + k); }
    else if (what == 3) { E e; e.n = es[k].n; e.b = es[k].b; Hd tmp(*es[k].h); e.h.reset(new Hd(std::move(tmp))); es.push_back(std::move(e)); H().count("copies"); }
    else if (what == 4) { std::unique_ptr<Hd> h(new Hd); *h = *es[k].h; E e; e.n = es[k].n; e.b = es[k].b; e.h = std::move(h); es.push_back(std::move(e)); H().count("copies"); }
    else if (what < 7) a.shuffleAll();
    else if (T<Hd>::ways()) {
      Block* b = es[k].b; if (r.chance(25)) { for (double& x : b->d) x = r.chance(50) ? 0.0 : -0.0; H().count("writes over zeros of either sign"); }
      auto before = a.shot(); auto w = T<Hd>::write(*es[k].h, r.below(T<Hd>::ways()), r); H().count("command writes");
      std::set<int> may; for (auto& x : w) { may.insert(x.slot); bool ok = x.slot < 0 ? (int)b->mode == (int)x.v : vh::sameBits(b->d[x.slot], x.v); if (!ok) H().fail(tn + "-write", tn + ": writing " + vh::num(x.v) + " stores " + (x.slot < 0 ? S("another mode") : vh::num(b->d[x.slot]))); }
      for (auto& df : a.diff(before)) if (df.first != b || !may.count(df.second)) H().fail(tn + "-write", tn + ": a command write changed another variable (" + (df.first == b ? "of the same handle, slot " : "of another handle, slot ") + std::to_string(df.second) + ")");
    }
    auto before = a.shot();
    for (auto& e : es) { S x = checkFull(*e.h, e.n, *e.b); H().count("handle observations"); if (!x.empty()) { H().fail(tn + "-view", tn + " '" + e.n + "': " + x); return; } }
    if (!a.diff(before).empty()) H().fail(tn + "-read", tn + ": reading changed data");
  }
  // a command handle is also a state handle
  H().seen(sig);
}
template <class Hd> void slice(vh::Rng& r, const S& tn) { Arena a(r); Block* b = a.add(r.range(0, 3)); Hd h = T<Hd>::make("s", *b); JointStateHandle js(h); a.shuffleAll(); S x = checkFull(js, "s", *b); if (!x.empty()) H().fail(tn + "-slice", tn + " seen as a state handle: " + x); }
static void h02(vh::Rng& r, long k) {
  if (k % 12 == 11) {
    Arena a(r); stateCtors<JointStateHandle>("JointStateHandle", a); stateCtors<ActuatorStateHandle>("ActuatorStateHandle", a);
    Block* b = a.add(); double* d = b->d; auto P = [&](int m, int i) { return m >> i & 1 ? d + 5 + i : nullptr; };
    for (int v = 0; v < 4; ++v) {
      b->variant = v; JointStateHandle js = makeState<JointStateHandle>("n", *b); ActuatorStateHandle as = makeState<ActuatorStateHandle>("n", *b);
      for (int m = 0; m < 32; ++m) {
        if (m < 2) { expectCtor("JointHandle", outcome([&] { JointHandle(js, P(m, 0)); }), m == 1, m); expectCtor("ActuatorHandle", outcome([&] { ActuatorHandle(as, P(m, 0)); }), m == 1, m); expectCtor("JointModeHandle", outcome([&] { JointModeHandle("n", m ? &b->mode : nullptr); }), m == 1, m); }
        if (m < 4) expectCtor("PosVelJointHandle", outcome([&] { PosVelJointHandle(js, P(m, 0), P(m, 1)); }), m == 3, m);
        if (m < 8) expectCtor("PosVelAccJointHandle", outcome([&] { PosVelAccJointHandle(js, P(m, 0), P(m, 1), P(m, 2)); }), m == 7, m);
        expectCtor("PositionVelocityTorqueGainsJointHandle", outcome([&] { PositionVelocityTorqueGainsJointHandle(js, P(m, 0), P(m, 1), P(m, 2), P(m, 3), P(m, 4)); }), m == 31, m);
      }
    }
    slice<JointHandle>(r, "JointHandle"); slice<PosVelJointHandle>(r, "PosVelJointHandle"); slice<PosVelAccJointHandle>(r, "PosVelAccJointHandle"); slice<PositionVelocityTorqueGainsJointHandle>(r, "PositionVelocityTorqueGainsJointHandle");
    H().seen(k % 12); return;
  }
  switch (k % 12) {
    case 0: liveCase<JointStateHandle>(r, "JointStateHandle"); break; case 1: liveCase<ActuatorStateHandle>(r, "ActuatorStateHandle"); break; case 2: case 10: liveCase<JointHandle>(r, "JointHandle"); break;
    case 3: liveCase<ActuatorHandle>(r, "ActuatorHandle"); break; case 4: liveCase<PosVelJointHandle>(r, "PosVelJointHandle"); break; case 5: liveCase<PosVelAccJointHandle>(r, "PosVelAccJointHandle"); break;
    case 6: liveCase<PositionVelocityTorqueGainsJointHandle>(r, "PositionVelocityTorqueGainsJointHandle"); break; case 7: liveCase<JointModeHandle>(r, "JointModeHandle"); break;
    case 8: liveCase<ForceTorqueSensorHandle>(r, "ForceTorqueSensorHandle"); break; case 9: liveCase<ImuSensorHandle>(r, "ImuSensorHandle"); break;
  }
}
// ---------------------------------------------------------------- H03
template <class I, class Hd> void claimCase(vh::Rng& r, const S& tn, bool claims) {
  Arena a(r); I i, other; std::set<S> reg, want; int pool = r.range(2, 14); uint64_t sig = vh::hashStr(tn); long taken = 0, failed = 0, cleared = 0;
  for (int k = r.range(5, 40); k > 0; --k) {
    S n = nearName(r, pool); int op = r.range(0, 11); { static const char* w[] = {"register", "take", "clear", "list", "take elsewhere", "combine", "copy claims"}; H().step(tn + " " + w[op < 3 ? 0 : op < 7 ? 1 : op - 5] + " '" + n + "'"); } sig = vh::mix(sig, op * 64 + want.size() * 2 + reg.count(n));
    if (op < 3) { i.registerHandle(T<Hd>::make(n, *a.add())); reg.insert(n); other.registerHandle(T<Hd>::make(n, *a.add())); }
    else if (op < 7) { bool ok = true; try { Hd h = i.getHandle(n); if (T<Hd>::ways()) T<Hd>::write(h, 0, r); } catch (const std::exception&) { ok = false; } if (ok != (reg.count(n) > 0)) H().fail(tn + "-lookup", "lookup of '" + n + "' " + (ok ? "succeeds" : "fails")); if (ok) { ++taken; if (claims) want.insert(n); } else ++failed; }
    else if (op == 7) { i.clearClaims(); want.clear(); ++cleared; }
    else if (op == 8) i.getNames();
    else if (op == 9) { if (reg.count(n)) other.getHandle(n); }   // another interface of the same kind
    else if (op == 10) { std::vector<typename I::ResourceManagerType*> v{&i}; I c; I::concatManagers(v, &c); if (!c.getClaims().empty()) H().fail(tn + "-combine", "combining claimed resources in the result"); }
    else { std::set<S> c = i.getClaims(); c.insert("tampered"); }
    if (i.getClaims() != want) { S g; for (auto& x : i.getClaims()) g += "'" + x + "' "; S w; for (auto& x : want) w += "'" + x + "' "; H().fail(tn + "-claims", "claims are " + g + "instead of " + w); return; }
  }
  H().count(claims ? "handles taken from claiming interfaces" : "handles taken from non-claiming interfaces", taken); H().count("failed lookups", failed); H().count("claims cleared", cleared); H().count(tn + " cases"); H().seen(sig);
}
static void h03(vh::Rng& r, long k) {
#define CL(I) (S(#I).find("Joint") == 0 && S(#I) != "JointStateInterface" && S(#I) != "JointModeInterface") || S(#I).find("JointInterface") != S::npos
  int base = -1; (void)base; int c = 0, sel = k % NHW;
#define X(I, Hd) if (c++ == sel) claimCase<I, Hd>(r, #I, CL(I));
  ALL_HW(X)
#undef X
}
// ---------------------------------------------------------------- H04
namespace hwtest {
static long live = 0;
struct Counted : HardwareResourceManager<JointStateHandle> { Counted() { ++live; } Counted(const Counted& o) : HardwareResourceManager<JointStateHandle>(o) { ++live; } ~Counted() override { --live; } };
struct Claiming : HardwareResourceManager<JointHandle, ClaimResources> { Claiming() { ++live; } Claiming(const Claiming& o) : HardwareResourceManager<JointHandle, ClaimResources>(o) { ++live; } ~Claiming() override { --live; } };
struct Plain : HardwareInterface { int id = 0; };
}
template <class I> struct IName; 
#define NM(I, n) template <> struct IName<I> { static S get() { return n; } };
NM(JointStateInterface, "hardware_interface::JointStateInterface") NM(PositionJointInterface, "hardware_interface::PositionJointInterface") NM(EffortJointInterface, "hardware_interface::EffortJointInterface")
NM(ActuatorStateInterface, "hardware_interface::ActuatorStateInterface") NM(ImuSensorInterface, "hardware_interface::ImuSensorInterface") NM(hwtest::Counted, "hwtest::Counted") NM(hwtest::Claiming, "hwtest::Claiming") NM(hwtest::Plain, "hwtest::Plain")
struct Node;
struct Inst { void* p = nullptr; std::map<S, Block*> m; std::function<void()> grow; bool combined = false; };   // one interface instance of one type
struct Node { std::unique_ptr<RobotHW> hw{new RobotHW}; std::vector<Node*> kids; std::map<S, Inst*> own; Node* parent = nullptr; int depth = 0; };
struct Tree {
  vh::Rng& r; Arena a; std::vector<std::unique_ptr<Node>> nodes; std::vector<std::unique_ptr<Inst>> insts; std::vector<std::function<void()>> del; std::vector<std::function<void()>> poke; bool dups = false, big = false; int nextName = 0; uint64_t sig = 0;
  std::map<std::pair<Node*, S>, void*> cache;   // last lookup result with no registration since
  explicit Tree(vh::Rng& r) : r(r), a(r) { dups = r.chance(25); big = r.chance(4); }
  ~Tree() { for (auto& n : nodes) n->hw.reset(); for (auto& f : del) f(); }
  Node* add(Node* parent) { nodes.emplace_back(new Node); Node* n = nodes.back().get(); n->parent = parent; n->depth = parent ? parent->depth + 1 : 0; if (parent) { parent->kids.push_back(n); parent->hw->registerInterfaceManager(n->hw.get()); } cache.clear(); return n; }
  template <class I, class Hd> void reg(Node* n) {
    S t = IName<I>::get(); I* i = new I; del.push_back([i] { delete i; }); insts.emplace_back(new Inst); Inst* x = insts.back().get(); x->p = i;
    x->grow = [this, i, x] { S nm = dups ? oddName(r, 6) : "j" + std::to_string(nextName++); Block* b = a.add(r.range(0, 255)); i->registerHandle(T<Hd>::make(nm, *b)); x->m[nm] = b; };
    for (int k = big && r.chance(20) ? r.range(10, 40) : r.range(0, 4); k > 0; --k) x->grow();
    if (n->own.count(t)) H().count("replacements"); n->own[t] = x; n->hw->registerInterface(i); cache.clear(); H().count("interfaces registered");
  }
  void regPlain(Node* n) { auto* p = new hwtest::Plain; del.push_back([p] { delete p; }); insts.emplace_back(new Inst); insts.back()->p = p; n->own[IName<hwtest::Plain>::get()] = insts.back().get(); n->hw->registerInterface(p); cache.clear(); }
  /// a handle joins an interface that is registered already; one that was combined before stays as it was then
  void grow(Node* n) { for (auto& o : n->own) if (o.second->grow && !o.second->combined && r.chance(60)) { o.second->grow(); H().count("handles added after the interface was registered"); } }
  void below(Node* n, const S& t, std::vector<Inst*>& o) { auto i = n->own.find(t); if (i != n->own.end()) o.push_back(i->second); for (Node* k : n->kids) below(k, t, o); }
  template <class I, class Hd> void lookup(Node* n) {
    S t = IName<I>::get(); std::vector<Inst*> is; below(n, t, is); auto mem = a.shot(); I* g = n->hw->get<I>(); I* g2 = n->hw->get<I>(); H().count("lookups");
    if (!a.diff(mem).empty()) H().fail("lookup-memory", "a lookup changed joint data");
    if (g != g2) H().fail("repeat", "two lookups of " + t + " in a row return different interfaces");
    auto c = cache.find({n, t}); if (c != cache.end() && c->second != g) H().fail("repeat", "lookups of " + t + " without registrations in between return different interfaces"); cache[{n, t}] = g;
    if (is.empty()) { if (g) H().fail("none", t + " was found though nothing provides it"); return; }
    if (!g) { H().fail("missing", t + " was not found though " + std::to_string(is.size()) + " robots provide it"); return; }
    if (is.size() == 1) { H().count("single-instance lookups"); if ((void*)g != is[0]->p) { bool old = false; for (auto& x : insts) if (x->p == g) old = true; H().fail("instance", "looking up " + t + " does not return the registered instance" + (old ? " but another (replaced?) one" : "")); } return; }
    H().count("combined lookups"); H().seenSub("tree-shapes", sig); for (auto* x : is) x->combined = true;
    for (auto* x : is) if (x->p == (void*)g) { H().fail("combine-one", "several robots provide " + t + " but the lookup returns the instance of one"); return; }
    std::set<S> want; for (auto* x : is) for (auto& e : x->m) want.insert(e.first); auto names = g->getNames(); std::set<S> got(names.begin(), names.end());
    if (got != want || names.size() != got.size()) { H().fail("union", "combined " + t + " lists " + list(names) + "instead of " + list(std::vector<S>(want.begin(), want.end()))); return; }
    std::set<S> before = g->getClaims(); a.shuffleAll();
    for (auto& nm : want) {
      bool ok = false; S e; Hd h = static_cast<ResourceManager<Hd>*>(g)->getHandle(nm);   // without claiming
      for (auto* x : is) if (x->m.count(nm)) { e = checkFull(h, nm, *x->m[nm]); if (e.empty()) { ok = true; if (T<Hd>::ways()) { auto sh = a.shot(); auto w = T<Hd>::write(h, 0, r); for (auto& d : a.diff(sh)) if (d.first != x->m[nm]) H().fail("combined-write", "a command through a combined interface reached another robot's variable"); for (auto& q : w) if (!vh::sameBits(x->m[nm]->d[q.slot], q.v)) H().fail("combined-write", "a command through a combined interface did not reach its variable"); H().count("commands through combined interfaces"); } break; } }
      if (!ok) H().fail("combined-data", "handle '" + nm + "' of combined " + t + " does not operate on the data of any of its parts: " + e);
    }
    if (g->getClaims() != before) H().fail("claims", "looking at a combined interface changed its claims");
    if (!fresh.count(g)) { fresh.insert(g); if (!before.empty()) H().fail("claims", "a new combined interface has claims"); H().count("combined interfaces formed"); poke.push_back([g] { g->getNames(); }); }
    for (auto* x : is) if (!static_cast<I*>(x->p)->getClaims().empty()) H().fail("claims", "forming a combined interface claimed resources of a part");
  }
  std::set<void*> fresh;
  void lookupPlain(Node* n) {
    S t = IName<hwtest::Plain>::get(); std::vector<Inst*> is; below(n, t, is); auto* g = n->hw->get<hwtest::Plain>(); H().count("lookups");
    if (is.empty() ? g != nullptr : is.size() == 1 ? (void*)g != is[0]->p : g != nullptr) {
      H().fail("plain", "looking up a non-combinable type provided " + std::to_string(is.size()) + " times returns " + (g ? "an instance" : "nothing"));
    }
    if (is.size() > 1) H().count("ambiguous lookups");
  }
  void names(Node* n) {
    std::set<S> want; std::function<void(Node*)> f = [&](Node* x) { for (auto& o : x->own) want.insert(o.first); for (Node* k : x->kids) f(k); }; f(n); auto v = n->hw->getNames(); std::set<S> got(v.begin(), v.end()); H().count("listings");
    if (got != want || v.size() != got.size()) H().fail("names", "interfaces listed: " + list(v) + " registered: " + list(std::vector<S>(want.begin(), want.end())));
    std::vector<S> ts(want.begin(), want.end()); ts.push_back("no::Such"); 
    for (auto& t : ts) { std::vector<Inst*> is; below(n, t, is); std::multiset<S> w; for (auto* x : is) for (auto& e : x->m) w.insert(e.first); auto res = n->hw->getInterfaceResources(t); std::multiset<S> g2(res.begin(), res.end());
      bool ok = dups ? std::set<S>(g2.begin(), g2.end()) == std::set<S>(w.begin(), w.end()) : g2 == w; if (!ok) H().fail("resources", "resources of " + t + ": " + list(res) + "instead of " + list(std::vector<S>(w.begin(), w.end()))); }
  }
};
static void h04(vh::Rng& r, long) {
  long live0 = hwtest::live;
  {
    Tree t(r); t.add(nullptr); int ops = t.big ? r.range(60, 120) : r.range(6, 40); int maxDepth = t.big ? 8 : 3; size_t maxNodes = t.big ? 24 : 7; if (t.big) H().count("big robot trees");
    for (int k = 0; k < ops && H().violations.empty(); ++k) {
      Node* n = t.nodes[r.below(t.nodes.size())].get(); int op = r.range(0, 9); if (r.chance(15)) t.grow(n); H().step(std::string(op < 2 ? "add robot below" : op < 5 ? "register interface at" : op < 9 ? "look up at" : "list at") + " depth " + std::to_string(n->depth) + " (" + std::to_string(n->kids.size()) + " children)"); t.sig = vh::mix(t.sig, op * 16 + n->depth * 4 + n->kids.size());
      if (op < 2 && n->depth < maxDepth && t.nodes.size() < maxNodes) t.add(n);
      else if (op < 5) switch (r.below(8)) { case 0: t.reg<JointStateInterface, JointStateHandle>(n); break; case 1: t.reg<PositionJointInterface, JointHandle>(n); break; case 2: t.reg<EffortJointInterface, JointHandle>(n); break; case 3: t.reg<ActuatorStateInterface, ActuatorStateHandle>(n); break; case 4: t.reg<ImuSensorInterface, ImuSensorHandle>(n); break; case 5: t.regPlain(n); break; case 6: t.reg<hwtest::Claiming, JointHandle>(n); break; default: t.reg<hwtest::Counted, JointStateHandle>(n); }
      else if (op < 9) switch (r.below(8)) { case 0: t.lookup<JointStateInterface, JointStateHandle>(n); break; case 1: t.lookup<PositionJointInterface, JointHandle>(n); break; case 2: t.lookup<EffortJointInterface, JointHandle>(n); break; case 3: t.lookup<ActuatorStateInterface, ActuatorStateHandle>(n); break; case 4: t.lookup<ImuSensorInterface, ImuSensorHandle>(n); break; case 5: t.lookupPlain(n); break; case 6: t.lookup<hwtest::Claiming, JointHandle>(n); break; default: t.lookup<hwtest::Counted, JointStateHandle>(n); }
      else { if (r.chance(50)) t.grow(n); t.names(n); }
    }
    if (H().violations.empty()) { Node* n = t.nodes[0].get(); t.lookup<hwtest::Counted, JointStateHandle>(n); t.lookup<hwtest::Claiming, JointHandle>(n); t.lookup<PositionJointInterface, JointHandle>(n); t.names(n); for (auto& f : t.poke) f(); }   // every combination handed out is still there
    H().seen(t.sig);
  }
  if (hwtest::live != live0) H().fail("leak", std::to_string(hwtest::live - live0) + " combined interfaces were not released (or released twice) with their owner");
  hwtest::live = live0;
}
// non-combinable type provided twice below a child and once more beside it
static void h04hidden(vh::Rng& r, long) {
  RobotHW root, a, b, c; hwtest::Plain p1, p2, p3; b.registerInterface(&p1); c.registerInterface(&p2); a.registerInterfaceManager(&b); a.registerInterfaceManager(&c); root.registerInterfaceManager(&a); root.registerInterface(&p3); H().count("nested ambiguous lookups");
  if (root.get<hwtest::Plain>()) H().fail("nested-ambiguity", "three robots provide a type that cannot be combined, two of them nested in the same robot: the lookup returns one of the instances instead of nothing");
}
// ---------------------------------------------------------------- H05
static void h05(vh::Rng& r, long) {
  std::list<ControllerInfo> l; bool big = r.chance(2); int nc = big ? r.range(6, 40) : r.range(0, 5), pool = r.range(1, 12); bool wide = r.chance(60); std::map<S, int> occ; uint64_t sig = nc; int uniq = 0;
  for (int c = 0; c < nc; ++c) {
    ControllerInfo i; i.name = r.chance(20) ? "same" : oddName(r, 14) + std::to_string(c); i.type = oddName(r, 14);
    for (int k = r.range(0, 3); k > 0; --k) { InterfaceResources ir; ir.hardware_interface = r.chance(50) ? "iface" : "iface" + std::to_string(r.below(3)); for (int q = big && r.chance(30) ? r.range(4, 30) : r.range(0, 3); q > 0; --q) ir.resources.insert(wide || big ? "w" + std::to_string(r.chance(big ? 1 : 8) ? (int)r.below(20) : 100 + uniq++) : oddName(r, pool)); for (auto& x : ir.resources) ++occ[x]; i.claimed_resources.push_back(ir); sig = vh::mix(sig, ir.resources.size() * 31 + c); }
    l.push_back(i);
  }
  bool want = false; for (auto& o : occ) if (o.second > 1) want = true;
  auto str = [&] { S o; for (auto& c : l) { o += c.name + "["; for (auto& q : c.claimed_resources) { o += q.hardware_interface + ":"; for (auto& x : q.resources) o += x + ","; } o += "] "; } return o; };
  auto same = [](const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b) { if (a.size() != b.size()) return false; auto j = b.begin(); for (auto& x : a) { if (x.name != j->name || x.type != j->type || x.claimed_resources.size() != j->claimed_resources.size()) return false; for (size_t k = 0; k < x.claimed_resources.size(); ++k) if (x.claimed_resources[k].hardware_interface != j->claimed_resources[k].hardware_interface || x.claimed_resources[k].resources != j->claimed_resources[k].resources) return false; ++j; } return true; };
  H().step((want ? "conflict: " : "no conflict: ") + str()); RobotHW hw; auto copy = l; bool g = hw.checkForConflict(l); H().count(want ? "conflicting sets" : "conflict-free sets");
  if (g != want) H().fail(want ? "missed" : "false", S(want ? "a conflict is not reported: " : "a conflict is reported though there is none: ") + str());
  if (!same(l, copy)) H().fail("modified", "the check modified its input: " + str());
  if (hw.checkForConflict(l) != g) H().fail("repeat", "the same question is answered differently: " + str());
  for (int k = 0; k < 3; ++k) {
    std::vector<ControllerInfo> v(copy.begin(), copy.end()); for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); for (auto& c : v) for (size_t i = c.claimed_resources.size(); i > 1; --i) std::swap(c.claimed_resources[i - 1], c.claimed_resources[r.below(i)]);
    l.assign(v.begin(), v.end()); if (hw.checkForConflict(l) != want) H().fail("order", "the answer depends on the order: " + str()); H().count("reordered checks");
  }
  H().seen(sig);
}
int main(int argc, char** argv) {
  H().args(argc, argv); const S p = H().prop;
  if (p == "H01") { H().rule = "sequence of operations and registry sizes per interface type"; H().require("re-registrations", 100); H().require("failed lookups", 100); H().loop("reg", H().cases(24000, 1200000), h01); }
  else if (p == "H02") { H().rule = "sequence of copy/assign/move/write/shuffle operations per handle type"; H().require("command writes", 100); H().require("constructions refused", 100); H().loop("handles", H().cases(24000, 1200000), h02); }
  else if (p == "H03") { H().rule = "sequence of operations per interface type"; H().require("handles taken from claiming interfaces", 100); H().require("failed lookups", 100); H().loop("claims", H().cases(24000, 1200000), h03); }
  else if (p == "H04") { H().rule = "sequence of registrations and lookups over robot trees"; H().require("combined lookups", 100); H().require("replacements", 50); H().require("ambiguous lookups", 20); H().loop("lookup", H().cases(16000, 800000), h04); H().loop("nested", 8, h04hidden); }
  else if (p == "H05") { H().rule = "shapes of the claim lists"; H().require("conflicting sets", 100); H().require("conflict-free sets", 100); H().loop("conflict", H().cases(40000, 2000000), h05); }
  else { fprintf(stderr, "HARNESS-ERROR: unknown property %s\n", p.c_str()); return 3; }
  return H().finish();
}
