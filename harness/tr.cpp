// T01-T04: transmission maps, their isolation, their parameters, and transmission handles/interfaces.
#include "vh.h"
#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/transmission_interface.h>
#include <memory>
extern "C" void simBlock(const char*) {}
using namespace transmission_interface;
using vh::H; using vh::Rng; typedef std::string S; typedef long double L; typedef std::vector<double> V;
enum Q { EFF, VEL, POS, ABS, TOR };
static const char* QN[] = {"effort", "velocity", "position", "absolute position", "torque sensor"};
static std::vector<double*>& vec(ActuatorData& d, int q) { switch (q) { case EFF: return d.effort; case VEL: return d.velocity; case POS: return d.position; case ABS: return d.absolute_position; default: return d.torque_sensor; } }
static std::vector<double*>& vec(JointData& d, int q) { switch (q) { case EFF: return d.effort; case VEL: return d.velocity; case POS: return d.position; case ABS: return d.absolute_position; default: return d.torque_sensor; } }
// maps 0..4 actuator to joint by quantity, 5..7 joint to actuator
struct Map { bool a2j; int q; };
static const Map MAPS[] = {{true, EFF}, {true, VEL}, {true, POS}, {true, ABS}, {true, TOR}, {false, EFF}, {false, VEL}, {false, POS}};
static S mapName(int m) { return S(MAPS[m].a2j ? "actuatorToJoint " : "jointToActuator ") + QN[MAPS[m].q]; }
static void call(Transmission& t, int m, ActuatorData& a, JointData& j) {
  switch (m) {
    case 0: t.actuatorToJointEffort(a, j); break; case 1: t.actuatorToJointVelocity(a, j); break; case 2: t.actuatorToJointPosition(a, j); break; case 3: t.actuatorToJointAbsolutePosition(a, j); break;
    case 4: t.actuatorToJointTorqueSensor(a, j); break; case 5: t.jointToActuatorEffort(j, a); break; case 6: t.jointToActuatorVelocity(j, a); break; default: t.jointToActuatorPosition(j, a);
  }
}
static bool plainZero(const V& v) { for (double x : v) if (x != 0 || std::signbit(x)) return false; return v.size() == 2; }
static const char* KN[] = {"simple", "differential", "four-bar"};
struct Par {
  int kind = 0; V ar, jr, off; bool ign = false; int ctor = 0;
  size_t n() const { return kind ? 2 : 1; }
  std::unique_ptr<Transmission> make() const {
    if (kind == 0) return std::unique_ptr<Transmission>(ctor == 1 && off[0] == 0 && !std::signbit(off[0]) ? new SimpleTransmission(ar[0]) : new SimpleTransmission(ar[0], off[0]));
    if (kind == 1) { bool z = plainZero(off); if (ctor == 0 && !ign) return std::unique_ptr<Transmission>(new DifferentialTransmission(ar, jr, off)); if (ctor == 1 && z) return std::unique_ptr<Transmission>(ign ? new DifferentialTransmission(ar, jr, true) : new DifferentialTransmission(ar, jr)); return std::unique_ptr<Transmission>(new DifferentialTransmission(ar, jr, ign, off)); }
    if (ctor == 1 && plainZero(off)) return std::unique_ptr<Transmission>(new FourBarLinkageTransmission(ar, jr));
    return std::unique_ptr<Transmission>(new FourBarLinkageTransmission(ar, jr, off));
  }
  S str() const { std::ostringstream o; o << KN[kind] << " ar"; for (double x : ar) o << " " << vh::num(x); o << " jr"; for (double x : jr) o << " " << vh::num(x); o << " off"; for (double x : off) o << " " << vh::num(x); if (ign) o << " ignore-abs"; return o.str(); }
};
static double red(Rng& r, int wild) { for (;;) { double v = 0; switch (r.below(6)) { case 0: v = r.range(-3, 3); break; case 1: v = r.uniform(-200, 200); break; case 2: v = (r.chance(50) ? 1 : -1) * std::pow(2.0, r.range(-6, 6)); break; case 3: v = r.uniform(-1, 1) * std::pow(10.0, r.range(-wild, wild)); break; case 4: v = r.chance(50) ? 1 : -1; break; default: v = r.uniform(-2, 2); } if (v != 0 && std::fabs(v) > 1e-40) return v; } }
static double inp(Rng& r) { return r.anyFinite(); }
static Par rndPar(Rng& r) {
  Par p; p.kind = (int)r.below(3); p.ctor = (int)r.below(3); int wild = r.chance(15) ? 38 : 6;
  for (size_t i = 0; i < p.n(); ++i) { p.ar.push_back(red(r, wild)); if (p.kind) p.jr.push_back(red(r, wild)); p.off.push_back(0); }
  if (r.chance(70)) for (double& x : p.off) x = inp(r);
  p.ign = p.kind == 1 && r.chance(20); return p;
}
// The documented formula of map m. With ab set every sign is dropped, which gives the magnitude rounding is relative to.
static void ref(const Par& p, int m, const L* in, L* out, bool ab) {
  auto A = [&](L x) { return ab ? std::fabs(x) : x; }; L s = ab ? 1 : -1;
  L a0 = A(p.ar[0]), o0 = A(p.off[0]), j0 = 1, a1 = 1, j1 = 1, o1 = 0; if (p.kind) { a1 = A(p.ar[1]); j0 = A(p.jr[0]); j1 = A(p.jr[1]); o1 = A(p.off[1]); }
  int q = MAPS[m].q; bool pos = q == POS || q == ABS; if (!pos) o0 = o1 = 0; bool eff = q == EFF || q == TOR; L x = A(in[0]), y = p.kind ? A(in[1]) : 0;
  if (MAPS[m].a2j) {
    if (p.kind == 0) out[0] = eff ? a0 * x : x / a0 + o0;
    else if (p.kind == 1) { if (eff) { out[0] = j0 * (x * a0 + y * a1); out[1] = j1 * (x * a0 + s * y * a1); } else { out[0] = (x / a0 + y / a1) / (2 * j0) + o0; out[1] = (x / a0 + s * y / a1) / (2 * j1) + o1; } }
    else if (eff) { out[0] = j0 * a0 * x; out[1] = j1 * (a1 * y + s * j0 * a0 * x); }
    else { out[0] = x / (j0 * a0) + o0; out[1] = (y / a1 + s * x / (j0 * a0)) / j1 + o1; }
  } else {
    x = x + s * o0; y = y + s * o1; if (ab) { x = std::fabs(in[0]) + o0; y = p.kind ? std::fabs(in[1]) + o1 : 0; }
    if (p.kind == 0) out[0] = eff ? x / a0 : x * a0;
    else if (p.kind == 1) { if (eff) { out[0] = (x / j0 + y / j1) / (2 * a0); out[1] = (x / j0 + s * y / j1) / (2 * a1); } else { out[0] = a0 * (j0 * x + j1 * y); out[1] = a1 * (j0 * x + s * j1 * y); } }
    else if (eff) { out[0] = x / (j0 * a0); out[1] = (x + y / j1) / a1; }
    else { out[0] = j0 * a0 * x; out[1] = a1 * (x + j1 * y); }
  }
}
static const L TOL = 64 * std::numeric_limits<double>::epsilon();
static V run(Transmission& t, int m, const V& in) {
  size_t n = in.size(); V i = in, o(n, 0); for (double& x : o) x = -7.25; ActuatorData a; JointData j; auto& vi = MAPS[m].a2j ? vec(a, MAPS[m].q) : vec(j, MAPS[m].q); auto& vo = MAPS[m].a2j ? vec(j, MAPS[m].q) : vec(a, MAPS[m].q);
  for (double& x : i) vi.push_back(&x); for (double& x : o) vo.push_back(&x); call(t, m, a, j); return o;
}
static bool representable(const L* m, size_t n) { for (size_t i = 0; i < n; ++i) if (m[i] > 1e300L) return false; return true; }
static bool sameV(const V& a, const V& b) { for (size_t i = 0; i < a.size(); ++i) if (!vh::sameBits(a[i], b[i])) return false; return a.size() == b.size(); }
static S vs(const V& v) { S o = "("; for (double x : v) o += (o.size() > 1 ? ", " : "") + vh::num(x); return o + ")"; }
static void T01() {
  H().rule = "distinct = distinct (transmission kind, reduction sign/magnitude pattern, offset pattern, map sequence) tuples; every map evaluation is compared with the documented formula in extended precision";
  H().loop("maps", H().cases(40000, 1500000), [](Rng& r, long) {
    Par p = rndPar(r); auto t = p.make(); size_t n = p.n(); uint64_t h = vh::mix(p.kind * 4 + p.ign, 1);
    auto cls = [&](double x) { int e = 0; std::frexp(x, &e); h = vh::mix(h, (uint64_t)(e / 4 + 1000) * 2 + std::signbit(x)); }; for (double x : p.ar) cls(x); for (double x : p.jr) cls(x); for (double x : p.off) cls(x);
    int steps = r.chance(1) ? r.range(200, 600) : r.range(3, 14);
    for (int s = 0; s < steps && H().violations.empty(); ++s) {
      int m = (int)r.below(8); h = vh::mix(h, m); V in; for (size_t i = 0; i < n; ++i) in.push_back(inp(r));
      V out = run(*t, m, in); auto fresh = p.make(); H().count("map evaluations");
      if (!sameV(out, run(*fresh, m, in))) H().fail("history", mapName(m) + " of " + p.str() + " on " + vs(in) + ": a used transmission and a new one disagree");
      if (p.ign && MAPS[m].q == ABS && MAPS[m].a2j) { H().count("ignored absolute-encoder maps"); if (!(sameV(out, in) || sameV(out, {in[1], in[0]}))) H().fail("ignore-abs", mapName(m) + " of " + p.str() + " on " + vs(in) + " gives " + vs(out) + ", not the encoder values"); continue; }
      L li[2] = {0, 0}, e[2] = {0, 0}, mg[2] = {0, 0}; for (size_t i = 0; i < n; ++i) li[i] = in[i]; ref(p, m, li, e, false); ref(p, m, li, mg, true);
      if (!representable(mg, n)) continue;
      for (size_t i = 0; i < n; ++i) if (!(std::fabs((L)out[i] - e[i]) <= TOL * mg[i] + 1e-290L)) H().fail("formula:" + S(KN[p.kind]) + ":" + mapName(m), mapName(m) + " of " + p.str() + " on " + vs(in) + " gives " + vs(out) + "; output " + std::to_string(i) + " should be " + vh::num((double)e[i]));
      // round trip
      static const int inv[] = {5, 6, 7, -1, -1, 0, 1, 2}; if (inv[m] >= 0) {
        V back = run(*t, inv[m], out); L m2[2] = {0, 0}; ref(p, inv[m], mg, m2, true); if (!representable(m2, n)) continue; H().count("round trips");
        for (size_t i = 0; i < n; ++i) if (!(std::fabs((L)back[i] - in[i]) <= TOL * m2[i] + 1e-290L)) H().fail("roundtrip:" + S(KN[p.kind]) + ":" + mapName(m), mapName(m) + " and back of " + p.str() + " turns " + vs(in) + " into " + vs(back));
      }
    }
    if (p.kind < 2) { // power
      bool a2j = r.chance(50); V e, v; for (size_t i = 0; i < n; ++i) { e.push_back(inp(r)); v.push_back(inp(r)); } V e2 = run(*t, a2j ? 0 : 5, e), v2 = run(*t, a2j ? 1 : 6, v); L w = 0, w2 = 0, mag = 0, le[2], lv[2], me[2], mv[2];
      for (size_t i = 0; i < n; ++i) { le[i] = e[i]; lv[i] = v[i]; w += (L)e[i] * v[i]; w2 += (L)e2[i] * v2[i]; } ref(p, a2j ? 0 : 5, le, me, true); ref(p, a2j ? 1 : 6, lv, mv, true); for (size_t i = 0; i < n; ++i) mag += me[i] * mv[i];
      H().count("power comparisons"); if (!(std::fabs(w - w2) <= TOL * mag + 1e-290L)) H().fail("power:" + S(KN[p.kind]), "power " + vh::num((double)w) + " becomes " + vh::num((double)w2) + " for " + p.str() + " effort " + vs(e) + " velocity " + vs(v));
    }
    H().seen(h); if (H().samples.size() < 3) H().sample(p.str());
  });
  for (auto s : {"map evaluations", "round trips", "power comparisons", "ignored absolute-encoder maps"}) H().require(s, 100);
}
// Some data vectors with pointers into one arena; q present according to the mask (bit q actuator, bit 5+q joint)
struct Data { std::unique_ptr<double[]> mem; size_t n; ActuatorData a; JointData j; std::map<int, size_t> at; };
static Data data(Rng& r, int mask, size_t na, size_t nj) {
  Data d; d.n = 10 * 3 * 3 + 8; d.mem.reset(new double[d.n]); for (size_t i = 0; i < d.n; ++i) d.mem[i] = r.anyBits();
  std::vector<size_t> slots; for (size_t i = 1; i + 1 < d.n; ++i) slots.push_back(i); for (size_t i = slots.size() - 1; i > 0; --i) std::swap(slots[i], slots[r.below(i + 1)]);
  size_t k = 0; for (int q = 0; q < 10; ++q) if (mask >> q & 1) { auto& v = q < 5 ? vec(d.a, q) : vec(d.j, q - 5); for (size_t i = 0; i < (q < 5 ? na : nj); ++i) v.push_back(&d.mem[slots[k++]]); }
  return d;
}
static std::vector<std::vector<double*>> ptrs(Data& d) { std::vector<std::vector<double*>> o; for (int q = 0; q < 5; ++q) { o.push_back(vec(d.a, q)); o.push_back(vec(d.j, q)); } return o; }
static V parsOf(Transmission* t, int kind) {
  V o; if (kind == 0) { auto* s = static_cast<SimpleTransmission*>(t); return {s->getActuatorReduction(), s->getJointOffset()}; }
  auto add = [&](const V& v) { o.insert(o.end(), v.begin(), v.end()); o.push_back((double)v.size()); };
  if (kind == 1) { auto* s = static_cast<DifferentialTransmission*>(t); add(s->getActuatorReduction()); add(s->getJointReduction()); add(s->getJointOffset()); }
  else { auto* s = static_cast<FourBarLinkageTransmission*>(t); add(s->getActuatorReduction()); add(s->getJointReduction()); add(s->getJointOffset()); }
  return o;
}
static void T02() {
  H().rule = "distinct = distinct (transmission kind, map, set of supplied quantities) combinations; after every call the whole data arena is compared bit by bit";
  H().loop("isolation", H().cases(60000, 2000000), [](Rng& r, long) {
    Par p = rndPar(r); auto t = p.make(); size_t n = p.n(); V before = parsOf(t.get(), p.kind);
    for (int k = 0; k < 4; ++k) {
      int m = (int)r.below(8), q = MAPS[m].q, mask = r.chance(30) ? 0 : (int)r.below(1024); mask |= 1 << q | 1 << (5 + q); if (k == 0) H().seen(vh::mix(p.kind * 8 + m, mask)); H().seenSub("inputs", vh::mix(vh::mix(p.kind * 8 + m, mask), r.s));
      Data d = data(r, mask, n, n); V old(d.mem.get(), d.mem.get() + d.n); auto pp = ptrs(d);
      auto in = MAPS[m].a2j ? vec(d.a, q) : vec(d.j, q), out = MAPS[m].a2j ? vec(d.j, q) : vec(d.a, q); V iv; for (auto* x : in) iv.push_back(*x);
      call(*t, m, d.a, d.j); H().count("map calls"); H().step(mapName(m) + " of " + p.str() + " with quantity mask " + std::to_string(mask));
      V exp = run(*p.make(), m, iv); // with nothing else supplied and differently filled outputs
      for (size_t i = 0; i < n; ++i) old[out[i] - d.mem.get()] = exp[i];
      for (size_t i = 0; i < d.n; ++i) { bool bad = !vh::sameBits(old[i], d.mem[i]); if (bad && std::isnan(old[i]) && std::isnan(d.mem[i])) bad = false;
        if (bad) { bool isOut = false; for (auto* x : out) isOut |= x == &d.mem[i]; H().fail(isOut ? "output" : "foreign-write", mapName(m) + " of " + p.str() + " with quantity mask " + std::to_string(mask) + (isOut ? ": the output depends on other quantities, or was not written: " : ": a variable that is not an output changed: ") + vh::num(old[i]) + " became " + vh::num(d.mem[i])); } }
      if (ptrs(d) != pp) H().fail("pointers", mapName(m) + " changed the data vectors");
      H().count(__builtin_popcount(mask) == 2 ? "calls with all other quantities absent" : "calls with other quantities present");
    }
    if (!sameV(before, parsOf(t.get(), p.kind))) H().fail("self", "a map changed the parameters of " + p.str());
  });
  for (auto s : {"map calls", "calls with all other quantities absent", "calls with other quantities present"}) H().require(s, 100);
}
static void T03() {
  H().rule = "distinct = distinct (kind, vector lengths, which entries are zero or negative zero, constructor form)";
  H().loop("parameters", H().cases(120000, 3000000), [](Rng& r, long) {
    Par p; p.kind = (int)r.below(3); p.ctor = (int)r.below(3); p.ign = p.kind == 1 && r.chance(30); int style = (int)r.below(4); // sizes: mostly right
    auto len = [&] { return style == 0 ? r.range(0, 4) : style == 1 && r.chance(20) ? r.range(0, 3) : 2; };
    auto val = [&](bool reduction) { if (r.chance(reduction ? 10 : 30)) return r.chance(50) ? 0.0 : -0.0; if (r.chance(8)) return (r.chance(50) ? 1 : -1) * std::numeric_limits<double>::denorm_min(); if (r.chance(5)) return 1e-300; double v = inp(r); return reduction && v == 0 ? 1.5 : v; };
    if (p.kind == 0) { p.ar = {val(true)}; p.off = {val(false)}; } else { for (int i = len(); i > 0; --i) p.ar.push_back(val(true)); for (int i = len(); i > 0; --i) p.jr.push_back(val(true)); for (int i = len(); i > 0; --i) p.off.push_back(val(false)); }
    bool valid = true; uint64_t h = p.kind * 8 + p.ctor * 2 + p.ign; for (double x : p.ar) { valid &= x != 0; h = vh::mix(h, (x == 0) + 2 * std::signbit(x)); } h = vh::mix(h, 77); for (double x : p.jr) { valid &= x != 0; h = vh::mix(h, (x == 0) + 2 * std::signbit(x)); } h = vh::mix(h, p.off.size());
    if (p.kind) valid &= p.ar.size() == 2 && p.jr.size() == 2 && p.off.size() == 2; H().seen(h);
    std::unique_ptr<Transmission> t; bool threw = false;
    try { t = p.make(); } catch (const TransmissionInterfaceException&) { threw = true; } catch (const std::exception& e) { H().fail("type", p.str() + ": wrong exception: " + e.what()); return; }
    H().count(valid ? "valid parameters" : "invalid parameters"); H().step(p.str() + (threw ? " refused" : " accepted"));
    if (threw == valid) { H().fail(valid ? "refused" : "accepted", p.str() + (valid ? ": valid parameters refused" : ": invalid parameters accepted")); return; }
    if (!valid) return;
    if (t->numActuators() != p.n() || t->numJoints() != p.n()) H().fail("size", p.str() + ": reports a wrong number of actuators or joints");
    if (!t->hasActuatorToJointAbsolutePosition() || !t->hasActuatorToJointTorqueSensor()) H().fail("capabilities", p.str() + ": does not offer the absolute position and torque sensor maps it has");
    V g = parsOf(t.get(), p.kind), e; if (p.kind == 0) e = {p.ar[0], p.off[0]}; else for (auto* v : {&p.ar, &p.jr, &p.off}) { e.insert(e.end(), v->begin(), v->end()); e.push_back(2); }
    if (!sameV(g, e)) H().fail("getters", p.str() + ": getters return " + vs(g) + " instead of " + vs(e));
  });
  H().require("valid parameters", 500); H().require("invalid parameters", 500);
}
// A transmission of any size that records nothing but computes an own, input-dependent map, and may lack optional maps
struct Odd : Transmission {
  size_t na, nj; bool abs_, tor_; int* illegal;
  Odd(size_t na, size_t nj, bool a, bool t, int* il) : na(na), nj(nj), abs_(a), tor_(t), illegal(il) {}
  static void mapTo(const std::vector<double*>& i, const std::vector<double*>& o, double k) { for (size_t x = 0; x < o.size(); ++x) { double s = 0; for (size_t y = 0; y < i.size(); ++y) s += *i[y] * (double)(y + 1 + 3 * x); *o[x] = s * k + (double)x; } }
  void actuatorToJointEffort(const ActuatorData& a, JointData& j) override { mapTo(a.effort, j.effort, 2); }
  void actuatorToJointVelocity(const ActuatorData& a, JointData& j) override { mapTo(a.velocity, j.velocity, 3); }
  void actuatorToJointPosition(const ActuatorData& a, JointData& j) override { mapTo(a.position, j.position, 5); }
  void actuatorToJointAbsolutePosition(const ActuatorData& a, JointData& j) override { if (!abs_) { ++*illegal; throw std::runtime_error("unsupported"); } mapTo(a.absolute_position, j.absolute_position, 7); }
  void actuatorToJointTorqueSensor(const ActuatorData& a, JointData& j) override { if (!tor_) { ++*illegal; throw std::runtime_error("unsupported"); } mapTo(a.torque_sensor, j.torque_sensor, 11); }
  bool hasActuatorToJointAbsolutePosition() const override { return abs_; } bool hasActuatorToJointTorqueSensor() const override { return tor_; }
  void jointToActuatorEffort(const JointData& j, ActuatorData& a) override { mapTo(j.effort, a.effort, 13); }
  void jointToActuatorVelocity(const JointData& j, ActuatorData& a) override { mapTo(j.velocity, a.velocity, 17); }
  void jointToActuatorPosition(const JointData& j, ActuatorData& a) override { mapTo(j.position, a.position, 19); }
  size_t numActuators() const override { return na; } size_t numJoints() const override { return nj; }
};
struct Any { std::unique_ptr<Transmission> t; std::function<std::unique_ptr<Transmission>()> again; S str; };
static Any rndAny(Rng& r, int* illegal) {
  Any a; if (r.chance(40)) { size_t na = (size_t)r.range(1, 3), nj = (size_t)r.range(1, 3); bool x = r.chance(50), y = r.chance(50); a.again = [=] { return std::unique_ptr<Transmission>(new Odd(na, nj, x, y, illegal)); }; a.str = "custom " + std::to_string(na) + "x" + std::to_string(nj) + (x ? " abs" : "") + (y ? " torque" : ""); }
  else { Par p = rndPar(r); a.again = [p] { return p.make(); }; a.str = p.str(); }
  a.t = a.again(); return a;
}
// kinds of handles: which maps each performs
template <class Hd> struct Need;
#define NEED(X, ...) template <> struct Need<X> { static std::vector<int> maps() { return {__VA_ARGS__}; } static const char* name() { return #X; } };
NEED(ActuatorToJointStateHandle, 2, 1, 0, 3, 4) NEED(ActuatorToJointPositionHandle, 2) NEED(ActuatorToJointVelocityHandle, 1) NEED(ActuatorToJointEffortHandle, 0)
NEED(JointToActuatorStateHandle, 7, 6, 5) NEED(JointToActuatorPositionHandle, 7) NEED(JointToActuatorVelocityHandle, 6) NEED(JointToActuatorEffortHandle, 5)
template <class Hd> void ctorCase(Rng& r) {
  int illegal = 0; Any t = rndAny(r, &illegal); size_t na = t.t->numActuators(), nj = t.t->numJoints(); int mask = r.chance(20) ? (1 << ABS | 1 << TOR | 1 << (5 + ABS) | 1 << (5 + TOR)) & (int)r.below(1024) : (int)r.below(1024);
  Data d = data(r, mask, na, nj); bool valid = mask & ~(1 << ABS | 1 << TOR | 1 << (5 + ABS) | 1 << (5 + TOR)); S why;
  int faults = r.chance(50) ? 0 : r.range(1, 2);
  for (int f = 0; f < faults; ++f) { // break one of the vectors
    int q = (int)r.below(10); auto& v = q < 5 ? vec(d.a, q) : vec(d.j, q - 5); if (v.empty()) continue;
    switch (r.below(3)) { case 0: v.push_back(v[0]); break; case 1: v.pop_back(); break; default: v[r.below(v.size())] = nullptr; }
  }
  bool any = false; for (int q = 0; q < 10; ++q) { auto& v = q < 5 ? vec(d.a, q) : vec(d.j, q - 5); if (!v.empty() && v.size() != (q < 5 ? na : nj)) { valid = false; why = "size"; } for (auto* x : v) if (!x) { valid = false; why = "null"; } if (q % 5 < 3) any |= !v.empty(); }
  if (!any) { valid = false; why = "nothing"; } bool null = r.chance(6); if (null) { valid = false; why = "no transmission"; }
  S name = "t" + std::to_string(r.below(100)); bool threw = false; V old(d.mem.get(), d.mem.get() + d.n);
  try { Hd h(name, null ? nullptr : t.t.get(), d.a, d.j); if (h.getName() != name) H().fail("name", "a handle named " + name + " reports " + h.getName()); }
  catch (const TransmissionInterfaceException&) { threw = true; } catch (const std::exception& e) { H().fail("type", S(Need<Hd>::name()) + ": wrong exception: " + e.what()); return; }
  H().count(valid ? "valid handles" : "invalid handles: " + why); H().step(S("construct ") + Need<Hd>::name() + " over " + t.str + (threw ? ": refused" : ": accepted")); H().seen(vh::mix(vh::mix(vh::hashStr(Need<Hd>::name()), mask), vh::hashStr(why)));
  if (threw == valid) { std::ostringstream o; o << Need<Hd>::name() << " over " << t.str << ", sizes"; for (int q = 0; q < 10; ++q) o << " " << (q < 5 ? vec(d.a, q) : vec(d.j, q - 5)).size(); H().fail(valid ? "refused" : "accepted:" + why, o.str() + (valid ? ": valid data refused" : ": invalid data accepted (" + why + ")")); }
  if (!sameV(old, V(d.mem.get(), d.mem.get() + d.n))) H().fail("ctor-write", "constructing a handle changed data");
}
template <class Hd> void propCase(Rng& r) {
  struct One { Any t; Data d; std::unique_ptr<Transmission> side; S name; bool live = true; }; std::vector<std::unique_ptr<One>> all; int illegal = 0;
  TransmissionInterface<Hd> ti; bool big = r.chance(2); int n = big ? r.range(8, 40) : r.range(0, 5); if (big) H().count("big interfaces"); uint64_t h = vh::hashStr(Need<Hd>::name()); bool state = Need<Hd>::maps().size() > 1;
  for (int i = 0; i < n; ++i) {
    std::unique_ptr<One> o(new One); o->t = rndAny(r, &illegal); o->side = o->t.again(); int mask = (int)r.below(1024); // abs/torque on both sides or on none
    for (int q : {ABS, TOR}) { if (state && r.chance(60)) mask |= 1 << q | 1 << (5 + q); else mask &= ~(1 << q | 1 << (5 + q)); }
    for (int m : Need<Hd>::maps()) if (MAPS[m].q < ABS) mask |= 1 << MAPS[m].q | 1 << (5 + MAPS[m].q);
    o->d = data(r, mask, o->t.t->numActuators(), o->t.t->numJoints()); o->name = "t" + std::to_string(r.chance(90) ? i : 0); h = vh::mix(h, vh::mix(mask, vh::hashStr(o->t.str.substr(0, 6))));
    for (auto& x : all) if (x->name == o->name) x->live = false; // a handle registered again under its name is replaced
    ti.registerHandle(Hd(o->name, o->t.t.get(), o->d.a, o->d.j)); all.push_back(std::move(o));
  }
  H().seen(h);
  for (int round = r.range(1, 3); round > 0; --round) {
    std::vector<V> want;
    for (auto& o : all) {
      if (round) for (size_t i = 0; i < o->d.n; ++i) if (r.chance(60)) o->d.mem[i] = r.chance(80) ? inp(r) : r.anyBits();
      V cur(o->d.mem.get(), o->d.mem.get() + o->d.n);
      if (o->live) for (int m : Need<Hd>::maps()) { // the transmission's own map on separate data
        int q = MAPS[m].q; auto &ai = vec(o->d.a, q), &ji = vec(o->d.j, q); if (q == ABS && !(o->side->hasActuatorToJointAbsolutePosition() && !ai.empty())) continue; if (q == TOR && !(o->side->hasActuatorToJointTorqueSensor() && !ai.empty())) continue;
        ActuatorData a; JointData j; V av, jv; for (auto* x : ai) av.push_back(*x); for (auto* x : ji) jv.push_back(*x); for (double& x : av) vec(a, q).push_back(&x); for (double& x : jv) vec(j, q).push_back(&x); call(*o->side, m, a, j); H().count("maps propagated");
        if (MAPS[m].a2j) for (size_t i = 0; i < jv.size(); ++i) cur[ji[i] - o->d.mem.get()] = jv[i]; else for (size_t i = 0; i < av.size(); ++i) cur[ai[i] - o->d.mem.get()] = av[i];
      }
      want.push_back(cur);
    }
    H().step(S("propagate ") + std::to_string(n) + " " + Need<Hd>::name()); try { ti.propagate(); } catch (const std::exception& e) { H().fail("throw", S(Need<Hd>::name()) + ": propagate failed: " + e.what() + (illegal ? " (a map the transmission does not support was asked for)" : "")); return; }
    H().count("propagations"); if (n > 1) H().count("propagations of several handles");
    for (size_t k = 0; k < all.size(); ++k) for (size_t i = 0; i < all[k]->d.n; ++i) { double g = all[k]->d.mem[i], w = want[k][i]; if (!vh::sameBits(g, w) && !(std::isnan(g) && std::isnan(w))) H().fail("propagate:" + S(Need<Hd>::name()), S(Need<Hd>::name()) + " propagation over " + std::to_string(n) + " handles (" + all[k]->t.str + "): a variable is " + vh::num(g) + " instead of " + vh::num(w)); }
  }
}
static void T04() {
  H().rule = "distinct = distinct (handle type, supplied quantities, fault) constructions and (handle type, supplied quantities and transmission of every registered handle) propagations";
  H().loop("handles", H().cases(60000, 2000000), [](Rng& r, long) {
    bool p = r.chance(50);
#define K(i, X) case i: p ? propCase<X>(r) : ctorCase<X>(r); break;
    switch (r.below(8)) { K(0, ActuatorToJointStateHandle) K(1, ActuatorToJointPositionHandle) K(2, ActuatorToJointVelocityHandle) K(3, ActuatorToJointEffortHandle) K(4, JointToActuatorStateHandle) K(5, JointToActuatorPositionHandle) K(6, JointToActuatorVelocityHandle) K(7, JointToActuatorEffortHandle) }
  });
  for (auto s : {"valid handles", "invalid handles: size", "invalid handles: null", "invalid handles: nothing", "invalid handles: no transmission", "maps propagated", "propagations of several handles"}) H().require(s, 50);
}
int main(int argc, char** argv) {
  H().args(argc, argv);
  if (H().prop == "T01") T01(); else if (H().prop == "T02") T02(); else if (H().prop == "T03") T03(); else if (H().prop == "T04") T04(); else { fprintf(stderr, "HARNESS-ERROR: unknown property\n"); return 3; }
  return H().finish();
}
