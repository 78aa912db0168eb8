// J01-J07: joint limits: enforcement against interval-valued reference bounds, and reading limits from parameters and URDF joints.
#include "vh.h"
#include <joint_limits_interface/joint_limits.h>
#include <joint_limits_interface/joint_limits_interface.h>
#include <joint_limits_interface/joint_limits_rosparam.h>
#include <joint_limits_interface/joint_limits_urdf.h>
#include <memory>
extern "C" void simBlock(const char*) {}
using namespace joint_limits_interface; namespace hi = hardware_interface;
using vh::H; using vh::Rng; typedef std::string S; typedef long double L;
enum Kind { PSAT, PSOFT, ESAT, ESOFT, VSAT, VSOFT };
static const char* KN[] = {"position saturation", "soft position limits", "effort saturation", "effort soft limits", "velocity saturation", "velocity soft limits"};
struct Var { double pos = 0, vel = 0, eff = 0, cmd = 0; };
struct Spec { int kind = 0; JointLimits l; SoftJointLimits s; };
static bool constructible(const Spec& s) { switch (s.kind) { case PSAT: case VSOFT: return true; case PSOFT: case VSAT: return s.l.has_velocity_limits; default: return s.l.has_velocity_limits && s.l.has_effort_limits; } }
static S show(const Spec& s) {
  std::ostringstream o; o << KN[s.kind] << " {"; auto n = [](double d) { return vh::num(d); };
  if (s.l.has_position_limits) o << " position [" << n(s.l.min_position) << ", " << n(s.l.max_position) << "]"; if (s.l.has_velocity_limits) o << " velocity " << n(s.l.max_velocity); if (s.l.has_acceleration_limits) o << " acceleration " << n(s.l.max_acceleration); if (s.l.has_effort_limits) o << " effort " << n(s.l.max_effort);
  if (s.kind == PSOFT || s.kind == ESOFT || s.kind == VSOFT) o << " soft [" << n(s.s.min_position) << ", " << n(s.s.max_position) << "] k_position " << n(s.s.k_position) << " k_velocity " << n(s.s.k_velocity); return o.str() + " }";
}
static double scaleOf(Rng& r) { return r.chance(60) ? 1 : std::pow(10.0, r.range(-6, 6)); }
static Spec rndSpec(Rng& r, int kind, int missing = 8) {
  Spec p; p.kind = kind; double sc = scaleOf(r); JointLimits& l = p.l; SoftJointLimits& s = p.s;
  l.has_position_limits = r.chance(75); double a = r.chance(20) ? r.range(-3, 3) : r.uniform(-4, 4), b = r.chance(20) ? r.range(-3, 3) : r.uniform(-4, 4); if (r.chance(5)) b = a; l.min_position = std::min(a, b) * sc; l.max_position = std::max(a, b) * sc;
  bool needV = kind != PSAT && kind != VSOFT; l.has_velocity_limits = needV ? !r.chance(missing) : r.chance(70); l.max_velocity = (r.chance(30) ? r.range(0, 4) : r.uniform(0, 6)) * scaleOf(r);
  l.has_acceleration_limits = r.chance(60); l.max_acceleration = (r.chance(30) ? r.range(0, 4) : r.uniform(0, 8)) * scaleOf(r); l.has_effort_limits = (kind == ESAT || kind == ESOFT) ? !r.chance(missing) : r.chance(50); l.max_effort = (r.chance(30) ? r.range(0, 9) : r.uniform(0, 50)) * scaleOf(r);
  l.has_jerk_limits = r.chance(50); l.max_jerk = r.uniform(0, 5); l.angle_wraparound = r.chance(30);
  double w = l.max_position - l.min_position; switch (r.below(5)) { case 0: s.min_position = l.min_position; s.max_position = l.max_position; break; case 1: s.min_position = l.min_position + w * r.unit() / 2; s.max_position = l.max_position - w * r.unit() / 2; break; case 2: s.min_position = l.min_position - w * r.unit(); s.max_position = l.max_position + w * r.unit(); break; case 3: { double o = w * r.uniform(-3, 3); s.min_position = l.min_position + o; s.max_position = l.max_position + o; break; } default: s.min_position = std::min(a, b) * r.uniform(0, 3); s.max_position = s.min_position + r.uniform(0, 3) * sc; }
  if (s.min_position > s.max_position) std::swap(s.min_position, s.max_position);
  s.k_position = r.chance(10) ? 0 : r.chance(30) ? r.range(1, 20) : r.uniform(0, 100) * scaleOf(r); s.k_velocity = r.chance(10) ? 0 : r.chance(30) ? r.range(1, 20) : r.uniform(0, 100) * scaleOf(r); return p;
}
// ---- reference: every bound is known up to rounding, the limits themselves exactly
struct Iv { L a, b; };
static const L EPS = 8e-16L;
static Iv around(L v, L mag) { L e = EPS * mag + 1e-300L; return {v - e, v + e}; }
static L cl(L v, L lo, L hi) { return v < lo ? lo : v > hi ? hi : v; }
static Iv cl(Iv v, L lo, L hi) { return {cl(v.a, lo, hi), cl(v.b, lo, hi)}; }
static Iv cl(Iv v, Iv lo, Iv hi) { return {cl(v.a, lo.a, hi.a), cl(v.b, lo.b, hi.b)}; }
static Iv minus(Iv v) { return {-v.b, -v.a}; }
struct Bounds { Iv lo, hi; };
static const L MAXD = std::numeric_limits<double>::max();
// prev: the last enforced command (or the documented start)
static Bounds bounds(const Spec& p, const Var& v, L prev, L dt) {
  const JointLimits& l = p.l; Bounds o; L plo = l.has_position_limits ? (L)l.min_position : -MAXD, phi = l.has_position_limits ? (L)l.max_position : MAXD, vm = l.has_velocity_limits ? (L)l.max_velocity : MAXD, em = l.max_effort;
  auto soft = [&](L pos, L lim) { if (!l.has_position_limits) return Iv{0, 0}; L k = p.s.k_position; return cl(around(-k * (pos - lim), k * (fabsl(pos) + fabsl(lim))), -vm, vm); };
  auto vlo = [&](L pos) { return l.has_position_limits ? soft(pos, p.s.min_position) : Iv{-vm, -vm}; }; auto vhi = [&](L pos) { return l.has_position_limits ? soft(pos, p.s.max_position) : Iv{vm, vm}; };
  switch (p.kind) {
    case PSAT: if (l.has_velocity_limits) { L d = vm * dt, m = fabsl(prev) + d; o.lo = cl(around(prev - d, m), plo, phi); o.hi = cl(around(prev + d, m), plo, phi); } else { o.lo = {plo, plo}; o.hi = {phi, phi}; } break;
    case PSOFT: { auto mv = [&](Iv s) { Iv x{prev + s.a * dt, prev + s.b * dt}; x.a -= 1e-300L + EPS * (fabsl(prev) + fabsl(s.a) * dt); x.b += 1e-300L + EPS * (fabsl(prev) + fabsl(s.b) * dt); return cl(x, plo, phi); }; o.lo = mv(vlo(prev)); o.hi = mv(vhi(prev)); break; }
    case ESAT: { L lo = -em, hi = em; if (l.has_position_limits) { if (v.pos < l.min_position) lo = 0; else if (v.pos > l.max_position) hi = 0; } if (v.vel < -l.max_velocity) lo = 0; else if (v.vel > l.max_velocity) hi = 0; o.lo = {lo, lo}; o.hi = {hi, hi}; break; }
    case ESOFT: { L k = p.s.k_velocity; auto ef = [&](Iv s) { Iv x{-k * ((L)v.vel - s.a), -k * ((L)v.vel - s.b)}; x.a -= 1e-300L + EPS * k * (fabsl(v.vel) + fabsl(s.a)); x.b += 1e-300L + EPS * k * (fabsl(v.vel) + fabsl(s.b)); return cl(x, -em, em); }; o.lo = ef(vlo(v.pos)); o.hi = ef(vhi(v.pos)); break; }
    case VSAT: if (l.has_acceleration_limits) { L d = (L)l.max_acceleration * dt, m = fabsl(prev) + d; o.lo = cl(around(prev - d, m), -vm, vm); o.hi = cl(around(prev + d, m), -vm, vm); } else { o.lo = {-vm, -vm}; o.hi = {vm, vm}; } break;
    default: { o.lo = vlo(v.pos); o.hi = vhi(v.pos); if (l.has_acceleration_limits) { L d = (L)l.max_acceleration * dt, m = fabsl(v.vel) + d; Iv x = cl(around(v.vel - d, m), o.lo, o.hi), y = cl(around(v.vel + d, m), o.lo, o.hi); o.lo = x; o.hi = y; } }
  } return o;
}
static S judge(const Spec& p, const Var& before, const Var& after, L prev, L dt) {
  Bounds b = bounds(p, before, prev, dt); double c = before.cmd, o = after.cmd; if (std::isnan(o)) return "the enforced command is not a number";
  if (!vh::sameBits(before.pos, after.pos) || !vh::sameBits(before.vel, after.vel) || !vh::sameBits(before.eff, after.eff)) return "a measured value changed";
  L lo = cl(c, b.lo.a, b.hi.a), hi = cl(c, b.lo.b, b.hi.b); auto n = [](L x) { return vh::num((double)x); };
  if ((L)o < lo || (L)o > hi) return "the enforced command is " + n(o) + " instead of " + (lo == hi ? n(lo) : "a value in [" + n(lo) + ", " + n(hi) + "]") + " (bounds [" + n(b.lo.a) + ", " + n(b.hi.b) + "])";
  const JointLimits& l = p.l; // the limits themselves, without any tolerance
  if ((p.kind == PSAT || p.kind == PSOFT) && l.has_position_limits && (o < l.min_position || o > l.max_position)) return "the enforced position " + n(o) + " is outside the position limits";
  if ((p.kind == ESAT || p.kind == ESOFT) && !(fabs(o) <= l.max_effort)) return "the enforced effort " + n(o) + " is beyond the effort limit"; if ((p.kind == VSAT || p.kind == VSOFT) && l.has_velocity_limits && !(fabs(o) <= l.max_velocity)) return "the enforced velocity " + n(o) + " is beyond the velocity limit";
  H().count((L)c > b.lo.b && (L)c < b.hi.a ? "commands within the bounds" : (L)c > b.hi.b ? "commands above the bounds" : (L)c < b.lo.a ? "commands below the bounds" : "commands at a bound");
  if (b.lo.b >= b.hi.a) H().count("cycles that leave one value only"); return "";
}
// ---- handles and interfaces of the six kinds behind one face
struct Enf { virtual ~Enf() {} virtual void enforce(const ros::Duration&) = 0; virtual void reset() = 0; virtual S name() = 0; };
template <class T, class = void> struct Reset { static void of(T&) {} };
template <class T> struct Reset<T, decltype(std::declval<T&>().reset())> { static void of(T& t) { t.reset(); } };
template <class T> struct EnfH : Enf { T h; explicit EnfH(const T& t) : h(t) {} void enforce(const ros::Duration& d) override { h.enforceLimits(d); } void reset() override { Reset<T>::of(h); } S name() override { return h.getName(); } };
static std::unique_ptr<Enf> make(const Spec& s, const hi::JointHandle& j) {
  switch (s.kind) { case PSAT: return std::unique_ptr<Enf>(new EnfH<PositionJointSaturationHandle>({j, s.l})); case PSOFT: return std::unique_ptr<Enf>(new EnfH<PositionJointSoftLimitsHandle>({j, s.l, s.s})); case ESAT: return std::unique_ptr<Enf>(new EnfH<EffortJointSaturationHandle>({j, s.l}));
    case ESOFT: return std::unique_ptr<Enf>(new EnfH<EffortJointSoftLimitsHandle>({j, s.l, s.s})); case VSAT: return std::unique_ptr<Enf>(new EnfH<VelocityJointSaturationHandle>({j, s.l})); default: return std::unique_ptr<Enf>(new EnfH<VelocityJointSoftLimitsHandle>({j, s.l, s.s})); }
}
static hi::JointHandle jhandle(const S& n, Var& v) { return hi::JointHandle(hi::JointStateHandle(n, &v.pos, &v.vel, &v.eff), &v.cmd); }
static ros::Duration rndPeriod(Rng& r) { double d; switch (r.below(6)) { case 0: d = 0.001; break; case 1: d = 1e-9 * (1 + r.below(1000)); break; case 2: d = r.uniform(0.0001, 0.1); break; case 3: d = r.range(1, 20); break; case 4: d = r.uniform(0.1, 3); break; default: d = 0.01; } ros::Duration x(d); return x.toSec() > 0 ? x : ros::Duration(0, 1); }
static bool positional(int k) { return k == PSAT || k == PSOFT; }
// measured values: anything for efforts and velocities; positions of position-controlled joints start inside the limits (start) and may then be anywhere
static void measure(Rng& r, const Spec& p, Var& v, bool start) {
  const JointLimits& l = p.l; double w = l.max_position - l.min_position;
  if (positional(p.kind) && start && l.has_position_limits) { v.pos = r.chance(15) ? l.min_position : r.chance(15) ? l.max_position : l.min_position + w * r.unit(); v.pos = std::min(std::max(v.pos, l.min_position), l.max_position); }
  else switch (r.below(6)) { case 0: v.pos = l.min_position; break; case 1: v.pos = l.max_position; break; case 2: v.pos = p.s.min_position + r.uniform(-1, 1) * w * 0.1; break; case 3: v.pos = p.s.max_position + r.uniform(-1, 1) * w * 0.1; break; case 4: v.pos = l.min_position + w * r.uniform(-1, 2); break; default: v.pos = r.anyFinite(); }
  switch (r.below(5)) { case 0: v.vel = l.max_velocity * (r.chance(50) ? 1 : -1); break; case 1: v.vel = l.max_velocity * r.uniform(-3, 3); break; case 2: v.vel = l.max_velocity * r.uniform(-1, 1); break; case 3: v.vel = 0; break; default: v.vel = r.anyFinite(); } v.eff = r.anyFinite();
}
static double rndCmd(Rng& r, const Spec& p, const Var& v, L prev, L dt) {
  Bounds b = bounds(p, v, prev, dt); double lo = (double)cl(b.lo.b, -1e12L, 1e12L), hi = (double)cl(b.hi.a, -1e12L, 1e12L), w = hi - lo; bool limited = b.lo.a > -MAXD && b.hi.b < MAXD;
  if (r.chance(1)) { H().count("commands of extreme size"); return (r.chance(50) ? 1 : -1) * (r.chance(30) ? (double)MAXD : std::pow(10.0, r.range(13, 308))); }
  switch (r.below(12)) { case 0: return lo; case 1: return hi; case 2: case 3: return lo + w * r.unit(); case 4: return std::nextafter(lo, r.chance(50) ? -INFINITY : INFINITY); case 5: return std::nextafter(hi, r.chance(50) ? -INFINITY : INFINITY); case 6: return lo - (w + 1e-3) * r.unit(); case 7: return hi + (w + 1e-3) * r.unit(); case 8: return limited ? (r.chance(50) ? INFINITY : -INFINITY) : 0; case 9: return (double)prev; case 10: return r.uniform(-1, 1) * std::pow(10.0, r.range(0, limited ? 300 : 12)); default: return r.anyFinite(); }
}
static void enforcement(std::vector<int> kinds) {
  H().rule = "distinct = distinct (limit kind, which limits are given, cycle-by-cycle pattern of commands below/at/within/above the bounds and resets)";
  H().loop("histories", H().cases(60000, 2000000), [&](Rng& r, long) {
    int kind = kinds[r.below(kinds.size())]; Spec p = rndSpec(r, kind); Var v; S nm = "joint" + std::to_string(r.below(3)); std::unique_ptr<Enf> e; bool ok = constructible(p), got = true;
    try { e = make(p, jhandle(nm, v)); } catch (const JointLimitsInterfaceException&) { got = false; } catch (const std::exception& x) { H().fail("exception", S("creating ") + show(p) + " threw another exception: " + x.what()); return; }
    uint64_t h = vh::mix(kind, p.l.has_position_limits + 2 * p.l.has_velocity_limits + 4 * p.l.has_acceleration_limits + 8 * p.l.has_effort_limits); if (got != ok) { H().fail(ok ? "refused" : "accepted", S("creating ") + show(p) + (ok ? " was refused" : " was accepted")); return; } if (!ok) { H().count("limits refused"); H().seen(h); return; }
    if (e->name() != nm) { H().fail("name", "getName() is " + e->name()); return; } if (H().samples.size() < 3) H().sample(show(p));
    double prev = 0; bool start = true; int n = r.range(1, r.chance(1) ? 2000 : r.chance(10) ? 200 : 25); ros::Duration d = rndPeriod(r); bool vary = r.chance(40); S hist; double target = 0; bool seek = r.chance(25);
    for (int i = 0; i < n; ++i) {
      if (vary) d = rndPeriod(r); measure(r, p, v, start); if (positional(kind)) { if (start) prev = v.pos; } start = false; L dt = d.toSec();
      if (seek) { if (i == 0 || r.chance(8)) target = r.chance(50) ? p.l.max_position * 2 + 1 : p.l.min_position * 2 - 1; v.cmd = target; } else v.cmd = rndCmd(r, p, v, prev, dt); Var b = v; long w0 = H().counts["commands within the bounds"], a0 = H().counts["commands above the bounds"], l0 = H().counts["commands below the bounds"];
      e->enforce(d); S s = judge(p, b, v, prev, dt); if (H().trace) fprintf(stderr, "%s: pos %.17g vel %.17g cmd %.17g period %.9f prev %.17g -> %.17g\n", show(p).c_str(), b.pos, b.vel, b.cmd, (double)dt, prev, v.cmd);
      if (!s.empty()) { H().fail(KN[kind], show(p) + ", cycle " + std::to_string(i) + " (period " + vh::num((double)dt) + "), position " + vh::num(b.pos) + ", velocity " + vh::num(b.vel) + ", command " + vh::num(b.cmd) + ", last enforced " + vh::num(prev) + ": " + s); return; }
      h = vh::mix(h, (H().counts["commands within the bounds"] - w0) + 2 * (H().counts["commands above the bounds"] - a0) + 4 * (H().counts["commands below the bounds"] - l0)); H().count(S("cycles of ") + KN[kind]);
      if (kind == ESAT) { const JointLimits& l = p.l; if (l.has_position_limits && (b.pos < l.min_position || b.pos > l.max_position)) H().count("cycles beyond a position limit"); if (fabs(b.vel) > l.max_velocity) H().count("cycles beyond the velocity limit"); }
      if (kind == VSOFT || kind == VSAT) if (p.l.has_velocity_limits && fabs(b.vel) > p.l.max_velocity) H().count("cycles beyond the velocity limit");
      if (kind == PSOFT && p.l.has_position_limits && (prev < p.s.min_position || prev > p.s.max_position)) H().count("cycles outside the soft limits");
      prev = v.cmd; if (positional(kind) && r.chance(8)) { e->reset(); start = true; h = vh::mix(h, 99); H().count("resets"); if (r.chance(10)) e->reset(); }
    }
    H().seen(h);
  });
  for (auto s : {"commands within the bounds", "commands above the bounds", "commands below the bounds"}) H().require(s, 1000);
  for (int k : kinds) { H().require(S("cycles of ") + KN[k], 1000); if (k == PSAT || k == PSOFT) H().require("resets", 100); if (k == PSOFT) H().require("cycles outside the soft limits", 100); if (k == ESAT) { H().require("cycles beyond a position limit", 100); } if (k == ESAT || k == VSAT) H().require("cycles beyond the velocity limit", 100); if (k != PSAT && k != VSOFT) H().require("limits refused", 100); }
}
// ---- J05
template <class I, class T> struct Face { I itf; bool resettable; };
template <class T> static void add(JointLimitsInterface<T>& i, const T& h) { i.registerHandle(h); }
template <class I, class T, class Mk> static void several(Rng& r, int kind, Mk mk) {
  std::vector<S> names; bool big = r.chance(4); int n = big ? r.range(10, 60) : r.range(1, 7); for (int i = 0; i < n; ++i) names.push_back("j" + std::to_string(i)); const int slots = big ? 90 : 12; if (big) H().count("big interfaces");
  std::unique_ptr<I> itf(new I); std::map<S, int> cur; std::vector<std::unique_ptr<Var>> v, w; std::vector<Spec> sp; std::vector<std::unique_ptr<T>> alone; std::vector<char> start; uint64_t h = vh::mix(kind, n); int last = -1;
  int steps = big ? n + r.range(5, 30) : r.range(5, 30);
  for (int t = 0; t < steps; ++t) {
    int op = t < (big ? n : 2) ? 0 : (int)r.below(10);
    if (op <= 1 && (int)v.size() < slots) { // register or replace
      S nm = names[r.below(n)]; Spec p = rndSpec(r, kind, 0); if (!constructible(p)) continue; v.emplace_back(new Var); w.emplace_back(new Var); sp.push_back(p); int id = (int)v.size() - 1; h = vh::mix(h, 11 + cur.count(nm));
      if (cur.count(nm)) H().count("replacements"); T hd = mk(p, jhandle(nm, *v[id])); itf->registerHandle(hd); alone.emplace_back(new T(mk(p, jhandle(nm, *w[id])))); start.push_back(1); cur[nm] = id; double c = r.anyFinite(); v[id]->cmd = w[id]->cmd = c; last = id;
    } else if (op == 2) { // look up
      S nm = r.chance(70) ? names[r.below(n)] : "none"; bool ok = false; try { ok = itf->getHandle(nm).getName() == nm; } catch (const JointLimitsInterfaceException&) { ok = !cur.count(nm); if (ok) H().count("unknown joints refused"); } catch (const std::exception& e) { H().fail("lookup", S("getHandle threw another exception: ") + e.what()); return; }
      if (!ok) { H().fail("lookup", "looking up joint " + nm + " gave a wrong result"); return; } auto g = itf->getNames(); std::set<S> have(g.begin(), g.end()), want; for (auto& c : cur) want.insert(c.first); if (have != want) { H().fail("names", "getNames() does not list the registered joints"); return; }
    } else if (op == 3 && positional(kind)) { Reset<I>::of(*itf); for (auto& c : cur) { Reset<T>::of(*alone[c.second]); start[c.second] = 1; } h = vh::mix(h, 5); H().count("interface resets"); }
    else { ros::Duration d = rndPeriod(r); for (auto& c : cur) { Spec& p = sp[c.second]; measure(r, p, *v[c.second], start[c.second]); start[c.second] = 0; v[c.second]->cmd = r.chance(20) ? v[c.second]->cmd : r.anyFinite() * (r.chance(50) ? 1 : p.l.max_velocity); *w[c.second] = *v[c.second]; }
      itf->enforceLimits(d); for (auto& c : cur) alone[c.second]->enforceLimits(d); H().count("enforcements of an interface"); if (cur.size() > 1) H().count("enforcements of several joints"); h = vh::mix(h, cur.size());
      for (size_t i = 0; i < v.size(); ++i) { auto eq = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }; bool is = false; S who; for (auto& c : cur) if (c.second == (int)i) { is = true; who = c.first; }
        if (!eq(v[i]->cmd, w[i]->cmd) || !vh::sameBits(v[i]->pos, w[i]->pos) || !vh::sameBits(v[i]->vel, w[i]->vel) || !vh::sameBits(v[i]->eff, w[i]->eff)) { H().fail(is ? "together" : "foreign", is ? "joint " + who + " with " + show(sp[i]) + " is commanded " + vh::num(v[i]->cmd) + " when enforced with " + std::to_string(cur.size()) + " joints, but " + vh::num(w[i]->cmd) + " alone" : "the command of a joint that was replaced was changed"); return; } if (!is) H().count("replaced joints left alone"); } }
  }
  (void)last; H().seen(h); H().count(S("interfaces of ") + KN[kind]);
}
static void J05() {
  H().rule = "distinct = distinct (limit kind, number of joints, sequence of registrations, replacements, resets and enforcements)";
  H().loop("interfaces", H().cases(30000, 1000000), [](Rng& r, long) {
    int k = (int)r.below(6); typedef hi::JointHandle J;
    switch (k) { case PSAT: several<PositionJointSaturationInterface, PositionJointSaturationHandle>(r, k, [](const Spec& p, const J& j) { return PositionJointSaturationHandle(j, p.l); }); break; case PSOFT: several<PositionJointSoftLimitsInterface, PositionJointSoftLimitsHandle>(r, k, [](const Spec& p, const J& j) { return PositionJointSoftLimitsHandle(j, p.l, p.s); }); break;
      case ESAT: several<EffortJointSaturationInterface, EffortJointSaturationHandle>(r, k, [](const Spec& p, const J& j) { return EffortJointSaturationHandle(j, p.l); }); break; case ESOFT: several<EffortJointSoftLimitsInterface, EffortJointSoftLimitsHandle>(r, k, [](const Spec& p, const J& j) { return EffortJointSoftLimitsHandle(j, p.l, p.s); }); break;
      case VSAT: several<VelocityJointSaturationInterface, VelocityJointSaturationHandle>(r, k, [](const Spec& p, const J& j) { return VelocityJointSaturationHandle(j, p.l); }); break; default: several<VelocityJointSoftLimitsInterface, VelocityJointSoftLimitsHandle>(r, k, [](const Spec& p, const J& j) { return VelocityJointSoftLimitsHandle(j, p.l, p.s); }); }
  });
  for (auto k : KN) H().require(S("interfaces of ") + k, 100); for (auto s : {"replacements", "unknown joints refused", "interface resets", "enforcements of several joints", "replaced joints left alone"}) H().require(s, 100);
}
// ---- J06, J07
static JointLimits anyLimits(Rng& r) { JointLimits l; l.min_position = r.anyFinite(); l.max_position = r.anyFinite(); l.max_velocity = r.anyFinite(); l.max_acceleration = r.anyFinite(); l.max_jerk = r.anyFinite(); l.max_effort = r.anyFinite(); l.has_position_limits = r.chance(50); l.has_velocity_limits = r.chance(50); l.has_acceleration_limits = r.chance(50); l.has_jerk_limits = r.chance(50); l.has_effort_limits = r.chance(50); l.angle_wraparound = r.chance(50); return l; }
static S diff(const JointLimits& a, const JointLimits& b) {
  S s; auto d = [&](const char* n, double x, double y) { if (!(x == y)) s += S(n) + " is " + vh::num(x) + " instead of " + vh::num(y) + "; "; };
  d("min_position", a.min_position, b.min_position); d("max_position", a.max_position, b.max_position); d("max_velocity", a.max_velocity, b.max_velocity); d("max_acceleration", a.max_acceleration, b.max_acceleration); d("max_jerk", a.max_jerk, b.max_jerk); d("max_effort", a.max_effort, b.max_effort); d("has_position_limits", a.has_position_limits, b.has_position_limits); d("has_velocity_limits", a.has_velocity_limits, b.has_velocity_limits); d("has_acceleration_limits", a.has_acceleration_limits, b.has_acceleration_limits); d("has_jerk_limits", a.has_jerk_limits, b.has_jerk_limits); d("has_effort_limits", a.has_effort_limits, b.has_effort_limits); d("angle_wraparound", a.angle_wraparound, b.angle_wraparound); return s;
}
static S diff(const SoftJointLimits& a, const SoftJointLimits& b) { S s; auto d = [&](const char* n, double x, double y) { if (!(x == y)) s += S(n) + " is " + vh::num(x) + " instead of " + vh::num(y) + "; "; }; d("min_position", a.min_position, b.min_position); d("max_position", a.max_position, b.max_position); d("k_position", a.k_position, b.k_position); d("k_velocity", a.k_velocity, b.k_velocity); return s; }
static SoftJointLimits anySoft(Rng& r) { SoftJointLimits s; s.min_position = r.anyFinite(); s.max_position = r.anyFinite(); s.k_position = r.anyFinite(); s.k_velocity = r.anyFinite(); return s; }
static void J06() {
  H().rule = "distinct = distinct (state of every parameter: absent, right type, integer, wrong type; joint name; prior has_* flags)"; using XmlRpc::XmlRpcValue;
  H().loop("parameters", H().cases(120000, 3000000), [](Rng& r, long) {
    ros::stub::clearParams(); static const char* good[] = {"joint", "j2", "a/b", "A_1"}; static const char* bad[] = {"jo int", "j!", "a-b", "j.2"}; bool badName = r.chance(4); S jn = badName ? bad[r.below(4)] : good[r.below(4)], ns = r.chance(50) ? "/" : "/robot/hw"; ros::NodeHandle nh(ns); S base = (ns == "/" ? S() : ns) + "/joint_limits/";
    uint64_t h = vh::mix(vh::hashStr(jn), 3); S doc = "joint " + jn + ":"; std::map<S, int> st; std::map<S, double> num; std::map<S, bool> bl; bool any = false; int present = r.range(0, 100);
    auto put = [&](const S& n, bool isBool) { int s = r.chance(present) ? (r.chance(12) ? 3 : (!isBool && r.chance(25)) ? 2 : 1) : 0; st[n] = s; h = vh::mix(h, s); if (!s) return; any = true; XmlRpcValue v; if (s == 3) switch (r.below(4)) { case 0: v = XmlRpcValue("text"); break; case 1: v = isBool ? XmlRpcValue(r.range(0, 1)) : XmlRpcValue(true); break; case 2: v = XmlRpcValue::array(); break; default: v = isBool ? XmlRpcValue(1.0) : XmlRpcValue("1.5"); } else if (isBool) { bl[n] = r.chance(65); v = XmlRpcValue((bool)bl[n]); h = vh::mix(h, bl[n]); } else if (s == 2) { int i = r.range(-9, 9); num[n] = i; v = XmlRpcValue(i); } else { double d = r.anyFinite(); num[n] = d; v = XmlRpcValue(d); }
      if (!badName) ros::stub::setParam(base + jn + "/" + n, v); doc += " " + n + (s == 3 ? "=<wrong type>" : isBool ? (bl[n] ? "=true" : "=false") : "=" + vh::num(num[n])); };
    static const char* bools[] = {"has_position_limits", "has_velocity_limits", "has_acceleration_limits", "has_jerk_limits", "has_effort_limits", "angle_wraparound", "has_soft_limits"}; static const char* nums[] = {"min_position", "max_position", "max_velocity", "max_acceleration", "max_jerk", "max_effort", "k_position", "k_velocity", "soft_lower_limit", "soft_upper_limit"};
    for (auto b : bools) put(b, true); for (auto n : nums) put(n, false);
    for (int k = r.range(0, 2); k > 0; --k) ros::stub::setParam(base + "other/" + S(nums[r.below(10)]), XmlRpcValue(77.0)); if (r.chance(20)) ros::stub::setParam(base + jn + "x/has_velocity_limits", XmlRpcValue(true));
    if (r.chance(25)) { static const char* up[] = {"", "joint_limits/", "/joint_limits/", "/"}; S at = up[r.below(4)]; S full = at[0] == '/' ? at : (ns == "/" ? S("/") : ns + "/") + at; for (int k = r.range(1, 4); k > 0; --k) { bool b = r.chance(40); S key = b ? bools[r.below(7)] : nums[r.below(10)]; ros::stub::setParam(full + key, b ? XmlRpcValue(r.chance(70)) : XmlRpcValue(66.0)); } H().count("parameters of the same names elsewhere"); }
    bool leaf = !any && !badName && r.chance(10); if (leaf) ros::stub::setParam(base + jn, XmlRpcValue("none"));
    JointLimits before = anyLimits(r), want = before, got = before; auto isT = [&](const char* n) { return st[n] == 1 && bl[n]; }; auto isF = [&](const char* n) { return st[n] == 1 && !bl[n]; }; auto has = [&](const char* n) { return st[n] == 1 || st[n] == 2; };
    if (!badName) {
      if (isF("has_position_limits")) { want.has_position_limits = false; if (st["angle_wraparound"] == 1) want.angle_wraparound = bl["angle_wraparound"]; } if (isT("has_position_limits") && has("min_position") && has("max_position")) { want.has_position_limits = true; want.min_position = num["min_position"]; want.max_position = num["max_position"]; }
      auto one = [&](const char* f, const char* v, bool& wf, double& wv) { if (isF(f)) wf = false; if (isT(f)) { if (has(v)) { wf = true; wv = num[v]; H().count("limits read"); } else H().count("limits switched on without a value"); } }; one("has_velocity_limits", "max_velocity", want.has_velocity_limits, want.max_velocity); one("has_acceleration_limits", "max_acceleration", want.has_acceleration_limits, want.max_acceleration); one("has_jerk_limits", "max_jerk", want.has_jerk_limits, want.max_jerk); one("has_effort_limits", "max_effort", want.has_effort_limits, want.max_effort);
    }
    bool found = !badName && (any || leaf), res = false; if (H().samples.size() < 2) H().sample(doc);
    try { res = getJointLimits(jn, nh, got); } catch (const std::exception& e) { H().fail("throw", S("getJointLimits threw ") + e.what() + ": " + doc); return; } H().count(badName ? "invalid joint names" : found ? "joints with a specification" : "joints without a specification");
    if (res != found) { H().fail("found", S("getJointLimits reports ") + (res ? "true" : "false") + ": " + doc); return; } S s = diff(got, want); if (!s.empty()) { H().fail("limits", s + "reading " + doc); return; }
    SoftJointLimits sb = anySoft(r), sw = sb, sg = sb; bool sok = !badName && isT("has_soft_limits") && has("k_position") && has("k_velocity") && has("soft_lower_limit") && has("soft_upper_limit"); if (sok) { sw.min_position = num["soft_lower_limit"]; sw.max_position = num["soft_upper_limit"]; sw.k_position = num["k_position"]; sw.k_velocity = num["k_velocity"]; }
    try { res = getSoftJointLimits(jn, nh, sg); } catch (const std::exception& e) { H().fail("throw", S("getSoftJointLimits threw ") + e.what() + ": " + doc); return; } if (res != sok) { H().fail("soft-found", S("getSoftJointLimits reports ") + (res ? "true" : "false") + ": " + doc); return; } s = diff(sg, sw); if (!s.empty()) { H().fail("soft", s + "reading " + doc); return; } H().count(sok ? "complete soft limits" : "incomplete soft limits"); if (!sok && isT("has_soft_limits")) H().count("enabled incomplete soft limits");
    H().seen(h);
  });
  for (auto s : {"limits read", "limits switched on without a value", "invalid joint names", "joints with a specification", "joints without a specification", "complete soft limits", "incomplete soft limits", "enabled incomplete soft limits"}) H().require(s, 50);
}
static void J07() {
  H().rule = "distinct = distinct (joint type, limits and safety present, prior flags, values)";
  H().loop("joints", H().cases(120000, 3000000), [](Rng& r, long) {
    std::shared_ptr<urdf::Joint> j; static const char* tn[] = {"unknown", "revolute", "continuous", "prismatic", "floating", "planar", "fixed"}; int ty = 0; uint64_t h = 1;
    if (!r.chance(3)) { j = std::make_shared<urdf::Joint>(); j->name = "j"; ty = (int)r.below(7); j->type = (decltype(j->type))ty; if (r.chance(75)) { j->limits = std::make_shared<urdf::JointLimits>(); j->limits->lower = r.anyFinite(); j->limits->upper = r.anyFinite(); j->limits->velocity = r.anyFinite(); j->limits->effort = r.anyFinite(); h = vh::mix(h, vh::hashStr(vh::num(j->limits->lower))); } if (r.chance(60)) { j->safety = std::make_shared<urdf::JointSafety>(); j->safety->soft_lower_limit = r.anyFinite(); j->safety->soft_upper_limit = r.anyFinite(); j->safety->k_position = r.anyFinite(); j->safety->k_velocity = r.anyFinite(); } }
    JointLimits before = anyLimits(r), want = before, got = before; bool ok = j && j->limits; h = vh::mix(h, ty * 8 + ok * 2 + (j && j->safety)); S doc = j ? S(tn[ty]) + " joint" : S("no joint");
    if (ok) { want.has_position_limits = ty == urdf::Joint::REVOLUTE || ty == urdf::Joint::PRISMATIC; if (want.has_position_limits) { want.min_position = j->limits->lower; want.max_position = j->limits->upper; } if (ty == urdf::Joint::CONTINUOUS) want.angle_wraparound = true; want.has_velocity_limits = want.has_effort_limits = true; want.max_velocity = j->limits->velocity; want.max_effort = j->limits->effort; want.has_acceleration_limits = false; H().count(S("limits of ") + tn[ty] + " joints"); } else H().count("joints without limits");
    bool res = getJointLimits(j, got); if (res != ok) { H().fail("found", "getJointLimits reports " + std::to_string(res) + " for a " + doc); return; } S s = diff(got, want); if (!s.empty()) { H().fail("limits", s + "for a " + doc); return; }
    SoftJointLimits sb = anySoft(r), sw = sb, sg = sb; bool sok = j && j->safety; if (sok) { sw.min_position = j->safety->soft_lower_limit; sw.max_position = j->safety->soft_upper_limit; sw.k_position = j->safety->k_position; sw.k_velocity = j->safety->k_velocity; } H().count(sok ? "soft limits" : "joints without soft limits");
    res = getSoftJointLimits(j, sg); if (res != sok) { H().fail("soft-found", "getSoftJointLimits reports " + std::to_string(res)); return; } s = diff(sg, sw); if (!s.empty()) { H().fail("soft", s); return; } for (bool b : {before.has_position_limits, before.has_velocity_limits, before.has_acceleration_limits, before.has_jerk_limits, before.has_effort_limits, before.angle_wraparound}) h = h * 2 + b; H().seen(h);
  });
  for (auto t : {"unknown", "revolute", "continuous", "prismatic", "floating", "planar", "fixed"}) H().require(S("limits of ") + t + " joints", 50); for (auto s : {"joints without limits", "soft limits", "joints without soft limits"}) H().require(s, 50);
}
int main(int argc, char** argv) {
  H().args(argc, argv); S p = H().prop;
  if (p == "J01") enforcement({PSAT}); else if (p == "J02") enforcement({PSOFT}); else if (p == "J03") enforcement({ESAT, ESOFT}); else if (p == "J04") enforcement({VSAT, VSOFT}); else if (p == "J05") J05(); else if (p == "J06") J06(); else if (p == "J07") J07(); else { fprintf(stderr, "HARNESS-ERROR: unknown property\n"); return 3; }
  return H().finish();
}
