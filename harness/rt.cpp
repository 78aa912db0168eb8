// C13: real-time paths observed from outside: allocation, locking, sleeping and system calls are intercepted while the
// code under test runs in the real-time context (the harness's own callbacks excepted).
#include "cm_impl.h"
#include "cm_gen.h"
#include "hw_handles.h"
#include <combined_robot_hw/combined_robot_hw.h>
#include <cxxabi.h>
#include <execinfo.h>
#include <joint_limits_interface/joint_limits_interface.h>
#include <linux/futex.h>
#include <signal.h>
#include <sys/prctl.h>
#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/transmission_interface.h>
#include <ucontext.h>
extern "C" void __libc_free(void*);
using namespace sim; using vh::H; using vh::Rng;
// ---- observation
static thread_local const char* tWhat = "";   // what runs in the real-time context
static std::string gDetail; static long gTrapped = 0;
static inline bool rt() { return tInRt && !tSuspend; }
static std::string stackText(void** f, int n) {
  char** s = backtrace_symbols(f, n); std::string o;
  for (int i = 0; s && i < n; ++i) { std::string x = s[i]; auto a = x.find('('), b = x.find('+', a); if (a != std::string::npos && b != std::string::npos && b > a + 1) { int st = 0; char* d = abi::__cxa_demangle(x.substr(a + 1, b - a - 1).c_str(), nullptr, nullptr, &st); o += " <- " + (st == 0 && d ? std::string(d) : x.substr(a + 1, b - a - 1)); __libc_free(d); } }
  return o.substr(0, 2500);
}
#pragma GCC diagnostic ignored "-Wreturn-type"
static void report(const char* kind, const char* more = "", long num = -1) { RtPause p; if (H().keys.count(std::string(kind) + ":" + tWhat)) return; std::string what = kind; if (*more) what += std::string(" ") + more; if (num >= 0) what += " of " + std::to_string(num) + " bytes"; void* f[40]; int n = backtrace(f, 40); H().fail(what.substr(0, what.find(' ')) + ":" + tWhat, what + " in the real-time context of " + tWhat + " (" + gDetail + ")" + stackText(f, n)); }
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
void simBlock(const char* what) { report("sleep", what); }
void* malloc(size_t n) { if (rt()) { report("allocation", "", (long)n); RtPause p; return __libc_malloc(n); } return __libc_malloc(n); }
void* calloc(size_t k, size_t n) { if (rt()) { report("allocation", "(calloc)"); RtPause p; return __libc_calloc(k, n); } return __libc_calloc(k, n); }
void* realloc(void* q, size_t n) { if (rt()) { report("allocation", "(realloc)"); RtPause p; return __libc_realloc(q, n); } return __libc_realloc(q, n); }
void* memalign(size_t a, size_t n) { if (rt()) { report("allocation", "(memalign)"); RtPause p; return __libc_memalign(a, n); } return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { *o = memalign(a, n); return *o ? 0 : ENOMEM; }
void free(void* q) { if (q && rt()) { report("deallocation"); RtPause p; __libc_free(q); return; } __libc_free(q); }
static thread_local bool tLocked = false;
#define LOCK1(name, type) int name(type* m) { if (rt()) report("lock", #name); static int (*real)(type*) = (int (*)(type*))dlsym(RTLD_NEXT, #name); RtPause p; return real(m); }
// the holder may be waiting for the control loop: then the run ends here, with what it has found
int pthread_mutex_lock(pthread_mutex_t* m) { bool in = rt(); if (in) report("lock", "pthread_mutex_lock"); static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); RtPause p; if (!in || tLocked) return real(m);
  for (int i = 0; i < 3000; ++i) { int e = pthread_mutex_trylock(m); if (e != EBUSY) return e; struct timespec t = {0, 1000000}; nanosleep(&t, nullptr); } tLocked = true; int rc = H().finish(); fflush(stderr); _exit(rc); }
LOCK1(pthread_rwlock_rdlock, pthread_rwlock_t) LOCK1(pthread_rwlock_wrlock, pthread_rwlock_t)
int pthread_spin_lock(pthread_spinlock_t* m) { if (rt()) report("lock", "pthread_spin_lock"); static int (*real)(pthread_spinlock_t*) = (int (*)(pthread_spinlock_t*))dlsym(RTLD_NEXT, "pthread_spin_lock"); return real(m); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { if (rt()) report("lock", "pthread_mutex_timedlock"); static int (*real)(pthread_mutex_t*, const struct timespec*) = (int (*)(pthread_mutex_t*, const struct timespec*))dlsym(RTLD_NEXT, "pthread_mutex_timedlock"); RtPause p; return real(m, t); }
}
// Everything that reaches the kernel some other way: the kernel itself turns system calls of the real-time context into a signal.
static struct { volatile int n; long nr[16]; int depth[16]; void* f[16][24]; } gSys;
static bool harmless(long nr, long a1) { switch (nr) { case SYS_clock_gettime: case SYS_gettimeofday: case SYS_time: case SYS_getpid: case SYS_gettid: case SYS_getcpu: case SYS_rt_sigreturn: case SYS_rt_sigprocmask: case SYS_membarrier: return true; case SYS_futex: { int op = (int)a1 & FUTEX_CMD_MASK; return op == FUTEX_WAKE || op == FUTEX_WAKE_OP || op == FUTEX_UNLOCK_PI || op == FUTEX_WAKE_BITSET || op == FUTEX_TRYLOCK_PI; } default: return false; } }
static void onSys(int, siginfo_t* si, void* uc) {
  tSel = 0; ucontext_t* u = (ucontext_t*)uc; long nr = si->si_syscall;
  if (!harmless(nr, u->uc_mcontext.gregs[REG_RSI])) { if (gSys.n < 16) { int k = gSys.n; gSys.nr[k] = nr; gSys.depth[k] = backtrace(gSys.f[k], 24); gSys.n = k + 1; } }
  ++gTrapped; u->uc_mcontext.gregs[REG_RAX] = nr; u->uc_mcontext.gregs[REG_RIP] -= 2;   // run it again, now let through
}
static bool arm() {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSys; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSYS, &sa, nullptr);
  if (prctl(59, 1, 0, 0, &tSel)) return false;
  tArm = 1; tSel = 1; syscall(SYS_getppid); tSel = 0; bool ok = gSys.n == 1 && gSys.nr[0] == SYS_getppid; gSys.n = 0; if (!ok) { tArm = 0; prctl(59, 0, 0, 0, 0); } return ok;
}
static void enter() { gSys.n = 0; }
static void leave() { for (int i = 0; i < gSys.n && !H().keys.count(std::string("syscall:") + tWhat); ++i) { std::string s = stackText(gSys.f[i], gSys.depth[i]); H().fail(std::string("syscall:") + tWhat, "system call " + std::to_string(gSys.nr[i]) + " in the real-time context of " + tWhat + " (" + gDetail + ")" + s); } gSys.n = 0; }
struct Rt { explicit Rt(const char* w) { tWhat = w; enter(); tInRt = true; tSel = tArm; } ~Rt() { tSel = 0; tInRt = false; leave(); H().counts[std::string("real-time sections: ") + tWhat]++; } };
static bool filter(const char* lvl) { if (!tInRt || tSuspend) return true; if (lvl[0] == 'D') return false; report("log", lvl); return false; }
static void logYield() { if (!tInRt && S) S->yieldPoint(); }
// ---- the manager
static bool history(Rng& rng, long) {
  World* w = new World(rng.u64()); w->build(); vh::Rng& r = w->r; bool hung = false; uint64_t h = 1; tWhat = "ControllerManager::update";
  w->run->rtEnter = [] { tWhat = "ControllerManager::update"; enter(); }; w->run->rtLeave = [] { leave(); };
  auto cycles = [&](int n) { for (; n > 0; --n) w->run->cycle(); }; gDetail = "before any request"; cycles(r.range(0, 3)); int n = r.range(6, 20);
  for (int i = 0; i < n && !hung; ++i) {
    w->refresh(); Req q = w->request(); gDetail = reqStr(q); if (H().trace) fprintf(stderr, "%s\n", gDetail.c_str()); w->run->run(q); hung = w->run->hung; H().count("requests"); h = vh::mix(h, vh::hashStr(reqStr(q)));
    if (q.k == SWITCH && q.ok) H().count("accepted switches"); if (!hung) { gDetail = "after " + reqStr(q); cycles(r.range(0, 4)); }
  }
  for (auto& e : w->s.log) if (e.k == CB && e.rt) H().count(std::string("callbacks: ") + cbName(e.cb));
  H().count("control cycles", w->run->cyclesTotal); H().count("service steps inside control cycles", w->s.midSteps); H().count("hand-overs at function entries", w->s.fineN); H().seen(h); if (H().samples.size() < 2) H().sample(gDetail);
  if (hung) { Coop::abandon(); S = new Sim; return false; }
  w->s.cm.reset(); PlugReg::get().onLoader = nullptr; S = nullptr; delete w; return true;
}
// ---- joint limits
namespace jl = joint_limits_interface; namespace hi = hardware_interface; namespace ti = transmission_interface;
static std::string longName(Rng& r, int i) { return (r.chance(60) ? "a_name_that_does_not_fit_into_a_small_string_" : "j") + std::to_string(i); }
struct Var { double pos = 0, vel = 0, eff = 0, cmd = 0; };
static double value(Rng& r) { return r.chance(20) ? r.anyBits() : r.anyFinite(); }
template <class I> static void reset(I& i, long) {} static void reset(jl::PositionJointSaturationInterface& i, int) { i.reset(); } static void reset(jl::PositionJointSoftLimitsInterface& i, int) { i.reset(); }
template <class T> static void resetH(T&, long) {} static void resetH(jl::PositionJointSaturationHandle& h, int) { h.reset(); } static void resetH(jl::PositionJointSoftLimitsHandle& h, int) { h.reset(); }
template <class I, class T, class Mk> static void limits(Rng& r, const char* what, Mk mk) {
  I itf; int n = r.range(1, 5); std::vector<Var> v(n); std::vector<T> hs; uint64_t h = vh::hashStr(what);
  for (int i = 0; i < n; ++i) {
    jl::JointLimits l; jl::SoftJointLimits s; l.has_position_limits = r.chance(70); l.min_position = r.uniform(-3, 0); l.max_position = r.uniform(0, 3); l.has_velocity_limits = true; l.max_velocity = r.uniform(0, 3); l.has_acceleration_limits = r.chance(60); l.max_acceleration = r.uniform(0, 5); l.has_effort_limits = true; l.max_effort = r.uniform(0, 4);
    s.min_position = l.min_position + 0.1; s.max_position = l.max_position - 0.1; s.k_position = r.uniform(0, 10); s.k_velocity = r.uniform(0, 10); if (s.min_position > s.max_position) std::swap(s.min_position, s.max_position);
    hi::JointHandle j(hi::JointStateHandle(longName(r, i), &v[i].pos, &v[i].vel, &v[i].eff), &v[i].cmd); T t = mk(j, l, s); hs.push_back(t); itf.registerHandle(t); h = vh::mix(h, l.has_position_limits + 2 * l.has_acceleration_limits);
  }
  for (int k = r.range(2, 8); k > 0; --k) {
    for (auto& x : v) { x.pos = value(r); x.vel = value(r); x.eff = value(r); x.cmd = value(r); h = vh::mix(h, std::isnan(x.cmd) + 2 * std::isinf(x.cmd) + 4 * (x.cmd > 0)); } ros::Duration d(r.chance(50) ? 0.001 : r.uniform(1e-6, 2)); bool rs = r.chance(15);
    { Rt x(what); itf.enforceLimits(d); if (rs) reset(itf, 0); } int i = (int)r.below(n); { Rt x(what); hs[i].enforceLimits(d); if (rs) resetH(hs[i], 0); } H().count("joints enforced", n + 1);
  }
  H().seen(h);
}
static void limitCase(Rng& r, long) {
  switch (r.below(6)) {
    case 0: limits<jl::PositionJointSaturationInterface, jl::PositionJointSaturationHandle>(r, "position saturation", [](const hi::JointHandle& j, const jl::JointLimits& l, const jl::SoftJointLimits&) { return jl::PositionJointSaturationHandle(j, l); }); break;
    case 1: limits<jl::PositionJointSoftLimitsInterface, jl::PositionJointSoftLimitsHandle>(r, "soft position limits", [](const hi::JointHandle& j, const jl::JointLimits& l, const jl::SoftJointLimits& s) { return jl::PositionJointSoftLimitsHandle(j, l, s); }); break;
    case 2: limits<jl::EffortJointSaturationInterface, jl::EffortJointSaturationHandle>(r, "effort saturation", [](const hi::JointHandle& j, const jl::JointLimits& l, const jl::SoftJointLimits&) { return jl::EffortJointSaturationHandle(j, l); }); break;
    case 3: limits<jl::EffortJointSoftLimitsInterface, jl::EffortJointSoftLimitsHandle>(r, "soft effort limits", [](const hi::JointHandle& j, const jl::JointLimits& l, const jl::SoftJointLimits& s) { return jl::EffortJointSoftLimitsHandle(j, l, s); }); break;
    case 4: limits<jl::VelocityJointSaturationInterface, jl::VelocityJointSaturationHandle>(r, "velocity saturation", [](const hi::JointHandle& j, const jl::JointLimits& l, const jl::SoftJointLimits&) { return jl::VelocityJointSaturationHandle(j, l); }); break;
    default: limits<jl::VelocityJointSoftLimitsInterface, jl::VelocityJointSoftLimitsHandle>(r, "soft velocity limits", [](const hi::JointHandle& j, const jl::JointLimits& l, const jl::SoftJointLimits& s) { return jl::VelocityJointSoftLimitsHandle(j, l, s); });
  }
}
// ---- transmissions
static double red(Rng& r) { double v; do v = r.chance(30) ? r.range(-5, 5) : r.uniform(-100, 100); while (v == 0); return v; }
struct Trans { std::unique_ptr<ti::Transmission> t; std::vector<std::unique_ptr<double>> v; ti::ActuatorData a; ti::JointData j; };
static void fill(Trans& t, std::vector<double*>& x, size_t n) { for (size_t i = 0; i < n; ++i) { t.v.emplace_back(new double(0)); x.push_back(t.v.back().get()); } }
template <class Hd> static void propagateCase(Rng& r, const char* what) {
  std::vector<std::unique_ptr<Trans>> all; ti::TransmissionInterface<Hd> itf; std::vector<Hd> hs; int n = r.range(1, 4); uint64_t h = vh::hashStr(what);
  for (int i = 0; i < n; ++i) {
    all.emplace_back(new Trans); Trans& t = *all.back(); int k = (int)r.below(3); std::vector<double> ar = {red(r), red(r)}, jr = {red(r), red(r)}, off = {r.anyFinite(), r.anyFinite()}; h = vh::mix(h, k);
    if (k == 0) t.t.reset(new ti::SimpleTransmission(ar[0], off[0])); else if (k == 1) t.t.reset(r.chance(30) ? new ti::DifferentialTransmission(ar, jr, true, off) : new ti::DifferentialTransmission(ar, jr, off)); else t.t.reset(new ti::FourBarLinkageTransmission(ar, jr, off));
    size_t m = t.t->numActuators(); bool opt = r.chance(50); fill(t, t.a.position, m); fill(t, t.a.velocity, m); fill(t, t.a.effort, m); fill(t, t.j.position, m); fill(t, t.j.velocity, m); fill(t, t.j.effort, m); if (opt) { fill(t, t.a.absolute_position, m); fill(t, t.j.absolute_position, m); fill(t, t.a.torque_sensor, m); fill(t, t.j.torque_sensor, m); } h = vh::mix(h, opt);
    Hd x(longName(r, i), t.t.get(), t.a, t.j); hs.push_back(x); itf.registerHandle(x);
  }
  for (int k = r.range(1, 6); k > 0; --k) { for (auto& t : all) for (auto& d : t->v) *d = value(r); { Rt x(what); itf.propagate(); } int i = (int)r.below(n); { Rt x(what); hs[i].propagate(); }
    ti::Transmission& t = *all[i]->t; Trans& q = *all[i]; { Rt x("transmission maps"); t.actuatorToJointEffort(q.a, q.j); t.actuatorToJointVelocity(q.a, q.j); t.actuatorToJointPosition(q.a, q.j); if (!q.a.torque_sensor.empty()) { t.actuatorToJointAbsolutePosition(q.a, q.j); t.actuatorToJointTorqueSensor(q.a, q.j); } t.jointToActuatorEffort(q.j, q.a); t.jointToActuatorVelocity(q.j, q.a); t.jointToActuatorPosition(q.j, q.a); } H().count("transmissions propagated", n + 1); }
  H().seen(h);
}
static void transCase(Rng& r, long) {
  switch (r.below(8)) {
    case 0: propagateCase<ti::ActuatorToJointStateHandle>(r, "ActuatorToJointState propagation"); break; case 1: propagateCase<ti::ActuatorToJointPositionHandle>(r, "ActuatorToJointPosition propagation"); break;
    case 2: propagateCase<ti::ActuatorToJointVelocityHandle>(r, "ActuatorToJointVelocity propagation"); break; case 3: propagateCase<ti::ActuatorToJointEffortHandle>(r, "ActuatorToJointEffort propagation"); break;
    case 4: propagateCase<ti::JointToActuatorStateHandle>(r, "JointToActuatorState propagation"); break; case 5: propagateCase<ti::JointToActuatorPositionHandle>(r, "JointToActuatorPosition propagation"); break;
    case 6: propagateCase<ti::JointToActuatorVelocityHandle>(r, "JointToActuatorVelocity propagation"); break; default: propagateCase<ti::JointToActuatorEffortHandle>(r, "JointToActuatorEffort propagation");
  }
}
// ---- handles
using hh::Block; static volatile double sink; static const void* volatile psink; static volatile bool bsink;
template <class SH> static void readState(const SH& h, int variant) { sink = h.getPosition(); sink = h.getVelocity(); sink = h.getEffort(); psink = h.getPositionPtr(); psink = h.getVelocityPtr(); psink = h.getEffortPtr(); bsink = h.hasAbsolutePosition(); bsink = h.hasTorqueSensor(); if (variant & 1) { sink = h.getAbsolutePosition(); psink = h.getAbsolutePositionPtr(); } if (variant & 2) { sink = h.getTorqueSensor(); psink = h.getTorqueSensorPtr(); } }
static void use(hi::JointStateHandle& h, int v, const double*) { readState(h, v); }
static void use(hi::ActuatorStateHandle& h, int v, const double*) { readState(h, v); }
static void use(hi::JointHandle& h, int v, const double* x) { readState(h, v); h.setCommand(x[0]); sink = h.getCommand(); psink = h.getCommandPtr(); }
static void use(hi::ActuatorHandle& h, int v, const double* x) { readState(h, v); h.setCommand(x[0]); sink = h.getCommand(); psink = h.getCommandPtr(); }
static void usePV(hi::PosVelJointHandle& h, int v, const double* x) { readState(h, v); h.setCommandPosition(x[0]); h.setCommandVelocity(x[1]); sink = h.getCommandPosition(); sink = h.getCommandVelocity(); }
static void use(hi::PosVelJointHandle& h, int v, const double* x) { usePV(h, v, x); h.setCommand(x[0], x[1]); }
static void use(hi::PosVelAccJointHandle& h, int v, const double* x) { usePV(h, v, x); h.setCommand(x[0], x[1], x[2]); h.setCommandAcceleration(x[3]); sink = h.getCommandAcceleration(); }
static void use(hi::PositionVelocityTorqueGainsJointHandle& h, int v, const double* x) { usePV(h, v, x); h.setCommand(x[0], x[1], x[2], x[3], x[4]); h.setCommandEffort(x[1]); h.setCommandKp(x[2]); h.setCommandKd(x[3]); sink = h.getCommandEffort(); sink = h.getCommandKp(); sink = h.getCommandKd(); }
static void use(hi::JointModeHandle& h, int v, const double*) { h.setMode((hi::JointCommandModes)v); bsink = h.getMode() == hi::JointCommandModes::MODE_EFFORT; psink = h.getModePtr(); }
static void use(hi::ForceTorqueSensorHandle& h, int, const double*) { psink = h.getForce(); psink = h.getTorque(); }
static void use(hi::ImuSensorHandle& h, int, const double*) { psink = h.getOrientation(); psink = h.getOrientationCovariance(); psink = h.getAngularVelocity(); psink = h.getAngularVelocityCovariance(); psink = h.getLinearAcceleration(); psink = h.getLinearAccelerationCovariance(); }
template <class Hd> static void handleCase(Rng& r, const char* what) {
  hh::Arena a(r); Block* b = a.add(r.range(0, 127)); if (strcmp(what, "ForceTorqueSensorHandle") && strcmp(what, "ImuSensorHandle")) b->variant &= 3; Hd h = hh::T<Hd>::make(longName(r, 0), *b); double x[5]; for (int k = 0; k < 4; ++k) { for (double& d : x) d = r.anyBits(); a.shuffleAll(); Rt s(what); use(h, b->variant, x); } H().count("handles used"); H().seen(vh::mix(vh::hashStr(what), b->variant));
}
static void handles(Rng& r, long i) {
  switch (i % 11) {
#define ONE(k, T) case k: handleCase<hi::T>(r, #T); break;
    ONE(0, JointStateHandle) ONE(1, ActuatorStateHandle) ONE(2, JointHandle) ONE(3, ActuatorHandle) ONE(4, PosVelJointHandle) ONE(5, PosVelAccJointHandle) ONE(6, PositionVelocityTorqueGainsJointHandle) ONE(7, JointModeHandle) ONE(8, ForceTorqueSensorHandle) ONE(9, ImuSensorHandle) default: handleCase<hi::JointHandle>(r, "JointHandle");
  }
}
// ---- combined robots: committing and polling a switch, reading and writing
struct Part; struct Robots { std::vector<Part*> parts; std::vector<std::vector<std::string>> own; size_t next = 0; long calls = 0; }; static Robots* R = nullptr;
struct Part : hi::RobotHW {
  double d[4]; hi::JointStateInterface js; hi::PositionJointInterface pj; hi::EffortJointInterface ej; int st = 0;
  Part() { R->parts.push_back(this); auto& own = R->own[R->next++ % R->own.size()]; for (auto& n : own) { hi::JointStateHandle s(n, d, d + 1, d + 2); js.registerHandle(s); pj.registerHandle(hi::JointHandle(s, d + 3)); ej.registerHandle(hi::JointHandle(s, d + 3)); } registerInterface(&js); registerInterface(&pj); registerInterface(&ej); }
  bool init(ros::NodeHandle&, ros::NodeHandle&) override { return true; } bool prepareSwitch(const std::list<ControllerInfo>&, const std::list<ControllerInfo>&) override { return true; }
  void doSwitch(const std::list<ControllerInfo>&, const std::list<ControllerInfo>&) override { RtPause p; ++R->calls; } void read(const ros::Time&, const ros::Duration&) override { RtPause p; ++R->calls; } void write(const ros::Time&, const ros::Duration&) override { RtPause p; ++R->calls; }
  SwitchState switchResult() const override { return (SwitchState)st; } SwitchState switchResult(const ControllerInfo&) const override { return (SwitchState)st; }
};
static void robotCase(Rng& r, long) {
  Robots w; R = &w; auto& reg = pluginlib::stub::Registry<hi::RobotHW>::get(); { std::lock_guard<std::mutex> g(reg.m); reg.v.clear(); } reg.declare("p/Part", [] { return static_cast<hi::RobotHW*>(new Part); }); reg.declare("combined_robot_hw/CombinedRobotHW", [] { return static_cast<hi::RobotHW*>(new combined_robot_hw::CombinedRobotHW); });
  ros::stub::clearParams(); int n = r.range(1, 3); std::vector<std::string> u; int k = 0; XmlRpc::XmlRpcValue l = XmlRpc::XmlRpcValue::array(); bool nest = r.chance(30);
  for (int i = 0; i < n + nest; ++i) { std::vector<std::string> own; for (int j = r.range(0, 3); j > 0; --j) { own.push_back(longName(r, k++)); u.push_back(own.back()); } w.own.push_back(own); }
  for (int i = 0; i < n; ++i) { l.push_back(XmlRpc::XmlRpcValue("p" + std::to_string(i))); ros::stub::setParam("/p" + std::to_string(i) + "/type", XmlRpc::XmlRpcValue("p/Part")); }
  if (nest) { l.push_back(XmlRpc::XmlRpcValue("sub")); ros::stub::setParam("/sub/type", XmlRpc::XmlRpcValue("combined_robot_hw/CombinedRobotHW")); XmlRpc::XmlRpcValue m = XmlRpc::XmlRpcValue::array(); m.push_back(XmlRpc::XmlRpcValue("q")); ros::stub::setParam("/sub/robot_hardware", m); ros::stub::setParam("/sub/q/type", XmlRpc::XmlRpcValue("p/Part")); }
  ros::stub::setParam("/robot_hardware", l); u.push_back("nobody"); { combined_robot_hw::CombinedRobotHW hw; ros::NodeHandle nh("/"); if (!hw.init(nh, nh)) { H().fail("init", "the robot did not initialise"); return; } uint64_t h = vh::mix(n, nest);
  for (int c = r.range(1, 4); c > 0; --c) {
    auto list = [&](int m, int base) { std::list<ControllerInfo> o; for (int i = 0; i < m; ++i) { ControllerInfo x; x.name = longName(r, base + i); x.type = "type"; for (auto f : {"hardware_interface::PositionJointInterface", "hardware_interface::EffortJointInterface", "no::Interface"}) if (r.chance(50)) { hi::InterfaceResources q; q.hardware_interface = f; for (auto& j : u) if (r.chance(40)) q.resources.insert(j); if (!q.resources.empty()) x.claimed_resources.push_back(q); h = vh::mix(h, q.resources.size()); } o.push_back(x); } return o; };
    auto a = list(r.range(0, 3), 0), b = list(r.range(0, 3), 10); for (auto* p : w.parts) p->st = (int)r.below(3); ros::Time t; t.fromNSec(5000000000ull); ros::Duration d(0.01); gDetail = std::to_string(a.size()) + " controllers to start, " + std::to_string(b.size()) + " to stop";
    if (!hw.prepareSwitch(a, b)) { H().fail("prepare", "prepareSwitch failed"); return; }
    { Rt x("CombinedRobotHW::doSwitch"); hw.doSwitch(a, b); } { Rt x("CombinedRobotHW::switchResult"); sink = (double)(int)hw.switchResult(); for (auto& i : a) sink = (double)(int)hw.switchResult(i); } { Rt x("CombinedRobotHW::read and write"); hw.read(t, d); hw.write(t, d); }
    H().count("combined switches committed");
  }
  H().count("calls that reached parts", w.calls); H().seen(h); } R = nullptr;
}
int main(int argc, char** argv) {
  auto& h = vh::H(); h.args(argc, argv); void* f[4]; backtrace(f, 4); ros::stub::logHook() = &logYield; ros::stub::logFilter() = &filter;
  // the monitors themselves: each must see what it is meant to see
  { tWhat = "self-test"; auto expect = [&](const char* k, const std::function<void()>& g) { size_t n = h.violations.size(); h.keys.clear(); tInRt = true; tSel = tArm; g(); tSel = 0; tInRt = false; leave(); bool ok = h.violations.size() > n && h.violations[n].key == k; if (!ok && !(std::string(k) == "syscall:self-test" && !tArm)) { dprintf(2, "HARNESS-ERROR: the monitor for %s is blind (%s)\n", k, h.violations.empty() ? "nothing" : h.violations.back().key.c_str()); _exit(3); } h.violations.clear(); h.keys.clear(); };
    static std::string* s; static std::mutex m; int fd = open("/dev/null", O_WRONLY); if (arm()) h.count("processes with system-call trap"); FILE* e = stderr; stderr = fdopen(fd, "w"); if (!stderr) stderr = e;
    expect("allocation:self-test", [] { s = new std::string; }); expect("deallocation:self-test", [] { delete s; }); expect("lock:self-test", [] { std::lock_guard<std::mutex> g(m); }); expect("sleep:self-test", [] { std::this_thread::sleep_for(std::chrono::nanoseconds(1)); }); expect("syscall:self-test", [fd] { (void)!::write(fd, "x", 1); }); expect("log:self-test", [] { ROS_WARN("x"); });
    { std::unique_lock<std::mutex> g; tInRt = true; tSel = tArm; g = std::unique_lock<std::mutex>(m, std::try_to_lock); g.unlock(); ROS_DEBUG_STREAM("x" << std::string(100, 'x')); tSel = 0; tInRt = false; leave(); if (!h.violations.empty()) { dprintf(2, "HARNESS-ERROR: the monitors alarm on harmless code\n"); _exit(3); } }
    if (stderr != e) { fclose(stderr); stderr = e; } gTrapped = 0; }
  h.rule = "manager histories: distinct request sequences with outcome; limits: distinct (kind, limits given, NaN/inf/sign pattern of the commands); transmissions: distinct (handle type, transmission kinds, optional data); handles: (type, data variant); combined robots: distinct (structure, claims)"; bool go = true;
  h.loop("manager", h.cases(20000, 600000), [&](Rng& r, long i) { if (go) go = history(r, i); });
  gDetail = "random values"; h.loop("limits", h.cases(60000, 3000000), limitCase); h.loop("transmissions", h.cases(40000, 2000000), transCase); h.loop("handles", h.cases(4400, 44000), handles); h.loop("robots", h.cases(20000, 600000), robotCase);
  h.count("harmless system calls let through", gTrapped); for (auto c : {"callbacks: update", "callbacks: start", "callbacks: stop", "callbacks: wait", "callbacks: abort", "accepted switches", "service steps inside control cycles", "joints enforced", "transmissions propagated", "handles used", "combined switches committed", "calls that reached parts"}) h.require(c, 100);
  h.require("control cycles", 10000); int rc = h.finish(); fflush(stdout); fflush(stderr); _exit(rc);
}
