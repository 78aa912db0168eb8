// Definitions that go with cm_sim.h: the worker thread, and the interposed sleeping and clock functions that turn every
// wait of the service thread into a hand-over to the control loop and give it virtual wall-clock time.
#pragma once
#include <pthread.h>
#include <errno.h>
#include <dlfcn.h>
#include "cm_sim.h"
namespace sim {
thread_local bool tIsWorker = false, tInRt = false, tInCoop = false; thread_local int tSuspend = 0; thread_local volatile unsigned char tSel = 0, tArm = 0; Sim* S = nullptr;
void Coop::start() {
  th = std::thread([this] {
    tIsWorker = true;
    for (;;) {
      std::function<void()> f;
      { CoopScope cs; std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return posted || quit; }); if (quit) return; f = std::move(job); posted = false; }
      f(); f = nullptr;
      { CoopScope cs; std::lock_guard<std::mutex> l(m); done = true; cv.notify_all(); }
    }
  });
  th.detach();
}
static Coop*& workerCoop() { static thread_local Coop* c = nullptr; return c; }
static int workerSleep(int64_t ns) { Coop& c = *workerCoop(); int64_t step = c.stepNs.load(); c.workerYield(ns > step ? ns : step, true); return 0; }
}
extern "C" { void __cyg_profile_func_enter(void*, void*) { if (sim::S) sim::S->hook(); } void __cyg_profile_func_exit(void*, void*) { if (sim::S) sim::S->hook(); } }
static inline bool simWorker() { if (!sim::tIsWorker || sim::tInCoop) return false; if (!sim::workerCoop()) sim::workerCoop() = sim::Coop::cur(); return sim::workerCoop() != nullptr; }
static inline int64_t tsNs(const struct timespec* t) { return (int64_t)t->tv_sec * 1000000000LL + t->tv_nsec; }
extern "C" {
void simBlock(const char* what);  // defined by the harness: a blocking call was made
int nanosleep(const struct timespec* rq, struct timespec* rm) { if (simWorker()) return sim::workerSleep(tsNs(rq)); if (sim::tInRt && !sim::tSuspend) simBlock("nanosleep"); long r = syscall(SYS_nanosleep, rq, rm); return (int)r; }
int clock_nanosleep(clockid_t id, int flags, const struct timespec* rq, struct timespec* rm) {
  if (simWorker()) { int64_t d = tsNs(rq); if (flags & TIMER_ABSTIME) { struct timespec n; clock_gettime(id, &n); d -= tsNs(&n); } return sim::workerSleep(d > 0 ? d : 0); }
  if (sim::tInRt && !sim::tSuspend) simBlock("clock_nanosleep");
  long r = syscall(SYS_clock_nanosleep, id, flags, rq, rm); return r < 0 ? errno : 0;
}
int usleep(useconds_t us) { struct timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { struct timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
int sched_yield(void) { if (simWorker()) return sim::workerSleep(1000); return (int)syscall(SYS_sched_yield); }
int clock_gettime(clockid_t id, struct timespec* t) {
  long r = syscall(SYS_clock_gettime, id, t); if (r) return -1;
  // the service thread lives in virtual time only: it passes with its sleeps (and a little with every look at the clock), not with the load of the machine
  if (sim::tIsWorker && !sim::tInCoop && sim::Coop::cur()) { static std::atomic<int64_t> base[16]; auto& b = base[(unsigned)id % 16]; int64_t none = 0, first = tsNs(t); b.compare_exchange_strong(none, first ? first : 1); int64_t n = b.load() + (sim::Coop::cur()->voff += 1000); t->tv_sec = n / 1000000000LL; t->tv_nsec = n % 1000000000LL; }
  return 0;
}
// A timed wait of the service thread: hand over once, then report a (permitted) spurious wake-up.
static int simTimedWait(pthread_mutex_t* mx, int64_t remaining) { pthread_mutex_unlock(mx); sim::workerSleep(remaining < 1000000 ? (remaining > 0 ? remaining : 0) : 1000000); pthread_mutex_lock(mx); return 0; }
typedef int (*TW)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*); typedef int (*CW)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*); typedef int (*PW)(pthread_cond_t*, pthread_mutex_t*);
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* a) {
  if (simWorker()) { struct timespec n; clock_gettime(CLOCK_REALTIME, &n); int64_t d = tsNs(a) - tsNs(&n); if (d <= 0) return ETIMEDOUT; return simTimedWait(m, d); }
  if (sim::tInRt && !sim::tSuspend) simBlock("pthread_cond_timedwait");
  static TW real = (TW)dlsym(RTLD_NEXT, "pthread_cond_timedwait"); return real(c, m, a);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (simWorker()) { pthread_mutex_unlock(m); sim::workerSleep(0); pthread_mutex_lock(m); return 0; }
  if (sim::tInRt && !sim::tSuspend) simBlock("pthread_cond_wait");
  static PW real = (PW)dlsym(RTLD_NEXT, "pthread_cond_wait"); return real(c, m);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* a) {
  if (simWorker()) { struct timespec n; clock_gettime(id, &n); int64_t d = tsNs(a) - tsNs(&n); if (d <= 0) return ETIMEDOUT; return simTimedWait(m, d); }
  if (sim::tInRt && !sim::tSuspend) simBlock("pthread_cond_clockwait");
  static CW real = (CW)dlsym(RTLD_NEXT, "pthread_cond_clockwait"); return real(c, m, id, a);
}
}
