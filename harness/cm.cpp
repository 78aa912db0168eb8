// C01-C11: random histories of requests and control cycles against the real controller manager.
#include "cm_impl.h"
#include "cm_gen.h"
#include "cm_oracle.h"
extern "C" void simBlock(const char*) {}
using namespace sim;
static void logYield() { if (S) S->yieldPoint(); }
static int hangs = 0;
static bool runCase(vh::Rng& rng, long idx) {
  World* w = new World(rng.u64()); w->build(); auto& H = vh::H(); (void)idx;
  Oracle o(w->s, *w->run); vh::Rng& r = w->r; int n = w->big ? r.range(w->big + 5, w->big * 2) : r.chance(1) ? r.range(60, 150) : r.range(5, 16); bool hung = false;
  { std::lock_guard<std::mutex> g(w->s.lm); w->s.log.clear(); }
  for (int c = r.chance(30) ? 0 : r.range(1, 3); c > 0; --c) w->run->cycle();
  for (int i = 0; i < n; ++i) {
    if (r.chance(20) && w->registerLate()) H.count("loaders registered later");
    w->refresh(); Req q = w->request(); H.count("requests");
    w->run->run(q); hung = w->run->hung;
    if (!hung) { for (int c = r.range(0, 4); c > 0; --c) w->run->cycle(); w->run->probe(); }
    o.group(&q, hung);
    if (o.bad || hung) break;
  }
  H.count("mid-cycle-steps", w->s.midSteps); H.count("hand-overs at function entries", w->s.fineN); H.count("waits", Coop::get().sleeps); H.count("yields", Coop::get().yields); H.count("forced", Coop::get().forced); Coop::get().sleeps = Coop::get().yields = Coop::get().forced = 0;
  if (hung) { ++hangs; Coop::abandon(); S = new Sim; return hangs < 4; }  // the stuck worker keeps its world
  w->s.cm.reset(); if (!o.bad) o.finalCheck();
  if (H.samples.size() < 3) { std::string t; for (auto& x : o.trace) t += x + " "; H.sample(t); }
  H.seen(o.caseHash);
  PlugReg::get().onLoader = nullptr; S = nullptr; delete w; return true;
}
int main(int argc, char** argv) {
  auto& H = vh::H(); H.args(argc, argv); ros::stub::logHook() = &logYield;
  H.rule = "random histories of 5-16 (sometimes up to 150) service requests, 5-50 controller names interleaved with control cycles; two histories are distinct if the sequence of (request kind, outcome, strictness, mode, effective list sizes, resulting controller states, cycles used) differs";
  bool go = true;
  H.loop("history", H.cases(12000, 200000), [&](vh::Rng& r, long i) { if (go) go = runCase(r, i); });
  H.require("cycles", 100); H.require("cb-start", 50); H.require("cb-stop", 20); H.require("req-load-ok", 50); H.require("hardware-commits", 50);
  if (H.prop == "C02") H.require("switch-conflict", 20); if (H.prop == "C03") H.require("switch-refused", 50);
  if (H.prop == "C05") { H.require("default-wait", 20); H.require("default-abort", 10); H.require("asap-wait", 20); H.require("asap-abort", 10); }
  if (H.prop == "C06") H.require("switch-withdrawn", 10); if (H.prop == "C07") H.require("inits-failed", 20); if (H.prop == "C08") H.require("req-unload-ok", 20);
  if (H.prop == "C10") { H.require("reloads-forced", 5); } if (H.prop == "C11") H.require("effective-resets", 50);
  int rc = H.finish(); fflush(stdout); fflush(stderr); _exit(rc);
}
