// Offline oracle over the event log of the simulated manager. Each violation names the properties it breaks.
#pragma once
#include "cm_sim.h"
namespace sim {
struct Loaded { std::string name, type, claims; int inst; };
inline std::string canonClaims(const std::string& c) {  // "iface{a,b,}iface2{...}" in canonical order
  std::multiset<std::string> parts; size_t i = 0;
  while (i < c.size()) { size_t o = c.find('{', i), e = c.find('}', o); if (o == std::string::npos || e == std::string::npos) return c; std::string body = c.substr(o + 1, e - o - 1); std::multiset<std::string> rs; std::string cur; for (char ch : body) { if (ch == ',') { rs.insert(cur); cur.clear(); } else cur += ch; } std::string x = c.substr(i, o - i) + "{"; for (auto& r : rs) x += r + ","; parts.insert(x + "}"); i = e + 1; }
  std::string o; for (auto& p : parts) o += p; return o;
}
inline Strs resourcesOf(const std::string& c) { Strs o; size_t i = 0; while (i < c.size()) { size_t a = c.find('{', i), e = c.find('}', a); std::string cur; for (size_t k = a + 1; k < e; ++k) { if (c[k] == ',') { o.push_back(cur); cur.clear(); } else cur += c[k]; } i = e + 1; } return o; }
struct Oracle {
  Sim& s; Runner& run; std::vector<Loaded> list; std::map<int, int> st; std::map<int, int> destroyed, constructed; std::map<int, bool> initOk; size_t pos = 0; bool bad = false; bool stopAll = false; std::vector<std::string> trace;
  uint64_t caseHash = 0;
  Oracle(Sim& s_, Runner& r_) : s(s_), run(r_) {}
  void vio(const char* props, const std::string& key, const std::string& detail) {
    bad = true; std::string p = std::string(" ") + props + " ";
    if (p.find(" " + vh::H().prop + " ") == std::string::npos) { vh::H().count("other-violations"); if (getenv("VH_OTHERS")) fprintf(stderr, "other [%s] %s (case %ld): %s\n", props, key.c_str(), vh::H().curCase, detail.c_str()); return; }
    std::string d = detail + "; history:"; for (auto& t : trace) d += " " + t; vh::H().fail(key, d);
  }
  int instOf(const std::string& n) const { for (auto& l : list) if (l.name == n) return l.inst; return -1; }
  const Loaded* byInst(int i) const { for (auto& l : list) if (l.inst == i) return &l; return nullptr; }
  bool running(int i) const { auto it = st.find(i); return it != st.end() && it->second == RUNNING; }
  std::string nm(int i) const { auto l = byInst(i); return l ? l->name : "#" + std::to_string(i); }
  std::string infoOf(const Loaded& l) const { return l.name + "|" + l.type + "|" + l.claims; }
  bool conflict(const std::vector<const Loaded*>& v) const { std::set<std::string> seen; for (auto l : v) for (auto& r : resourcesOf(l->claims)) if (!seen.insert(r).second) return true; return false; }
  static std::string canonInfo(const std::string& i) { auto p = i.rfind('|'); return i.substr(0, p + 1) + canonClaims(i.substr(p + 1)); }
  static std::string canonInfos(const Strs& v) { std::multiset<std::string> m; for (auto& x : v) m.insert(canonInfo(x)); std::string o; for (auto& x : m) o += x + ";"; return o; }

  // Processes everything logged since the last call as the group of one request (or none, for the final destruction).
  void group(const Req* q, bool hung) {
    std::vector<Ev> ev; { std::lock_guard<std::mutex> g(s.lm); ev.assign(s.log.begin() + pos, s.log.end()); pos = s.log.size(); }
    auto& H = vh::H(); H.count("events", (long)ev.size());
    if (q) trace.push_back(reqStr(*q));
    if (q) { long c = 0; for (auto& e : ev) c += e.k == CYC_BEGIN; trace.back() += "{" + std::to_string(c) + "cyc}"; }
    if (H.trace) dump(q, ev);
    // ---- expectations at the time of the request
    std::vector<Loaded> list0 = list; std::map<int, int> st0 = st;
    int strict = 0; bool refuse3 = false, refuse2 = false; std::vector<const Loaded*> effStart, effStop; std::set<int> named;
    bool isSwitch = q && (q->k == SWITCH || (q->k == RELOAD && q->force && !list.empty()));
    if (isSwitch) {
      Strs start, stop; if (q->k == SWITCH) { start = q->start; stop = q->stop; strict = q->strictness == 2 ? 2 : 1; } else { for (auto& l : list) stop.push_back(l.name); strict = 1; }
      std::set<std::string> A(start.begin(), start.end()), B(stop.begin(), stop.end());
      for (auto& n : A) { int i = instOf(n); if (i < 0) { if (strict == 2) refuse3 = true; } else { named.insert(i); if (running(i) && !B.count(n) && strict == 2) refuse3 = true; if (running(i) && B.count(n)) refuse3 = true; } }
      for (auto& n : B) { int i = instOf(n); if (i < 0 || !running(i)) { if (strict == 2) refuse3 = true; } if (i >= 0) named.insert(i); }
      std::vector<const Loaded*> would;
      for (auto& l : list0) { bool r = running(l.inst), es = A.count(l.name) && !r, ep = B.count(l.name) && r; if (es) effStart.push_back(&l); if (ep) effStop.push_back(&l); if ((r && !ep) || es) would.push_back(&l); }
      refuse2 = conflict(would);
    }
    bool refused = refuse3 || refuse2; std::set<int> P, Q; for (auto l : effStart) P.insert(l->inst); for (auto l : effStop) Q.insert(l->inst);
    // ---- pass over the events
    int nPrep = 0, nDo = 0; const Ev *prep = nullptr, *doSw = nullptr; int commit = -1; bool reqReturned = false; const Ev* reqEnd = nullptr; int64_t t0 = 0, wall0 = 0, tPrep = 0;
    std::map<int, int> nStart, nStop, nAbort; bool anyAbort = false, finished = false, expiredOrError = false; bool relaxedTail = false; int curCyc = -1; long cyc = 0;
    // per cycle
    std::set<int> R0; std::map<int, int> upd; std::map<int, std::vector<int>> pre; std::map<int, std::vector<int>> sw; int64_t ct = 0, prevCt = 0, cp = 0, cwall = 0; bool creset = false; std::vector<std::pair<int, int>> order; bool cycleCommit = false; bool inCyc = false; int doPos = -1; bool retAtBegin = false;
    std::vector<int> constructs, inits; Strs creates; std::vector<int> createLoader; int curInit = -1; Loaded fresh; bool freshOk = false; bool freshHw = false; std::vector<int> gone; std::vector<int> reloads; bool reloadUnderLoaded = false; bool ok = q ? q->ok : true;
    std::set<int> finishedInst;
    bool timeoutRet = q && q->k == SWITCH && q->returned && !q->ok && q->timeout > 0;
    for (auto& e : ev) {
      switch (e.k) {
        case REQ_BEGIN: t0 = prevCt = ct = e.t; wall0 = e.wall; break;
        case REQ_END:
          reqReturned = true; reqEnd = &e;
          if (isSwitch && q->k == SWITCH && q->ok && prep && prep->flag) {
            bool complete = nDo >= 1; for (int i : Q) complete &= nStop[i] >= 1; for (int i : P) complete &= nStart[i] >= 1 || nAbort[i] >= 1;
            if (!complete) vio("C06", "switch-success-incomplete", reqStr(*q) + " returned success before it was completely processed");
          }
          break;
        case CYC_BEGIN: R0.clear(); for (auto& x : st) if (x.second == RUNNING && !destroyed.count(x.first)) R0.insert(x.first); upd.clear(); pre.clear(); sw.clear(); order.clear(); prevCt = ct; ct = e.t; cp = e.p; creset = e.flag; curCyc = e.cycle; cycleCommit = false; inCyc = true; ++cyc; cwall = e.wall; retAtBegin = reqReturned; H.count("cycles"); if (creset) H.count("reset-cycles"); if (creset && !R0.empty()) H.count("effective-resets"); break;
        case CYC_END: {
          inCyc = false;
          for (int i : R0) {
            if (upd[i] != 1) vio("C01", "update-count", "running controller " + nm(i) + " was updated " + std::to_string(upd[i]) + " times in a cycle");
            if (creset && !(pre[i] == std::vector<int>{STOP, START})) { vio("C11", "reset-sequence", "controller " + nm(i) + " was not stopped and started once before its update in a reset cycle"); }
            if (!creset && !pre[i].empty()) vio("C11 C01", "restart-without-reset", "controller " + nm(i) + " got callbacks before its update in a cycle without reset");
            bool stp = false, sta = false; for (int k : sw[i]) { stp |= k == STOP; sta |= k == START; }
            if (stp && sta) vio("C11 C03", "restart-on-own", "controller " + nm(i) + " was restarted after its update");
          }
          for (auto& u : upd) if (u.second && !R0.count(u.first)) vio("C01", "update-not-running", "controller " + nm(u.first) + " was updated although not running at the beginning of the cycle");
          for (auto& x : e.states) if (st.count(x.first) && byInstAny(x.first) && st[x.first] != x.second) vio("C01 C09 C11", "state-mismatch", "controller " + nm(x.first) + " should be " + stName(st[x.first]) + " but is " + stName(x.second));
          // switch processing in this cycle
          std::map<int, std::vector<int>> sw2 = sw; bool any = false; for (auto& x : sw2) any |= !x.second.empty();
          if (any || cycleCommit) H.count("switch-cycles");
          if (any && !(isSwitch && prep && prep->flag && nDo)) { /* reported below per callback */ }
          if (isSwitch && prep && prep->flag && commit >= 0 && !finished) {
            int idx = curCyc - commit; const Script& sc = s.scripts[prep->n]; double T = q->k == SWITCH ? q->timeout : 0; bool asap = q->k == SWITCH && q->asap;
            int64_t lo = ct - s_hi, hi = ct - t0; // elapsed range
            int64_t Tn = (int64_t)std::llround(T * 1e9); bool must = T > 0 && lo > Tn + 1000, may = T > 0 && hi > Tn;
            if (T > 0 && T == std::floor(T) && lo == hi && lo == Tn) { must = false; may = false; }
            else if (T > 0 && hi > Tn - 1000) may = true;
            if (T > 0 && hi == Tn && T == std::floor(T)) may = false;
            // a cycle that begins after the service thread may already have withdrawn the switch need not act on it
            bool withdrawnMaybe = timeoutRet && cwall - wall0 >= Tn;
            bool none = true; for (int i : P) none &= sw2[i].empty();
            std::string at = " (cycle " + std::to_string(idx) + " of the switch " + reqStr(*q) + ")";
            if (none && !P.empty() && withdrawnMaybe && idx > 0) { finishedByWithdraw = true; }
            else if (!asap) {
              int g = sc.at(idx); int want = g == 0 ? START : (g == 2 || must) ? ABORT : WAIT; bool alt = g == 1 && !must && may;
              int got = -1; bool uniform = true; for (int i : P) { if (sw2[i].size() != 1) uniform = false; else if (got < 0) got = sw2[i][0]; else if (got != sw2[i][0]) uniform = false; }
              if (!P.empty()) {
                if (!uniform || (got != want && !(alt && got == ABORT))) vio(idx == 0 && g == 0 ? "C05 C04 C03" : "C05", "default-mode", std::string("hardware reports ") + (g == 0 ? "done" : g == 1 ? "ongoing" : "error") + (must ? " (timed out)" : "") + " but the pending controllers got " + list2(sw2, P) + at);
                H.count(std::string("default-") + cbName(want));
              }
              if (got == ABORT) expiredOrError = true;
              if (P.empty() ? (g != 1 || must) : (got == START || got == ABORT)) finished = true;
              if (P.empty() && g == 1 && may) maybeFinished = true;
              if (g == 2 || must || (g == 1 && may)) expiredOrError = true;
            } else {
              for (int i : P) {
                std::string n = nm0(list0, i); int g = sc.at(idx, n); auto& cb = sw2[i];
                if (started.count(i)) { if (!cb.empty()) vio("C05 C03", "asap-after-start", "controller " + n + " was already started by this switch but got " + list2(sw2, {i}) + at); continue; }
                int want = g == 0 ? START : (g == 2 || must) ? ABORT : WAIT; bool alt = g == 1 && !must && may;
                bool wasAborted = abortedSet.count(i);
                bool good = cb.size() == 1 && (cb[0] == want || (alt && cb[0] == ABORT)); if (wasAborted && cb.empty()) good = true;
                if (!good) vio(idx == 0 && g == 0 ? "C05 C04 C03" : "C05", "asap-mode", "hardware reports " + std::string(g == 0 ? "done" : g == 1 ? "ongoing" : "error") + (must ? " (timed out)" : "") + " for " + n + " but it got " + list2(sw2, {i}) + at);
                H.count(std::string("asap-") + cbName(want));
                if (!cb.empty()) { if (cb[0] == START) started.insert(i); if (cb[0] == ABORT) { abortedSet.insert(i); expiredOrError = true; } else abortedSet.erase(i); }
              }
              bool all = true; for (int i : P) all &= started.count(i) || abortedSet.count(i); if (all) finished = true;
            }
            if (commit == curCyc) {
              // all stops in the commit cycle, before any start/wait/abort
              for (int i : Q) if (nStop[i] < 1) vio("C04", "stop-not-in-commit-cycle", "controller " + nm0(list0, i) + " was not stopped in the cycle that committed " + reqStr(*q));
              bool later = false; for (auto& o : order) { if (o.second == STOP) { if (later) vio("C04", "start-before-stop", "a controller was started before " + nm0(list0, o.first) + " was stopped in " + reqStr(*q)); } else later = true; }
            }
          }
          break;
        }
        case CB: {
          int i = e.inst; std::string who = std::string(cbName(e.cb)) + " of " + nm(i);
          if (!initOk.count(i) || !initOk[i]) vio("C01 C07", "callback-before-init", who + " although it was never initialised successfully");
          if (!e.rt || e.cycle < 0) vio("C01", "callback-outside-cycle", who + " outside the control cycle");
          else if (e.t != ct) vio("C01", "wrong-time", who + " got time " + std::to_string(e.t) + " instead of " + std::to_string(ct));
          if (e.cb == UPDATE) { H.count("updates"); if (e.p != cp) vio("C01", "wrong-period", who + " got a wrong period"); ++upd[i]; break; }
          H.count(std::string("cb-") + cbName(e.cb));
          if (e.cb == START && running(i)) vio("C01", "start-while-running", who + " although it is running");
          if (e.cb == STOP && !running(i)) vio("C01", "stop-while-not-running", who + " although it is not running");
          bool resetEv = R0.count(i) && upd[i] == 0;
          if (resetEv) pre[i].push_back(e.cb);
          else {
            sw[i].push_back(e.cb); order.push_back({i, e.cb});
            if (creset && !R0.count(i) && !(P.count(i) && isSwitch)) vio("C11", "reset-touched-stopped", who + " in a reset cycle although it was not running");
            if (!isSwitch) vio("C03 C05 C06", "callback-without-switch", who + " although no switch is in progress");
            else if (refused) vio(refuse3 && refuse2 ? "C02 C03" : refuse3 ? "C03" : "C02", "callback-after-refusal", who + " although the switch must be refused: " + reqStr(*q));
            else if (!prep || !prep->flag) vio("C04", "callback-without-preparation", who + " although the hardware has not accepted the switch " + reqStr(*q));
            else {
              if (nDo == 0) vio("C04", "callback-before-commit", who + " before the hardware switch was committed in " + reqStr(*q));
              bool allowed = e.cb == STOP ? Q.count(i) : P.count(i);
              if (!allowed) vio("C03 C05", "unaffected-controller-called", who + " although " + reqStr(*q) + " does not call for it");
              if (reqReturned) vio("C06", q->ok ? "acts-after-success" : "acts-after-failure", who + " after " + reqStr(*q) + " had returned");
              else if (finished) vio("C05 C06", "acts-after-end", who + " after the switch was over: " + reqStr(*q));
            }
            if (e.cb == START) ++nStart[i]; if (e.cb == STOP) ++nStop[i]; if (e.cb == ABORT) { anyAbort = true; ++nAbort[i]; }
          }
          if (e.cb == STOP && !resetEv && !P.count(i) && nStop[i] > 1) vio("C03", "stopped-twice", who + " twice by one request");
          st[i] = e.cb == START ? RUNNING : e.cb == STOP ? STOPPED : e.cb == WAIT ? WAITING : ABORTED;
          if (e.cb == START) {
            std::vector<const Loaded*> v; std::deque<Loaded> keep; for (auto& x : st) if (x.second == RUNNING && !destroyed.count(x.first)) if (auto l = byInst(x.first)) v.push_back(l);
            if (conflict(v)) { std::string n; for (auto l : v) n += l->name + ":" + l->claims + " "; vio("C02", "running-conflict", "running controllers claim the same resource: " + n); }
            H.count("max-running-checks");
          }
          break;
        }
        case PREPARE: ++nPrep; if (nPrep == 1) { prep = &e; tPrep = s.now; }
          if (!isSwitch) vio("C04", "prepare-without-switch", "the hardware was asked to prepare a switch without a switch request");
          else {
            if (e.rt) vio("C04", "prepare-in-control-loop", "the hardware was asked to prepare inside the control cycle");
            if (nPrep > 1) vio("C04", "prepared-twice", "the hardware was asked to prepare twice for " + reqStr(*q));
            if (refuse3) vio("C03", "prepare-for-refused", "the hardware was asked to prepare although the request must be refused: " + reqStr(*q));
            if (!refused) checkLists(e, effStart, effStop, "prepare", *q);
          }
          break;
        case DOSWITCH: ++nDo; if (nDo == 1) { doSw = &e; commit = e.cycle; cycleCommit = true; s_hi = std::max(t0, e.flag ? ct : prevCt); }  // the latest moment the request can have been accepted: before this cycle, unless the service thread ran in it
          H.count("hardware-commits");
          if (!isSwitch) { vio("C04 C06", "commit-without-switch", "a hardware switch was committed without a switch request"); break; }
          if (!e.rt) vio("C04", "commit-outside-control-loop", "the hardware switch was committed outside the control cycle");
          if (nDo > 1) vio("C04", "committed-twice", "the hardware switch was committed twice for " + reqStr(*q));
          if (refused) vio(refuse3 && refuse2 ? "C02 C03" : refuse3 ? "C03" : "C02", "commit-for-refused", "a hardware switch was committed although the request must be refused: " + reqStr(*q));
          else if (!prep || !prep->flag) vio("C04", "commit-without-preparation", "the hardware switch was committed although the hardware has not accepted it: " + reqStr(*q));
          if (!refused) checkLists(e, effStart, effStop, "commit", *q);
          if (reqReturned) vio("C06", "commit-after-return", "the hardware switch was committed after " + reqStr(*q) + " had returned");
          break;
        case CONSTRUCT: constructed[e.inst]++; constructs.push_back(e.inst); st[e.inst] = CONSTRUCTED; if (!(q && q->k == LOAD)) vio("C07", "constructed-without-load", "a controller was constructed without a load request"); break;
        case DESTROY: destroyed[e.inst]++; gone.push_back(e.inst); if (destroyed[e.inst] > 1) vio("C08", "destroyed-twice", nm(e.inst) + " destroyed twice"); H.count("destructions");
          if (e.rt) vio("C08", "destroyed-in-control-loop", nm(e.inst) + " was destroyed by the control loop");
          break;
        case INIT_BEGIN: inits.push_back(e.inst); curInit = e.inst; freshHw = e.flag; if (q && q->k == LOAD) {
            if (!e.flag) vio("C07", "init-hardware", "controller initialised with another hardware object");
            if (e.s != s.rootNs) vio("C07", "init-root-namespace", "controller " + q->name + " initialised with root namespace " + e.s + " instead of " + s.rootNs);
            if (e.s2 != q->ns) vio("C07", "init-own-namespace", "controller " + q->name + " initialised with namespace " + e.s2 + " instead of " + q->ns);
          } break;
        case INIT_END: if (e.n == 0) { initOk[e.inst] = true; st[e.inst] = INITIALIZED; freshOk = true; fresh.inst = e.inst; fresh.claims = e.s; H.count("inits-ok"); } else { initOk[e.inst] = false; H.count("inits-failed"); } break;
        case LCREATE: creates.push_back(e.s); createLoader.push_back(e.n); break;
        case LRELOAD: reloads.push_back(e.n); if (q && q->k == RELOAD) for (auto& l : list) if (!destroyed.count(l.inst)) reloadUnderLoaded = true; break;
        case PROBE: probes.push_back(e); break;
      }
      if (vh::H().violations.size() >= 8) break;
    }
    if (!q) return;
    int anyStop = 0, anyStart = 0; for (auto& x : nStop) anyStop += x.second; for (auto& x : nStart) anyStart += x.second;
    if (hung) {
      vio(q->k == SWITCH ? "C06 C05" : "C06", std::string("hang-") + kindName(q->k), run.hangWhat); stopAll = true; return;
    }
    std::string Q1 = reqStr(*q);
    if (reqEnd && !q->api && !reqEnd->flag) vio(q->k == LOAD ? "C07" : q->k == UNLOAD ? "C08" : q->k == SWITCH ? "C03 C06" : q->k == RELOAD ? "C10" : "C09", "service-call-failed", "the service call failed: " + Q1);
    H.count(std::string("req-") + kindName(q->k) + (q->ok ? "-ok" : "-refused"));
    // ---- outcome of the request
    switch (q->k) {
      case LOAD: {
        bool dup = false; for (auto& l : list0) dup |= l.name == q->name;
        int loader = -1, beh = -1; if (!dup && q->validName && q->hasType) for (size_t i = 0; i < s.loaders.size() && loader < 0; ++i) for (auto& d : s.loaders[i]) if (d.type == q->type && s.declares(i, d) && loader < 0) { loader = (int)i; beh = d.behaviour; }
        if (loader >= 0 && s.gen[loader] > 0) H.count("loads from a reloaded loader"); bool constructOk = loader >= 0 && beh == 0, want = constructOk && q->init == 0;
        if (q->ok != want) vio("C07", want ? "load-refused" : "load-accepted", Q1 + " should " + (want ? "succeed" : "fail"));
        size_t wantCreates = loader >= 0 ? 1 : 0;
        if (creates.size() != wantCreates || (loader >= 0 && (createLoader[0] != loader || creates[0] != q->type))) { std::string d; for (size_t i = 0; i < creates.size(); ++i) d += " loader" + std::to_string(createLoader[i]) + ":" + creates[i]; vio("C07", "wrong-loader", Q1 + " of type " + q->type + " should be created by loader " + std::to_string(loader) + " but got" + (d.empty() ? " none" : d)); }
        if (constructs.size() != (constructOk ? 1u : 0u)) vio("C07", "construct-count", Q1 + " constructed " + std::to_string(constructs.size()) + " instances");
        if (inits.size() != (constructOk ? 1u : 0u)) vio("C07", "init-count", Q1 + " initialised " + std::to_string(inits.size()) + " times");
        for (int i : gone) if (byInst(i)) vio("C08 C07", "loaded-destroyed", nm(i) + " was destroyed by " + Q1);
        if (q->ok && want && freshOk) { fresh.name = q->name; fresh.type = q->type; list.push_back(fresh); if (destroyed.count(fresh.inst)) vio("C07 C08", "loaded-destroyed", q->name + " was destroyed although it was loaded"); }
        break;
      }
      case UNLOAD: {
        int i = -1; for (auto& l : list0) if (l.name == q->name) i = l.inst; auto it = st0.find(i); bool run0 = it != st0.end() && it->second == RUNNING; bool want = i >= 0 && !run0;
        if (q->ok != want) vio("C08", want ? "unload-refused" : "unload-accepted", Q1 + " should " + (want ? "succeed" : "fail"));
        for (int g : gone) if (g != i || !want) vio("C08", "wrong-destroyed", nm(g) + " was destroyed by " + Q1);
        if (q->ok && want) { if (!destroyedBefore(ev, i)) vio("C08", "not-destroyed", q->name + " was not destroyed when " + Q1 + " returned"); for (auto l = list.begin(); l != list.end(); ++l) if (l->inst == i) { list.erase(l); break; } }
        break;
      }
      case SWITCH: {
        for (int g : gone) if (byInst(g)) vio("C08", "wrong-destroyed", nm(g) + " was destroyed by " + Q1);
        H.count(refused ? (refuse2 && !refuse3 ? "switch-conflict" : "switch-refused") : prep && !prep->flag ? "switch-hw-refused" : "switch-carried-out"); if (timeoutRet && prep && prep->flag) H.count("switch-withdrawn");
        if (refused) { if (q->ok) vio(refuse3 && refuse2 ? "C02 C03" : refuse3 ? "C03" : "C02", "accepted-wrongly", Q1 + " must be refused" + (refuse2 ? " because of a resource conflict" : "")); break; }
        if (nPrep == 0) { vio("C04 C03", "refused-wrongly", Q1 + " is acceptable but the hardware was never asked to prepare"); break; }
        if (!prep->flag) { if (q->ok) vio("C04", "success-despite-hardware-refusal", Q1 + " succeeded although the hardware refused"); break; }
        bool timeoutPossible = q->timeout > 0 && reqEnd && reqEnd->wall - wall0 >= (int64_t)(q->timeout * 1e9);
        if (!q->ok && !timeoutPossible && !expiredOrError) vio("C03", "refused-wrongly", Q1 + " failed without hardware error or timeout");
        if (q->ok && nDo == 0) vio("C04 C06", "never-committed", Q1 + " succeeded without committing the hardware switch");
        if (q->ok && !anyAbort) {
          for (auto l : effStart) if (nStart[l->inst] != 1) vio("C03", "not-started", Q1 + " started " + l->name + " " + std::to_string(nStart[l->inst]) + " times");
          for (auto l : effStop) if (nStop[l->inst] != 1) vio("C03", "not-stopped", Q1 + " stopped " + l->name + " " + std::to_string(nStop[l->inst]) + " times");
          if (!P.empty() || !Q.empty()) H.count("switch-effective");
        }
        if (q->ok) for (auto& l : list) if (!P.count(l.inst) && !Q.count(l.inst) && st0[l.inst] != st[l.inst]) vio("C03 C05", "other-changed", Q1 + " changed the state of " + l.name);
        break;
      }
      case RELOAD: {
        std::vector<int> want; for (size_t i = 0; i < s.loaders.size(); ++i) want.push_back((int)i); std::vector<int> got = reloads; std::sort(got.begin(), got.end());
        bool refusedHw = prep && !prep->flag; bool wantOk = list0.empty() || (q->force && !refusedHw);
        if (q->ok != wantOk) vio("C10", wantOk ? "reload-refused" : "reload-accepted", Q1 + " should " + (wantOk ? "succeed" : "fail"));
        if (got != (wantOk ? want : std::vector<int>())) { std::string d; for (int x : got) d += " " + std::to_string(x); vio("C10", "reloaded-loaders", Q1 + " reloaded loaders [" + d + " ] of " + std::to_string(want.size())); }
        if (reloadUnderLoaded) vio("C10", "reload-under-loaded", Q1 + " reloaded a loader while controllers were still alive");
        if (wantOk) {
          for (auto l : effStop) if (nStop[l->inst] != 1) vio("C10", "reload-not-stopped", Q1 + " stopped running controller " + l->name + " " + std::to_string(nStop[l->inst]) + " times");
          for (auto& l : list0) if (!destroyedBefore(ev, l.inst)) vio("C10", "reload-not-destroyed", l.name + " was not destroyed by " + Q1);
          list.clear(); H.count("reloads-done"); if (!list0.empty()) H.count("reloads-forced");
        } else { for (int g : gone) vio("C10", "refused-reload-destroyed", nm(g) + " was destroyed by refused " + Q1); if (nDo || anyStop) vio("C10", "refused-reload-effect", "refused " + Q1 + " had an effect"); }
        break;
      }
      case LIST: checkListing(reqEnd ? reqEnd->listed : std::vector<Listed>(), "C09", Q1, false); break;
      case TYPES: {
        std::multiset<std::string> want, got; const Ev* e = reqEnd; for (size_t i = 0; i < s.loaders.size(); ++i) for (auto& d : s.loaders[i]) if (s.declares(i, d)) want.insert(d.type + "@" + (i == 0 ? std::string("controller_interface::ControllerBase") : "loader" + std::to_string(i)));
        if (e) for (size_t i = 0; i < e->a.size(); ++i) got.insert(e->a[i] + "@" + (i < e->b.size() ? e->b[i] : "?")); if (e && e->b.size() != e->a.size()) got.insert("sizes differ");
        if (want != got) { std::string d; for (auto& x : got) d += " " + x; vio("C09", "types", "type listing is" + d); }
        break;
      }
    }
    if (q->k != LOAD && q->k != UNLOAD && q->k != RELOAD) for (int g : gone) if (byInst(g)) vio("C08", "wrong-destroyed", nm(g) + " destroyed by " + Q1);
    if (q->k == LIST || q->k == TYPES) { if (nDo || nPrep || anyStop || anyStart) vio("C09", "listing-has-effect", "a listing changed controllers"); }
    for (auto& e : probes) { checkListing(e.listed, q->k == LOAD ? "C09 C07" : q->k == UNLOAD ? "C09 C08" : q->k == RELOAD ? "C09 C10" : "C09", "after " + Q1, true); if (!e.s.empty()) vio("C09", "lookup-other", e.s); if (!e.flag) vio("C09", "list-call", "list call failed"); }
    // ---- what was seen: abstract state and request
    std::string ab = std::to_string(q->k) + (q->ok ? "+" : "-") + std::to_string(strict) + std::to_string(q->asap) + std::to_string(q->timeout > 0) + std::to_string(q->mode) + std::to_string(effStart.size()) + "/" + std::to_string(effStop.size()) + (anyAbort ? "A" : "") + "|"; for (auto& l : list) ab += std::to_string(st[l.inst]) + ","; ab += std::to_string(std::min(cyc, 6L));
    ab += "s" + std::to_string(anyStart); H.seenSub("steps", vh::hashStr(ab)); caseHash = vh::mix(caseHash, vh::hashStr(ab));
    started.clear(); abortedSet.clear(); probes.clear(); s_hi = 0; finishedByWithdraw = maybeFinished = false; (void)tPrep; (void)doSw; (void)relaxedTail; (void)doPos; (void)retAtBegin; (void)freshHw; (void)curInit; (void)inCyc;
  }
  // after the manager has been destroyed
  void finalCheck() {
    group(nullptr, false); if (bad) return;
    for (auto& c : constructed) if (destroyed[c.first] != 1) vio("C08", "leaked-instance", "instance " + std::to_string(c.first) + " was destroyed " + std::to_string(destroyed[c.first]) + " times although the manager is gone");
  }
  std::set<int> started, abortedSet; std::vector<Ev> probes; int64_t s_hi = 0; bool finishedByWithdraw = false, maybeFinished = false;
  static const char* kindName(int k) { static const char* n[] = {"load", "unload", "switch", "list", "reload", "types"}; return n[k]; }
  bool byInstAny(int i) const { return byInst(i) != nullptr; }
  static std::string nm0(const std::vector<Loaded>& l, int i) { for (auto& x : l) if (x.inst == i) return x.name; return "#" + std::to_string(i); }
  static std::string list2(std::map<int, std::vector<int>>& m, const std::set<int>& P) { std::string o = "["; for (int i : P) { o += "("; for (int k : m[i]) o += std::string(cbName(k)) + " "; o += ")"; } return o + "]"; }
  bool destroyedBefore(const std::vector<Ev>& ev, int inst) const { for (auto& e : ev) { if (e.k == DESTROY && e.inst == inst) return true; if (e.k == REQ_END) return false; } return false; }
  void checkLists(const Ev& e, const std::vector<const Loaded*>& a, const std::vector<const Loaded*>& b, const char* what, const Req& q) {
    Strs A, B; for (auto l : a) A.push_back(infoOf(*l)); for (auto l : b) B.push_back(infoOf(*l));
    if (canonInfos(e.a) != canonInfos(A) || canonInfos(e.b) != canonInfos(B)) vio("C04", std::string(what) + "-lists", std::string("the hardware was asked to ") + what + " start {" + canonInfos(e.a) + "} stop {" + canonInfos(e.b) + "} instead of start {" + canonInfos(A) + "} stop {" + canonInfos(B) + "} for " + reqStr(q));
  }
  void checkListing(const std::vector<Listed>& got, const char* props, const std::string& when, bool lookup) {
    vh::H().count("listings");
    std::string w, g; for (auto& l : list) w += l.name + "(" + l.type + "," + stName(st[l.inst]) + "," + canonClaims(l.claims) + ") "; for (auto& l : got) g += l.name + "(" + l.type + "," + l.state + "," + canonClaims(l.claims) + ") ";
    if (w != g) vio(props, "listing", when + " the listing is " + g + "instead of " + w);
    if (lookup && got.size() == list.size()) for (size_t i = 0; i < got.size(); ++i) if (got[i].inst != list[i].inst) vio(props, "lookup", "lookup of " + got[i].name + " " + when + " gives another instance");
  }
  void dump(const Req* q, const std::vector<Ev>& ev) {
    printf("== %s\n", q ? reqStr(*q).c_str() : "(end)");
    static const char* kn[] = {"REQ_BEGIN", "REQ_END", "CYC_BEGIN", "CYC_END", "CB", "PREPARE", "DOSWITCH", "CONSTRUCT", "DESTROY", "INIT_BEGIN", "INIT_END", "LCREATE", "LRELOAD", "PROBE"};
    for (auto& e : ev) { printf("  %s%s cyc=%d inst=%d", kn[e.k], e.rt ? "[rt]" : "", e.cycle, e.inst); if (e.k == CB) printf(" %s", cbName(e.cb)); if (e.k == CYC_BEGIN) printf(" t=%lld reset=%d", (long long)e.t, e.flag); if (!e.s.empty()) printf(" s=%s", e.s.c_str()); for (auto& x : e.a) printf(" +%s", x.c_str()); for (auto& x : e.b) printf(" -%s", x.c_str()); for (auto& l : e.listed) printf(" {%s %s}", l.name.c_str(), l.state.c_str()); if (e.k == PREPARE) printf(" accept=%d", e.flag); printf("\n"); }
  }
};
}
