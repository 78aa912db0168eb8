// Harness support: arguments, per-case random streams, counters, violations and the JSON report.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
namespace vh {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t u64() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  bool chance(int pct) { return (int)below(100) < pct; }
  double unit() { return (double)(u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double a, double b) { return a + (b - a) * unit(); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  // doubles of many magnitudes, including "round" ones
  double anyFinite() {
    switch (below(8)) {
      case 0: return 0.0; case 1: return (double)range(-5, 5); case 2: return uniform(-1, 1); case 3: return uniform(-100, 100);
      case 4: return -0.0; case 5: return uniform(-1, 1) * std::pow(10.0, range(-12, 12));
      case 6: return (chance(50) ? 1 : -1) * std::pow(2.0, range(-20, 20)); default: return uniform(-10, 10);
    }
  }
  double anyBits() { switch (below(6)) { case 0: return NAN; case 1: return INFINITY; case 2: return -INFINITY; case 3: { uint64_t b = u64(); double d; memcpy(&d, &b, 8); return d; } default: return anyFinite(); } }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9e3779b97f4a7c15ULL ^ (b + 0x1234567)); r.u64(); return r.u64(); }
inline uint64_t hashStr(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
inline bool sameBits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
inline std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
inline std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }

struct Harness {
  std::string prop, out; uint64_t seed = 1; bool thorough = false; long from = 0, only = -1; long scalePct = 100; long shard = 0, shards = 1;
  long evaluations = 0; long curCase = -1; bool trace = false;
  std::set<uint64_t> distinct; std::map<std::string, long> counts; std::vector<std::string> samples, notes;
  struct V { std::string key, detail; long c; };
  std::vector<V> violations; std::set<std::string> keys; std::string rule; std::map<std::string, long> need;
  long* shared = nullptr;
  void args(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i]; auto nx = [&] { if (i + 1 >= argc) { fprintf(stderr, "HARNESS-ERROR: missing value for %s\n", a.c_str()); exit(3); } return std::string(argv[++i]); };
      if (a == "--prop") prop = nx(); else if (a == "--seed") seed = std::stoull(nx()); else if (a == "--tier") thorough = nx() == "thorough";
      else if (a == "--out") out = nx(); else if (a == "--from") from = std::stol(nx()); else if (a == "--only") only = std::stol(nx()); else if (a == "--scale") scalePct = std::stol(nx());
      else if (a == "--shard") { std::string v = nx(); shard = std::stol(v); shards = std::stol(v.substr(v.find('/') + 1)); } else if (a == "--trace") trace = true; else { fprintf(stderr, "HARNESS-ERROR: bad argument %s\n", a.c_str()); exit(3); }
    }
    if (!out.empty()) {
      int fd = open((out + ".case").c_str(), O_RDWR | O_CREAT, 0644);
      if (fd >= 0) { if (ftruncate(fd, 64) == 0) { void* p = mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) shared = (long*)p; } close(fd); }
    }
    if (shared) shared[0] = -1;
  }
  long cases(long quick, long thor) const { long n = thorough ? thor : quick; n = n * scalePct / 100; return n < 1 ? 1 : n; }
  // Runs f(rng, index) for each case; each case has its own random stream, so it can be replayed alone.
  void loop(const std::string& phase, long n, const std::function<void(Rng&, long)>& f) {
    long base = phaseBase; phaseBase += n;
    for (long i = 0; i < n; ++i) {
      long id = base + i;
      if (id < from || (only >= 0 ? id != only : id % shards != shard)) continue;
      if (violations.size() >= 8) return;
      curCase = id; if (shared) shared[0] = id;
      Rng r(mix(mix(seed, hashStr(prop + "/" + phase)), (uint64_t)i));
      ++evaluations; story.clear(); f(r, i); if (!story.empty()) sample(phase + " " + std::to_string(id) + ": " + story);
    }
  }
  long phaseBase = 0;
  void fail(const std::string& key, const std::string& detail) {
    if (!keys.insert(key).second) return;
    violations.push_back({key, detail, curCase});
    fprintf(stderr, "violation %s (case %ld): %s\n", key.c_str(), curCase, detail.c_str());
  }
  void count(const std::string& k, long n = 1) { counts[k] += n; }
  void seen(uint64_t h) { distinct.insert(h); }                       // one per case: its distinct behaviour
  std::map<std::string, std::set<uint64_t>> sub; void seenSub(const std::string& k, uint64_t h) { auto& s = sub[k]; if (s.size() < 1000000) s.insert(h); }
  void writeHashes(const std::string& path, const std::set<uint64_t>& s) { FILE* f = fopen(path.c_str(), "wb"); if (!f) return; for (uint64_t h : s) fwrite(&h, 8, 1, f); fclose(f); }
  void sample(const std::string& s) { if (samples.size() < 4) samples.push_back(s.substr(0, 1500)); }
  std::string story;                                                  // of the current case, kept for the first few as samples
  bool telling() const { return samples.size() < 3 && story.size() < 1200; }
  void step(const std::string& s) { if (!s.empty() && telling()) { if (!story.empty()) story += ", "; story += s; } }
  // The workload must have produced at least n observations called k (decided by the runner over all shards).
  void require(const std::string& k, long n = 1) { need[k] = n; }
  int finish() {
    if (!out.empty()) {
      FILE* f = fopen(out.c_str(), "w"); if (!f) { fprintf(stderr, "HARNESS-ERROR: cannot write %s\n", out.c_str()); return 3; }
      std::ostringstream o; o << "{\"complete\":true,\"evaluations\":" << evaluations << ",\"distinct\":" << distinct.size() << ",\"rule\":" << jstr(rule) << ",\"counts\":{";
      bool c = false; for (auto& k : counts) { o << (c ? "," : "") << jstr(k.first) << ":" << k.second; c = true; }
      o << "},\"samples\":["; c = false; for (auto& s : samples) { o << (c ? "," : "") << jstr(s); c = true; }
      o << "],\"need\":{"; c = false; for (auto& k : need) { o << (c ? "," : "") << jstr(k.first) << ":" << k.second; c = true; }
      o << "},\"sub\":["; c = false; for (auto& k : sub) { o << (c ? "," : "") << jstr(k.first); c = true; writeHashes(out + ".sub." + k.first, k.second); } writeHashes(out + ".distinct", distinct);
      o << "],\"violations\":["; c = false; for (auto& v : violations) { o << (c ? "," : "") << "{\"key\":" << jstr(v.key) << ",\"detail\":" << jstr(v.detail.substr(0, 4000)) << ",\"case\":" << v.c << "}"; c = true; }
      o << "]}\n"; fputs(o.str().c_str(), f); fclose(f);
    }
    return violations.empty() ? 0 : 1;
  }
};
inline Harness& H() { static Harness h; return h; }
}
