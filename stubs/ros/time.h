// Minimal stand-in for rostime. Arithmetic follows roscpp (sec/nsec representation, rounding in fromSec).
#pragma once
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cstring>
#include <iterator>
#include <string>
#include <vector>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <ostream>
#include <stdexcept>
#include <thread>
#include <limits>
namespace ros {
class Duration {
public:
  int32_t sec = 0, nsec = 0;
  Duration() = default;
  Duration(int32_t s, int32_t n) : sec(s), nsec(n) { normalize(s, n); }
  explicit Duration(double t) { fromSec(t); }
  Duration& fromSec(double t) {
    double s = std::floor(t);
    int64_t si = static_cast<int64_t>(s);
    int64_t ni = static_cast<int64_t>(std::round((t - s) * 1e9));
    normalize(si, ni);
    return *this;
  }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  int64_t toNSec() const { return static_cast<int64_t>(sec) * 1000000000LL + nsec; }
  Duration& fromNSec(int64_t t) { normalize(t / 1000000000LL, t % 1000000000LL); return *this; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool sleep() const { std::this_thread::sleep_for(std::chrono::nanoseconds(toNSec() > 0 ? toNSec() : 0)); return true; }
  Duration operator+(const Duration& o) const { return Duration().fromNSec(toNSec() + o.toNSec()); }
  Duration operator-(const Duration& o) const { return Duration().fromNSec(toNSec() - o.toNSec()); }
  Duration operator-() const { return Duration().fromNSec(-toNSec()); }
  Duration operator*(double k) const { return Duration(toSec() * k); }
  Duration& operator+=(const Duration& o) { return *this = *this + o; }
  Duration& operator-=(const Duration& o) { return *this = *this - o; }
  bool operator==(const Duration& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Duration& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const Duration& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Duration& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Duration& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Duration& o) const { return toNSec() >= o.toNSec(); }
private:
  void normalize(int64_t s, int64_t n) {
    while (n >= 1000000000LL) { n -= 1000000000LL; ++s; }
    while (n < 0) { n += 1000000000LL; --s; }
    if (s > std::numeric_limits<int32_t>::max() || s < std::numeric_limits<int32_t>::min())
      throw std::runtime_error("Duration is out of dual 32-bit range");
    sec = static_cast<int32_t>(s); nsec = static_cast<int32_t>(n);
  }
};
namespace stub {
inline std::atomic<int64_t>& nowNs() { static std::atomic<int64_t> n{1000000000000LL}; return n; }
}
class Time {
public:
  uint32_t sec = 0, nsec = 0;
  Time() = default;
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) { fromSec(t); }
  Time& fromSec(double t) {
    int64_t s = static_cast<int64_t>(std::floor(t));
    int64_t n = static_cast<int64_t>(std::round((t - std::floor(t)) * 1e9));
    return fromNs(s * 1000000000LL + n);
  }
  Time& fromNSec(uint64_t t) { return fromNs(static_cast<int64_t>(t)); }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  uint64_t toNSec() const { return static_cast<uint64_t>(sec) * 1000000000ULL + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  static Time now() { return Time().fromNs(stub::nowNs().load()); }
  static void init() {}
  static bool isValid() { return true; }
  static bool waitForValid() { return true; }
  static bool isSimTime() { return false; }
  static void shutdown() {}
  static void setNow(const Time& t) { stub::nowNs() = static_cast<int64_t>(t.toNSec()); }
  Duration operator-(const Time& o) const { return Duration().fromNSec(static_cast<int64_t>(toNSec()) - static_cast<int64_t>(o.toNSec())); }
  Time operator+(const Duration& d) const { return Time().fromNs(static_cast<int64_t>(toNSec()) + d.toNSec()); }
  Time operator-(const Duration& d) const { return Time().fromNs(static_cast<int64_t>(toNSec()) - d.toNSec()); }
  Time& operator+=(const Duration& d) { return *this = *this + d; }
  Time& operator-=(const Duration& d) { return *this = *this - d; }
  bool operator==(const Time& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Time& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const Time& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Time& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Time& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Time& o) const { return toNSec() >= o.toNSec(); }
private:
  Time& fromNs(int64_t t) {
    if (t < 0) throw std::runtime_error("Time is out of dual 32-bit range");
    sec = static_cast<uint32_t>(t / 1000000000LL); nsec = static_cast<uint32_t>(t % 1000000000LL); return *this;
  }
};
inline std::ostream& operator<<(std::ostream& os, const Time& t) { return os << t.toSec(); }
inline std::ostream& operator<<(std::ostream& os, const Duration& t) { return os << t.toSec(); }
static const Time TIME_MAX(std::numeric_limits<uint32_t>::max(), 999999999);
static const Time TIME_MIN(0, 1);
static const Duration DURATION_MAX(std::numeric_limits<int32_t>::max(), 999999999);
static const Duration DURATION_MIN(std::numeric_limits<int32_t>::min(), 0);
typedef Duration WallDuration;
typedef Duration SteadyDuration;
class WallTime {
public:
  int64_t ns = 0;
  WallTime() = default;
  static WallTime now() { WallTime t; t.ns = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count(); return t; }
  double toSec() const { return ns * 1e-9; }
  Duration operator-(const WallTime& o) const { return Duration().fromNSec(ns - o.ns); }
};
typedef WallTime SteadyTime;
class Rate {
public:
  explicit Rate(double hz) : d_(1.0 / hz) {}
  explicit Rate(const Duration& d) : d_(d) {}
  bool sleep() { return d_.sleep(); }
  void reset() {}
  Duration expectedCycleTime() const { return d_; }
private:
  Duration d_;
};
typedef Rate WallRate;
}
