// Minimal stand-in for rosconsole: formats (so arguments are evaluated) only when stub logging is on.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <ros/time.h>
namespace ros { namespace stub {
inline std::atomic<bool>& logOn() { static std::atomic<bool> b{true}; return b; }
inline std::atomic<bool>& logPrint() { static std::atomic<bool> b{std::getenv("STUB_LOG") != nullptr}; return b; }
inline std::atomic<long>& logCount() { static std::atomic<long> b{0}; return b; }
// Called (if set) at every log statement executed: lets a harness use them as interleaving points.
inline std::atomic<void (*)()>& logHook() { static std::atomic<void (*)()> h{nullptr}; return h; }
// Called (if set) with the level of every log statement reached; false: the level is off.
inline std::atomic<bool (*)(const char*)>& logFilter() { static std::atomic<bool (*)(const char*)> h{nullptr}; return h; }
inline bool logLevel(const char* lvl) { if (!logOn()) return false; auto f = logFilter().load(); return !f || f(lvl); }
inline void logf(const char* lvl, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
inline void logf(const char* lvl, const char* fmt, ...) {
  char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  ++logCount(); if (logPrint()) fprintf(stderr, "[%s] %s\n", lvl, buf);
  if (auto h = logHook().load()) h();
}
inline void logs(const char* lvl, const std::string& s) { ++logCount(); if (logPrint()) fprintf(stderr, "[%s] %s\n", lvl, s.c_str()); if (auto h = logHook().load()) h(); }
}}
#define STUB_LOGF(lvl, ...) do { if (::ros::stub::logLevel(lvl)) ::ros::stub::logf(lvl, __VA_ARGS__); } while (0)
#define STUB_LOGS(lvl, args) do { if (::ros::stub::logLevel(lvl)) { std::stringstream stub_ss_; stub_ss_ << args; ::ros::stub::logs(lvl, stub_ss_.str()); } } while (0)
#define ROS_DEBUG(...) do { STUB_LOGF("DEBUG", __VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM(args) do { STUB_LOGS("DEBUG", args); } while (0)
#define ROS_DEBUG_NAMED(name,...) do { STUB_LOGF("DEBUG", __VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM_NAMED(name,args) do { STUB_LOGS("DEBUG", args); } while (0)
#define ROS_DEBUG_THROTTLE(rate,...) do { STUB_LOGF("DEBUG", __VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM_THROTTLE(rate,args) do { STUB_LOGS("DEBUG", args); } while (0)
#define ROS_DEBUG_THROTTLE_NAMED(rate,name,...) do { STUB_LOGF("DEBUG", __VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM_THROTTLE_NAMED(rate,name,args) do { STUB_LOGS("DEBUG", args); } while (0)
#define ROS_DEBUG_COND(cond,...) do { if (cond) STUB_LOGF("DEBUG", __VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM_COND(cond,args) do { if (cond) STUB_LOGS("DEBUG", args); } while (0)
#define ROS_DEBUG_COND_NAMED(cond,name,...) do { if (cond) STUB_LOGF("DEBUG", __VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM_COND_NAMED(cond,name,args) do { if (cond) STUB_LOGS("DEBUG", args); } while (0)
#define ROS_DEBUG_ONCE(...) do { STUB_LOGF("DEBUG", __VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM_ONCE(args) do { STUB_LOGS("DEBUG", args); } while (0)
#define ROS_DEBUG_ONCE_NAMED(name,...) do { STUB_LOGF("DEBUG", __VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM_ONCE_NAMED(name,args) do { STUB_LOGS("DEBUG", args); } while (0)
#define ROS_DEBUG_DELAYED_THROTTLE(rate,...) do { STUB_LOGF("DEBUG", __VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM_DELAYED_THROTTLE(rate,args) do { STUB_LOGS("DEBUG", args); } while (0)
#define ROS_DEBUG_DELAYED_THROTTLE_NAMED(rate,name,...) do { STUB_LOGF("DEBUG", __VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM_DELAYED_THROTTLE_NAMED(rate,name,args) do { STUB_LOGS("DEBUG", args); } while (0)
#define ROS_INFO(...) do { STUB_LOGF("INFO", __VA_ARGS__); } while (0)
#define ROS_INFO_STREAM(args) do { STUB_LOGS("INFO", args); } while (0)
#define ROS_INFO_NAMED(name,...) do { STUB_LOGF("INFO", __VA_ARGS__); } while (0)
#define ROS_INFO_STREAM_NAMED(name,args) do { STUB_LOGS("INFO", args); } while (0)
#define ROS_INFO_THROTTLE(rate,...) do { STUB_LOGF("INFO", __VA_ARGS__); } while (0)
#define ROS_INFO_STREAM_THROTTLE(rate,args) do { STUB_LOGS("INFO", args); } while (0)
#define ROS_INFO_THROTTLE_NAMED(rate,name,...) do { STUB_LOGF("INFO", __VA_ARGS__); } while (0)
#define ROS_INFO_STREAM_THROTTLE_NAMED(rate,name,args) do { STUB_LOGS("INFO", args); } while (0)
#define ROS_INFO_COND(cond,...) do { if (cond) STUB_LOGF("INFO", __VA_ARGS__); } while (0)
#define ROS_INFO_STREAM_COND(cond,args) do { if (cond) STUB_LOGS("INFO", args); } while (0)
#define ROS_INFO_COND_NAMED(cond,name,...) do { if (cond) STUB_LOGF("INFO", __VA_ARGS__); } while (0)
#define ROS_INFO_STREAM_COND_NAMED(cond,name,args) do { if (cond) STUB_LOGS("INFO", args); } while (0)
#define ROS_INFO_ONCE(...) do { STUB_LOGF("INFO", __VA_ARGS__); } while (0)
#define ROS_INFO_STREAM_ONCE(args) do { STUB_LOGS("INFO", args); } while (0)
#define ROS_INFO_ONCE_NAMED(name,...) do { STUB_LOGF("INFO", __VA_ARGS__); } while (0)
#define ROS_INFO_STREAM_ONCE_NAMED(name,args) do { STUB_LOGS("INFO", args); } while (0)
#define ROS_INFO_DELAYED_THROTTLE(rate,...) do { STUB_LOGF("INFO", __VA_ARGS__); } while (0)
#define ROS_INFO_STREAM_DELAYED_THROTTLE(rate,args) do { STUB_LOGS("INFO", args); } while (0)
#define ROS_INFO_DELAYED_THROTTLE_NAMED(rate,name,...) do { STUB_LOGF("INFO", __VA_ARGS__); } while (0)
#define ROS_INFO_STREAM_DELAYED_THROTTLE_NAMED(rate,name,args) do { STUB_LOGS("INFO", args); } while (0)
#define ROS_WARN(...) do { STUB_LOGF("WARN", __VA_ARGS__); } while (0)
#define ROS_WARN_STREAM(args) do { STUB_LOGS("WARN", args); } while (0)
#define ROS_WARN_NAMED(name,...) do { STUB_LOGF("WARN", __VA_ARGS__); } while (0)
#define ROS_WARN_STREAM_NAMED(name,args) do { STUB_LOGS("WARN", args); } while (0)
#define ROS_WARN_THROTTLE(rate,...) do { STUB_LOGF("WARN", __VA_ARGS__); } while (0)
#define ROS_WARN_STREAM_THROTTLE(rate,args) do { STUB_LOGS("WARN", args); } while (0)
#define ROS_WARN_THROTTLE_NAMED(rate,name,...) do { STUB_LOGF("WARN", __VA_ARGS__); } while (0)
#define ROS_WARN_STREAM_THROTTLE_NAMED(rate,name,args) do { STUB_LOGS("WARN", args); } while (0)
#define ROS_WARN_COND(cond,...) do { if (cond) STUB_LOGF("WARN", __VA_ARGS__); } while (0)
#define ROS_WARN_STREAM_COND(cond,args) do { if (cond) STUB_LOGS("WARN", args); } while (0)
#define ROS_WARN_COND_NAMED(cond,name,...) do { if (cond) STUB_LOGF("WARN", __VA_ARGS__); } while (0)
#define ROS_WARN_STREAM_COND_NAMED(cond,name,args) do { if (cond) STUB_LOGS("WARN", args); } while (0)
#define ROS_WARN_ONCE(...) do { STUB_LOGF("WARN", __VA_ARGS__); } while (0)
#define ROS_WARN_STREAM_ONCE(args) do { STUB_LOGS("WARN", args); } while (0)
#define ROS_WARN_ONCE_NAMED(name,...) do { STUB_LOGF("WARN", __VA_ARGS__); } while (0)
#define ROS_WARN_STREAM_ONCE_NAMED(name,args) do { STUB_LOGS("WARN", args); } while (0)
#define ROS_WARN_DELAYED_THROTTLE(rate,...) do { STUB_LOGF("WARN", __VA_ARGS__); } while (0)
#define ROS_WARN_STREAM_DELAYED_THROTTLE(rate,args) do { STUB_LOGS("WARN", args); } while (0)
#define ROS_WARN_DELAYED_THROTTLE_NAMED(rate,name,...) do { STUB_LOGF("WARN", __VA_ARGS__); } while (0)
#define ROS_WARN_STREAM_DELAYED_THROTTLE_NAMED(rate,name,args) do { STUB_LOGS("WARN", args); } while (0)
#define ROS_ERROR(...) do { STUB_LOGF("ERROR", __VA_ARGS__); } while (0)
#define ROS_ERROR_STREAM(args) do { STUB_LOGS("ERROR", args); } while (0)
#define ROS_ERROR_NAMED(name,...) do { STUB_LOGF("ERROR", __VA_ARGS__); } while (0)
#define ROS_ERROR_STREAM_NAMED(name,args) do { STUB_LOGS("ERROR", args); } while (0)
#define ROS_ERROR_THROTTLE(rate,...) do { STUB_LOGF("ERROR", __VA_ARGS__); } while (0)
#define ROS_ERROR_STREAM_THROTTLE(rate,args) do { STUB_LOGS("ERROR", args); } while (0)
#define ROS_ERROR_THROTTLE_NAMED(rate,name,...) do { STUB_LOGF("ERROR", __VA_ARGS__); } while (0)
#define ROS_ERROR_STREAM_THROTTLE_NAMED(rate,name,args) do { STUB_LOGS("ERROR", args); } while (0)
#define ROS_ERROR_COND(cond,...) do { if (cond) STUB_LOGF("ERROR", __VA_ARGS__); } while (0)
#define ROS_ERROR_STREAM_COND(cond,args) do { if (cond) STUB_LOGS("ERROR", args); } while (0)
#define ROS_ERROR_COND_NAMED(cond,name,...) do { if (cond) STUB_LOGF("ERROR", __VA_ARGS__); } while (0)
#define ROS_ERROR_STREAM_COND_NAMED(cond,name,args) do { if (cond) STUB_LOGS("ERROR", args); } while (0)
#define ROS_ERROR_ONCE(...) do { STUB_LOGF("ERROR", __VA_ARGS__); } while (0)
#define ROS_ERROR_STREAM_ONCE(args) do { STUB_LOGS("ERROR", args); } while (0)
#define ROS_ERROR_ONCE_NAMED(name,...) do { STUB_LOGF("ERROR", __VA_ARGS__); } while (0)
#define ROS_ERROR_STREAM_ONCE_NAMED(name,args) do { STUB_LOGS("ERROR", args); } while (0)
#define ROS_ERROR_DELAYED_THROTTLE(rate,...) do { STUB_LOGF("ERROR", __VA_ARGS__); } while (0)
#define ROS_ERROR_STREAM_DELAYED_THROTTLE(rate,args) do { STUB_LOGS("ERROR", args); } while (0)
#define ROS_ERROR_DELAYED_THROTTLE_NAMED(rate,name,...) do { STUB_LOGF("ERROR", __VA_ARGS__); } while (0)
#define ROS_ERROR_STREAM_DELAYED_THROTTLE_NAMED(rate,name,args) do { STUB_LOGS("ERROR", args); } while (0)
#define ROS_FATAL(...) do { STUB_LOGF("FATAL", __VA_ARGS__); } while (0)
#define ROS_FATAL_STREAM(args) do { STUB_LOGS("FATAL", args); } while (0)
#define ROS_FATAL_NAMED(name,...) do { STUB_LOGF("FATAL", __VA_ARGS__); } while (0)
#define ROS_FATAL_STREAM_NAMED(name,args) do { STUB_LOGS("FATAL", args); } while (0)
#define ROS_FATAL_THROTTLE(rate,...) do { STUB_LOGF("FATAL", __VA_ARGS__); } while (0)
#define ROS_FATAL_STREAM_THROTTLE(rate,args) do { STUB_LOGS("FATAL", args); } while (0)
#define ROS_FATAL_THROTTLE_NAMED(rate,name,...) do { STUB_LOGF("FATAL", __VA_ARGS__); } while (0)
#define ROS_FATAL_STREAM_THROTTLE_NAMED(rate,name,args) do { STUB_LOGS("FATAL", args); } while (0)
#define ROS_FATAL_COND(cond,...) do { if (cond) STUB_LOGF("FATAL", __VA_ARGS__); } while (0)
#define ROS_FATAL_STREAM_COND(cond,args) do { if (cond) STUB_LOGS("FATAL", args); } while (0)
#define ROS_FATAL_COND_NAMED(cond,name,...) do { if (cond) STUB_LOGF("FATAL", __VA_ARGS__); } while (0)
#define ROS_FATAL_STREAM_COND_NAMED(cond,name,args) do { if (cond) STUB_LOGS("FATAL", args); } while (0)
#define ROS_FATAL_ONCE(...) do { STUB_LOGF("FATAL", __VA_ARGS__); } while (0)
#define ROS_FATAL_STREAM_ONCE(args) do { STUB_LOGS("FATAL", args); } while (0)
#define ROS_FATAL_ONCE_NAMED(name,...) do { STUB_LOGF("FATAL", __VA_ARGS__); } while (0)
#define ROS_FATAL_STREAM_ONCE_NAMED(name,args) do { STUB_LOGS("FATAL", args); } while (0)
#define ROS_FATAL_DELAYED_THROTTLE(rate,...) do { STUB_LOGF("FATAL", __VA_ARGS__); } while (0)
#define ROS_FATAL_STREAM_DELAYED_THROTTLE(rate,args) do { STUB_LOGS("FATAL", args); } while (0)
#define ROS_FATAL_DELAYED_THROTTLE_NAMED(rate,name,...) do { STUB_LOGF("FATAL", __VA_ARGS__); } while (0)
#define ROS_FATAL_STREAM_DELAYED_THROTTLE_NAMED(rate,name,args) do { STUB_LOGS("FATAL", args); } while (0)
#define ROS_ASSERT(c) do { if (!(c)) { fprintf(stderr, "ROS_ASSERT failed: %s\n", #c); abort(); } } while (0)
#define ROS_ASSERT_MSG(c, ...) ROS_ASSERT(c)
#define ROS_BREAK() abort()
