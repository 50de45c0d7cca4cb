#pragma once
#include <ros/exception.h>
#include <ros/duration.h>
#include <time.h>
namespace ros {
namespace shim {
// Virtual ROS clock, owned by the harness.
inline int64_t& rosNow() { static int64_t t = 1000000000LL; return t; }
typedef void (*Hook)(const char* what);
inline Hook& yieldHook() { static Hook h = nullptr; return h; }
inline void yieldPoint(const char* what) { if (yieldHook()) yieldHook()(what); }
}
template <class T, class D> class TimeBase {
public:
  uint32_t sec, nsec;
  TimeBase() : sec(0), nsec(0) {}
  TimeBase(uint32_t s, uint32_t n) { setNS((int64_t)s * 1000000000LL + n); }
  explicit TimeBase(double t) { fromSec(t); }
  void setNS(int64_t ns)
  { if (ns < 0) throw std::runtime_error("Time is out of dual 32-bit range");
    int64_t s = ns / 1000000000LL; if (s > (int64_t)UINT32_MAX) throw std::runtime_error("Time is out of dual 32-bit range");
    sec = (uint32_t)s; nsec = (uint32_t)(ns % 1000000000LL); }
  D operator-(const T& r) const { D d; d.set((int64_t)sec - r.sec, (int64_t)nsec - r.nsec); return d; }
  T operator+(const D& r) const { T t; t.setNS((int64_t)toNSec() + r.toNSec()); return t; }
  T operator-(const D& r) const { T t; t.setNS((int64_t)toNSec() - r.toNSec()); return t; }
  T& operator+=(const D& r) { setNS((int64_t)toNSec() + r.toNSec()); return *static_cast<T*>(this); }
  T& operator-=(const D& r) { setNS((int64_t)toNSec() - r.toNSec()); return *static_cast<T*>(this); }
  bool operator==(const T& r) const { return sec == r.sec && nsec == r.nsec; }
  bool operator!=(const T& r) const { return !(*this == r); }
  bool operator<(const T& r) const { return sec < r.sec || (sec == r.sec && nsec < r.nsec); }
  bool operator>(const T& r) const { return r < *static_cast<const T*>(this); }
  bool operator<=(const T& r) const { return !(*this > r); }
  bool operator>=(const T& r) const { return !(*this < r); }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  uint64_t toNSec() const { return (uint64_t)sec * 1000000000ULL + nsec; }
  T& fromSec(double t) { setNS((int64_t)std::llround(t * 1e9)); return *static_cast<T*>(this); }
  T& fromNSec(uint64_t t) { setNS((int64_t)t); return *static_cast<T*>(this); }
  bool isZero() const { return sec == 0 && nsec == 0; }
};
class Time : public TimeBase<Time, Duration> {
public:
  Time() {}
  Time(uint32_t s, uint32_t n) : TimeBase<Time, Duration>(s, n) {}
  explicit Time(double t) { fromSec(t); }
  static Time now() { shim::yieldPoint("Time::now"); Time t; t.setNS(shim::rosNow()); return t; }
  static bool sleepUntil(const Time&);
  static void init() {}
  static void shutdown() {}
  static bool useSystemTime() { return true; }
  static bool isSimTime() { return false; }
  static bool isSystemTime() { return true; }
  static bool isValid() { return true; }
  static bool waitForValid() { return true; }
};
class WallTime : public TimeBase<WallTime, WallDuration> {
public:
  WallTime() {}
  WallTime(uint32_t s, uint32_t n) : TimeBase<WallTime, WallDuration>(s, n) {}
  explicit WallTime(double t) { fromSec(t); }
  static WallTime now() { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); return WallTime((uint32_t)ts.tv_sec, (uint32_t)ts.tv_nsec); }
  static bool sleepUntil(const WallTime&);
  static bool isSystemTime() { return true; }
};
class SteadyTime : public TimeBase<SteadyTime, WallDuration> {
public:
  SteadyTime() {}
  SteadyTime(uint32_t s, uint32_t n) : TimeBase<SteadyTime, WallDuration>(s, n) {}
  explicit SteadyTime(double t) { fromSec(t); }
  static SteadyTime now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return SteadyTime((uint32_t)ts.tv_sec, (uint32_t)ts.tv_nsec); }
};
namespace shim { inline void nsleep(int64_t ns) { struct timespec ts; if (ns < 0) ns = 0; ts.tv_sec = ns / 1000000000LL; ts.tv_nsec = ns % 1000000000LL; ::nanosleep(&ts, nullptr); } }
inline bool Duration::sleep() const { shim::nsleep(toNSec()); return true; }
inline bool WallDuration::sleep() const { shim::nsleep(toNSec()); return true; }
inline bool Time::sleepUntil(const Time& t) { shim::nsleep((t - Time::now()).toNSec()); return true; }
inline bool WallTime::sleepUntil(const WallTime& t) { shim::nsleep((t - WallTime::now()).toNSec()); return true; }
inline std::ostream& operator<<(std::ostream& os, const Time& t) { return os << t.toSec(); }
inline std::ostream& operator<<(std::ostream& os, const WallTime& t) { return os << t.toSec(); }
static const Duration DURATION_MAX(std::numeric_limits<int32_t>::max(), 999999999);
static const Duration DURATION_MIN(std::numeric_limits<int32_t>::min(), 0);
static const Time TIME_MAX(std::numeric_limits<uint32_t>::max(), 999999999);
static const Time TIME_MIN(0, 1);
class Rate {
public:
  Rate(double f) : p_(1.0 / f) {}
  explicit Rate(const Duration& d) : p_(d) {}
  bool sleep() { p_.sleep(); return true; }
  void reset() {}
  Duration cycleTime() const { return p_; }
  Duration expectedCycleTime() const { return p_; }
private: Duration p_;
};
class WallRate {
public:
  WallRate(double f) : p_(1.0 / f) {}
  bool sleep() { p_.sleep(); return true; }
private: WallDuration p_;
};
inline Duration::Duration(const Rate& r) { *this = r.expectedCycleTime(); }
}
