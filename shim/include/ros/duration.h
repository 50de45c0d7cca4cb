#pragma once
// Stand-in for ros::Duration / ros::Time with the rostime representation (sec, nsec).
#include <cmath>
#include <cstdint>
#include <iostream>
#include <limits>
#include <math.h>
#include <stdexcept>
namespace ros {
namespace shim {
inline void normSigned(int64_t& sec, int64_t& nsec)
{ int64_t s = sec + nsec / 1000000000LL; int64_t n = nsec % 1000000000LL; if (n < 0) { n += 1000000000LL; --s; }
  if (s < std::numeric_limits<int32_t>::min() || s > std::numeric_limits<int32_t>::max()) throw std::runtime_error("Duration is out of dual 32-bit range");
  sec = s; nsec = n; }
}
template <class T> class DurationBase {
public:
  int32_t sec, nsec;
  DurationBase() : sec(0), nsec(0) {}
  DurationBase(int32_t s, int32_t n) { set(s, n); }
  explicit DurationBase(double t) { fromSec(t); }
  T operator+(const T& r) const { T t; t.set((int64_t)sec + r.sec, (int64_t)nsec + r.nsec); return t; }
  T operator-(const T& r) const { T t; t.set((int64_t)sec - r.sec, (int64_t)nsec - r.nsec); return t; }
  T operator-() const { T t; t.set(-(int64_t)sec, -(int64_t)nsec); return t; }
  T operator*(double s) const { T t; t.fromSec(toSec() * s); return t; }
  T& operator+=(const T& r) { set((int64_t)sec + r.sec, (int64_t)nsec + r.nsec); return *static_cast<T*>(this); }
  T& operator-=(const T& r) { set((int64_t)sec - r.sec, (int64_t)nsec - r.nsec); return *static_cast<T*>(this); }
  T& operator*=(double s) { fromSec(toSec() * s); return *static_cast<T*>(this); }
  bool operator==(const T& r) const { return sec == r.sec && nsec == r.nsec; }
  bool operator!=(const T& r) const { return !(*this == r); }
  bool operator<(const T& r) const { return sec < r.sec || (sec == r.sec && nsec < r.nsec); }
  bool operator>(const T& r) const { return r < *static_cast<const T*>(this); }
  bool operator<=(const T& r) const { return !(*this > r); }
  bool operator>=(const T& r) const { return !(*this < r); }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  int64_t toNSec() const { return (int64_t)sec * 1000000000LL + nsec; }
  T& fromSec(double d)
  { if (!std::isfinite(d)) throw std::runtime_error("Duration has to be finite.");
    int64_t s = (int64_t)std::floor(d); int64_t n = (int64_t)std::llround((d - (double)s) * 1e9); set(s, n); return *static_cast<T*>(this); }
  T& fromNSec(int64_t t) { set(0, t); return *static_cast<T*>(this); }
  bool isZero() const { return sec == 0 && nsec == 0; }
  void set(int64_t s, int64_t n) { shim::normSigned(s, n); sec = (int32_t)s; nsec = (int32_t)n; }
};
class Rate;
class Duration : public DurationBase<Duration> {
public:
  Duration() {}
  Duration(int32_t s, int32_t n) : DurationBase<Duration>(s, n) {}
  explicit Duration(double t) { fromSec(t); }
  explicit Duration(const Rate&);
  bool sleep() const;
};
class WallDuration : public DurationBase<WallDuration> {
public:
  WallDuration() {}
  WallDuration(int32_t s, int32_t n) : DurationBase<WallDuration>(s, n) {}
  explicit WallDuration(double t) { fromSec(t); }
  bool sleep() const;
};
inline std::ostream& operator<<(std::ostream& os, const Duration& d) { return os << d.toSec(); }
inline std::ostream& operator<<(std::ostream& os, const WallDuration& d) { return os << d.toSec(); }
}
#include <ros/time.h>
