// Stand-in for roscpp's time types (ROS is not installed in the sandbox).
#pragma once
#include <cstdint>
#include <cmath>
namespace ros {
class Duration {
 public:
  int32_t sec, nsec;
  Duration() : sec(0), nsec(0) {}
  Duration(int32_t s, int32_t n) : sec(s), nsec(n) {}
  explicit Duration(double d) { fromSec(d); }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  int64_t toNSec() const { return static_cast<int64_t>(sec) * 1000000000ll + nsec; }
  Duration& fromSec(double d) {
    sec = static_cast<int32_t>(std::floor(d));
    nsec = static_cast<int32_t>(std::floor((d - sec) * 1e9 + 0.5));
    return *this;
  }
  Duration& fromNSec(int64_t t) {
    int64_t s = t / 1000000000ll, n = t % 1000000000ll;
    if (n < 0) { n += 1000000000ll; --s; }
    sec = static_cast<int32_t>(s);
    nsec = static_cast<int32_t>(n);
    return *this;
  }
  bool isZero() const { return sec == 0 && nsec == 0; }
  Duration operator+(const Duration& o) const { return Duration().fromNSec(toNSec() + o.toNSec()); }
  Duration operator-(const Duration& o) const { return Duration().fromNSec(toNSec() - o.toNSec()); }
  bool operator==(const Duration& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Duration& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const Duration& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Duration& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Duration& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Duration& o) const { return toNSec() >= o.toNSec(); }
};
class Time {
 public:
  uint32_t sec = 0, nsec = 0;
  double toSec() const { return sec + 1e-9 * nsec; }
};
}  // namespace ros
