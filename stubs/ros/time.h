// Stand-in for the middleware's time types: exact nanoseconds.
#ifndef VERIF_STUB_ROS_TIME_H
#define VERIF_STUB_ROS_TIME_H
#include <cstdint>
namespace ros
{
class Duration
{
public:
  int64_t ns_;
  Duration() : ns_(0) {}
  explicit Duration(double s) : ns_(static_cast<int64_t>(s * 1e9)) {}
  static Duration ofNs(int64_t n)
  {
    Duration d;
    d.ns_ = n;
    return d;
  }
  double toSec() const { return static_cast<double>(ns_) / 1e9; }
  bool isZero() const { return ns_ == 0; }
  Duration operator+(const Duration& o) const { return ofNs(ns_ + o.ns_); }
  Duration operator-(const Duration& o) const { return ofNs(ns_ - o.ns_); }
  Duration operator-() const { return ofNs(-ns_); }
  bool operator<(const Duration& o) const { return ns_ < o.ns_; }
  bool operator>(const Duration& o) const { return ns_ > o.ns_; }
  bool operator<=(const Duration& o) const { return ns_ <= o.ns_; }
  bool operator>=(const Duration& o) const { return ns_ >= o.ns_; }
  bool operator==(const Duration& o) const { return ns_ == o.ns_; }
  bool operator!=(const Duration& o) const { return ns_ != o.ns_; }
};
class Time
{
public:
  int64_t ns_;
  Time() : ns_(0) {}
  explicit Time(double s) : ns_(static_cast<int64_t>(s * 1e9)) {}
  static Time ofNs(int64_t n)
  {
    Time d;
    d.ns_ = n;
    return d;
  }
  static Time now();       // given by the harness
  static bool isSimTime();
  double toSec() const { return static_cast<double>(ns_) / 1e9; }
  bool isZero() const { return ns_ == 0; }
  Time operator+(const Duration& o) const { return ofNs(ns_ + o.ns_); }
  Time operator-(const Duration& o) const { return ofNs(ns_ - o.ns_); }
  Duration operator-(const Time& o) const { return Duration::ofNs(ns_ - o.ns_); }
  Time& operator+=(const Duration& o) { ns_ += o.ns_; return *this; }
  Time& operator-=(const Duration& o) { ns_ -= o.ns_; return *this; }
  bool operator<(const Time& o) const { return ns_ < o.ns_; }
  bool operator>(const Time& o) const { return ns_ > o.ns_; }
  bool operator<=(const Time& o) const { return ns_ <= o.ns_; }
  bool operator>=(const Time& o) const { return ns_ >= o.ns_; }
  bool operator==(const Time& o) const { return ns_ == o.ns_; }
  bool operator!=(const Time& o) const { return ns_ != o.ns_; }
};
}  // namespace ros
#endif
