// Stand-in for the middleware's node interface: publishing records the message and how many were published; everything else is inert.
#ifndef VERIF_STUB_ROS_NODE_H
#define VERIF_STUB_ROS_NODE_H
#include <cstdint>
#include <string>
namespace ros
{
template <class M>
struct Sink
{
  static long n;
  static M last;
};
template <class M> long Sink<M>::n = 0;
template <class M> M Sink<M>::last;
struct Publisher
{
  template <class M> void publish(const M& m) const
  {
    Sink<M>::n++;
    Sink<M>::last = m;
  }
};
struct Subscriber {};
struct ServiceServer {};
struct TransportHints {};
struct TimerEvent {};
struct Timer
{
  int64_t period_ = 0;
  long resets_ = 0;
  void setPeriod(const Duration& d, bool reset = true)
  {
    period_ = d.ns_;
    resets_ += reset;
  }
  void stop() {}
  void start() {}
};
struct NodeHandle
{
  NodeHandle() {}
  explicit NodeHandle(const char*) {}
  template <class T> bool param(const char*, T& v, const T& d) const
  {
    v = d;
    return false;
  }
  static inline bool params_ = false;  // the harness says whether parameters are set
  bool hasParam(const char*) const { return params_; }
  template <class T> bool getParam(const char*, T&) const { return false; }
  template <class... A> Subscriber subscribe(A...) { return Subscriber(); }
  template <class M> Publisher advertise(const char*, uint32_t, bool = false) { return Publisher(); }
  static inline long timers_ = 0;
  static inline int64_t first_ = 0;  // period of the first timer
  template <class... A> Timer createTimer(const Duration& d, A...)
  {
    Timer t;
    t.period_ = d.ns_;
    if (timers_++ == 0)
      first_ = d.ns_;
    return t;
  }
};
template <class... A> inline void init(A&&...) {}
inline void spin() {}
inline void shutdown() {}
inline bool ok() { return true; }
}  // namespace ros
// the topic names' compatibility layer only chooses a name
#define NEONAVIGATION_COMMON_COMPATIBILITY_H
namespace neonavigation_common
{
namespace compat
{
inline void checkCompatMode() {}
template <class... A> ros::Subscriber subscribe(A&&...) { return ros::Subscriber(); }
template <class M, class... A> ros::Publisher advertise(A&&...) { return ros::Publisher(); }
}  // namespace compat
}  // namespace neonavigation_common
#endif
