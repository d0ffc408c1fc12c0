// Stand-in: nothing reconfigures by itself; the harness calls the callback.
#ifndef VERIF_STUB_DYNAMIC_RECONFIGURE_SERVER_H
#define VERIF_STUB_DYNAMIC_RECONFIGURE_SERVER_H
#include <cstdint>
#include <boost/bind.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <ros/node.h>
namespace dynamic_reconfigure
{
template <class C>
struct Server
{
  Server(boost::recursive_mutex&, const ros::NodeHandle&) {}
  template <class F> void setCallback(const F&) {}
};
}  // namespace dynamic_reconfigure
#endif
