// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_STD_MSGS_BOOL_H
#define VERIF_STUB_STD_MSGS_BOOL_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
namespace std_msgs
{
struct Bool
{
  bool data = false;
  typedef std::shared_ptr<Bool> Ptr;
  typedef std::shared_ptr<const Bool> ConstPtr;
};
typedef Bool::Ptr BoolPtr;
typedef Bool::ConstPtr BoolConstPtr;
}  // namespace std_msgs
#endif
