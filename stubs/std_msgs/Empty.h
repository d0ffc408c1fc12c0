// Stand-in for a middleware header: the fields only.
#ifndef VERIF_STUB_STD_MSGS_EMPTY_H
#define VERIF_STUB_STD_MSGS_EMPTY_H
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ros/time.h>
namespace std_msgs
{
struct Empty
{

  typedef std::shared_ptr<Empty> Ptr;
  typedef std::shared_ptr<const Empty> ConstPtr;
};
typedef Empty::Ptr EmptyPtr;
typedef Empty::ConstPtr EmptyConstPtr;
}  // namespace std_msgs
#endif
