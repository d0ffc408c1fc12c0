#ifndef VERIF_STUB_ROS_H
#define VERIF_STUB_ROS_H
#include <cmath>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <ros/time.h>
#include <ros/console.h>
#include <ros/node.h>
#include <xmlrpcpp/XmlRpcValue.h>
#endif
