// Stand-in: empty.
#ifndef VERIF_STUB_PCL_ROS_TRANSFORMS_H
#define VERIF_STUB_PCL_ROS_TRANSFORMS_H
#endif
