From dd8e21c0538b5eaa90eeb4423f8ed784790c73df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:51 +0000
Subject: [PATCH 1/3] fix: keep slip estimate finite when state and measurement
 are both certain

---
 track_odometry/include/track_odometry/kalman_filter1.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/track_odometry/include/track_odometry/kalman_filter1.h b/track_odometry/include/track_odometry/kalman_filter1.h
index 5aad66a..4f42d26 100644
--- a/track_odometry/include/track_odometry/kalman_filter1.h
+++ b/track_odometry/include/track_odometry/kalman_filter1.h
@@ -69,7 +69,10 @@ public:
       sigma_ = sigma_in;
       return;
     }
-    double kt = sigma_ * sigma_ / (sigma_ * sigma_ + sigma_in * sigma_in);
+    const double sigma_sq_sum = sigma_ * sigma_ + sigma_in * sigma_in;
+    if (sigma_sq_sum == 0.0)
+      return;  // both are certain; gain is indeterminate (0/0)
+    double kt = sigma_ * sigma_ / sigma_sq_sum;
     x_ = x_ + kt * (x_in - x_);
     sigma_ = (1.0 - kt) * sigma_;
   }
-- 
2.43.0


From 560fe35e7231e47fc1eca5d7d25a4419d4979fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:25 +0000
Subject: [PATCH 2/3] fix: reject starts the goal is unreachable from, and
 initialise the search task number

The remaining cost of a start was converted to int: for a start whose estimate
is the unreachable marker (the largest float) the conversion is undefined and in
practice gave a hugely negative remaining cost, so that search() reported success
with a path of that single cell; smaller estimates were truncated.
GridAstar(size) also left search_task_num_ uninitialised.
---
 planner_cspace/include/planner_cspace/grid_astar.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/planner_cspace/include/planner_cspace/grid_astar.h b/planner_cspace/include/planner_cspace/grid_astar.h
index 4536a0a..104fe98 100644
--- a/planner_cspace/include/planner_cspace/grid_astar.h
+++ b/planner_cspace/include/planner_cspace/grid_astar.h
@@ -157,9 +157,10 @@ public:
   {
   }
   explicit GridAstar(const Vec size)
+    : queue_size_limit_(0)
+    , search_task_num_(1)
   {
     reset(size);
-    queue_size_limit_ = 0;
   }
   void setQueueSizeLimit(const size_t size)
   {
@@ -204,7 +205,8 @@ protected:
     parents_.clear();
 
     std::vector<VecWithCost> ss_normalized;
-    Vec better;
+    Vec better = sts[0].v_;
+    better.cycleUnsigned(g.size());
     int cost_estim_min = std::numeric_limits<int>::max();
     for (const VecWithCost& st : sts)
     {
@@ -216,7 +218,9 @@ protected:
       ss_normalized.emplace_back(s, st.c_);
       g[s] = st.c_;
 
-      const int cost_estim = model->costEstim(s, e);
+      const float cost_estim = model->costEstim(s, e);
+      if (cost_estim < 0 || cost_estim == std::numeric_limits<float>::max())
+        continue;  // The goal is unreachable from this start.
       open_.emplace(cost_estim + st.c_, st.c_, s);
       if (cost_estim_min > cost_estim)
       {
-- 
2.43.0


From dc3dac790484864acc9db4b023c5d67a1fef65f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:39 +0000
Subject: [PATCH 3/3] fix: drop every expired cloud when a cloud is pushed

---
 costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h b/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
index f7d5b41..4728896 100644
--- a/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
+++ b/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
@@ -74,7 +74,7 @@ public:
 
   void push(const Points& points)
   {
-    for (auto it = points_.begin(); it != points_.end(); ++it)
+    for (auto it = points_.begin(); it != points_.end();)
     {
       if (it->stamp_ + time_to_hold_ < points.stamp_)
       {
-- 
2.43.0

