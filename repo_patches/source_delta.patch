From 0154583481a063d0c43c32e739afafbefcd02139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 01/58] fix: safety_limiter: don't transform the accumulated
 cloud in place

predict() overwrote the accumulated cloud with its base frame coordinates
while the cloud was still labeled as in the fixed frame.
If no new cloud arrived until the next prediction, the points were transformed
twice and obstacles were missed.
---
 safety_limiter/src/safety_limiter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/safety_limiter/src/safety_limiter.cpp b/safety_limiter/src/safety_limiter.cpp
index ea1307e..3861bd7 100644
--- a/safety_limiter/src/safety_limiter.cpp
+++ b/safety_limiter/src/safety_limiter.cpp
@@ -391,11 +391,13 @@ protected:
             fixed_to_base.transform.rotation.x,
             fixed_to_base.transform.rotation.y,
             fixed_to_base.transform.rotation.z);
-    pcl::transformPointCloud(*cloud_accum_, *cloud_accum_, fixed_to_base_eigen);
+    // Keep cloud_accum_ in the fixed frame since it is evaluated again if no new cloud arrives until the next prediction.
+    pcl::PointCloud<pcl::PointXYZ>::Ptr cloud_base(new pcl::PointCloud<pcl::PointXYZ>);
+    pcl::transformPointCloud(*cloud_accum_, *cloud_base, fixed_to_base_eigen);
 
     pcl::PointCloud<pcl::PointXYZ>::Ptr pc(new pcl::PointCloud<pcl::PointXYZ>);
     pcl::VoxelGrid<pcl::PointXYZ> ds;
-    ds.setInputCloud(cloud_accum_);
+    ds.setInputCloud(cloud_base);
     ds.setLeafSize(downsample_grid_, downsample_grid_, downsample_grid_);
     ds.filter(*pc);
 
-- 
2.43.0


From ea26ad541900e862eb4cfe8a349338cba049aede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 02/58] fix: safety_limiter: don't pass velocity commands while
 the cloud is timed out

An already outdated cloud (e.g. delayed more than cloud_timeout) set has_cloud_
and let the commands pass without limit until the next prediction.
If all clouds arrived late, the robot kept moving blindly.
---
 safety_limiter/src/safety_limiter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safety_limiter/src/safety_limiter.cpp b/safety_limiter/src/safety_limiter.cpp
index 3861bd7..a77b26c 100644
--- a/safety_limiter/src/safety_limiter.cpp
+++ b/safety_limiter/src/safety_limiter.cpp
@@ -720,7 +720,7 @@ protected:
     {
       pub_twist_.publish(limitMaxVelocities(twist_));
     }
-    else if (!has_cloud_ || watchdog_stop_)
+    else if (!has_cloud_ || watchdog_stop_ || now - last_cloud_stamp_ > ros::Duration(timeout_))
     {
       geometry_msgs::Twist cmd_vel;
       pub_twist_.publish(cmd_vel);
-- 
2.43.0


From 8367f9332b51517ed0edfd23672f75f9fae62c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 03/58] fix: costmap_cspace: don't skip template cells hidden
 behind a non-monotonic footprint

Expansion toward an adjacent occupied cell was skipped assuming that the
adjacent cell covers it. It's valid only if the template cost never
decreases toward the center, which isn't the case for e.g. a diagonally
oriented long footprint, and the footprint collided with cells which were
not marked as lethal.
---
 .../costmap_3d_layer/footprint.h              | 40 ++++++++++++++++---
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h
index 5553935..97485bb 100644
--- a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h
+++ b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h
@@ -72,6 +72,13 @@ protected:
   int range_max_;
   std::vector<bool> unknown_buf_;
 
+  // Whether the template cost doesn't decrease toward the center along each direction.
+  struct CostMonotonicity
+  {
+    bool x_min, x_max, y_min, y_max;
+  };
+  std::vector<CostMonotonicity> cs_template_monotonicity_;
+
 public:
   Costmap3dLayerFootprint()
     : linear_expand_(0.0)
@@ -191,6 +198,23 @@ public:
       if (footprint_radius_ == 0)
         cs_template_.e(0, 0, yaw) = 100;
     }
+
+    cs_template_monotonicity_.resize(info.angle);
+    for (size_t yaw = 0; yaw < info.angle; yaw++)
+    {
+      CostMonotonicity& m = cs_template_monotonicity_[yaw];
+      m = {true, true, true, true};
+      for (int i = -range_max_; i <= range_max_; i++)
+      {
+        for (int j = 1; j <= range_max_; j++)
+        {
+          m.x_min = m.x_min && cs_template_.e(-j, i, yaw) <= cs_template_.e(-j + 1, i, yaw);
+          m.x_max = m.x_max && cs_template_.e(j, i, yaw) <= cs_template_.e(j - 1, i, yaw);
+          m.y_min = m.y_min && cs_template_.e(i, -j, yaw) <= cs_template_.e(i, -j + 1, yaw);
+          m.y_max = m.y_max && cs_template_.e(i, j, yaw) <= cs_template_.e(i, j - 1, yaw);
+        }
+      }
+    }
   }
 
 protected:
@@ -276,16 +300,20 @@ protected:
       const nav_msgs::OccupancyGrid::ConstPtr& msg,
       const size_t yaw)
   {
-    const auto getMaskedRange = [this, msg](const int pos, Rect& result)
+    // Expansion to the direction of an adjacent cell with the same or larger cost can be skipped
+    // since it's covered by the expansion of the adjacent cell if the template is monotonic.
+    const CostMonotonicity monotonic = cs_template_monotonicity_[yaw];
+    const auto getMaskedRange = [this, msg, monotonic](const int pos, Rect& result)
     {
       const int gx = pos % msg->info.width;
       const int gy = pos / msg->info.width;
       const int8_t* const ptr = msg->data.data() + pos;
-      result.x_min = (gx == 0 || (*(ptr - 1) >= *ptr)) ? 0 : -range_max_;
-      result.x_max = (gx == static_cast<int>(msg->info.width) - 1 || (*(ptr + 1) >= *ptr)) ? 0 : range_max_;
-      result.y_min = (gy == 0 || (*(ptr - msg->info.width) >= *ptr)) ? 0 : -range_max_;
-      result.y_max =
-          (gy == static_cast<int>(msg->info.height) - 1 || (*(ptr + msg->info.width) >= *ptr)) ? 0 : range_max_;
+      const int w = msg->info.width;
+      const int h = msg->info.height;
+      result.x_min = (monotonic.x_min && gx > 0 && *(ptr - 1) >= *ptr) ? 0 : -range_max_;
+      result.x_max = (monotonic.x_max && gx < w - 1 && *(ptr + 1) >= *ptr) ? 0 : range_max_;
+      result.y_min = (monotonic.y_min && gy > 0 && *(ptr - w) >= *ptr) ? 0 : -range_max_;
+      result.y_max = (monotonic.y_max && gy < h - 1 && *(ptr + w) >= *ptr) ? 0 : range_max_;
     };
     const auto getRange = (msg->info.resolution == map->info.linear_resolution) ?
                               getMaskedRange :
-- 
2.43.0


From 5da8d84993bf6c0688851a045db3a3a2156b6d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 04/58] fix: costmap_cspace: include the cells outside of the
 overlaid map in the updated region

Costs expanded to the outside of the overlaid map were neither published
nor cleared when the map moved, and remained as ghost obstacles in the
following layers.
---
 costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
index 81589dc..185f581 100644
--- a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
+++ b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
@@ -364,11 +364,13 @@ public:
 
     map_updated_ = msg;
 
+    // Costs are expanded to the outside of the overlaid map
     region_ = UpdatedRegion(ox, oy, 0, w, h, map_->info.angle, msg->header.stamp);
+    region_.expand(getRangeMax());
 
     if (update_chain_entry)
     {
-      updateChainEntry(UpdatedRegion(ox, oy, 0, w, h, map_->info.angle, msg->header.stamp));
+      updateChainEntry(region_);
     }
     else
     {
-- 
2.43.0


From 92f46899a696a2c8259a96fadea12d6f808dbcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 05/58] fix: costmap_cspace: copy all cells refreshed by the
 parent layer

A layer copied only the current region of the parent. Cells which the
parent layer restored since its input moved away kept the old cost.
---
 .../include/costmap_cspace/costmap_3d_layer/base.h        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
index 185f581..e76fd01 100644
--- a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
+++ b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
@@ -401,13 +401,17 @@ protected:
       const UpdatedRegion& region) = 0;
   virtual int getRangeMax() const = 0;
 
-  bool updateChainEntry(const UpdatedRegion& region, bool output = true)
+  bool updateChainEntry(
+      const UpdatedRegion& region, bool output = true,
+      const UpdatedRegion& region_refreshed = UpdatedRegion())
   {
     region_.merge(region);
     region_.normalize(map_->info.width, map_->info.height);
 
     auto region_prev_now = region_;
     region_prev_now.merge(region_prev_);
+    // Copy all cells refreshed by the parent including ones which are no longer in its region
+    region_prev_now.merge(region_refreshed);
     region_prev_ = region_;
 
     region_prev_now.bitblt(map_overlay_, map_);
@@ -428,7 +432,7 @@ protected:
 
     if (child_)
     {
-      return child_->updateChainEntry(region_, output);
+      return child_->updateChainEntry(region_, output, region_prev_now);
     }
     return false;
   }
-- 
2.43.0


From a9ce655f6577e8bd0ac8a4ec293c9b392b235998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 06/58] fix: expire every outdated cloud in
 PointcloudAccumulator

erase() already returns the following element, so incrementing the iterator
skipped it and ended the loop early, and outdated points stayed on the map.
---
 .../include/costmap_cspace/pointcloud_accumulator.h           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h b/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
index f7d5b41..fbac74c 100644
--- a/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
+++ b/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
@@ -74,14 +74,14 @@ public:
 
   void push(const Points& points)
   {
-    for (auto it = points_.begin(); it != points_.end(); ++it)
+    for (auto it = points_.begin(); it != points_.end();)
     {
       if (it->stamp_ + time_to_hold_ < points.stamp_)
       {
         it = points_.erase(it);
         continue;
       }
-      break;
+      ++it;
     }
     points_.push_back(points);
   }
-- 
2.43.0


From 3e156b8e043494b18ecac1683b2c85e11fd2216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 07/58] fix: drop untransformable scan in laserscan_to_map

Accumulating the empty cloud made the node die at PointCloud2ConstIterator
since the cloud has no fields.
---
 costmap_cspace/src/laserscan_to_map.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/costmap_cspace/src/laserscan_to_map.cpp b/costmap_cspace/src/laserscan_to_map.cpp
index ed8f77e..7484efd 100644
--- a/costmap_cspace/src/laserscan_to_map.cpp
+++ b/costmap_cspace/src/laserscan_to_map.cpp
@@ -121,6 +121,7 @@ private:
     catch (tf2::TransformException& e)
     {
       ROS_WARN("%s", e.what());
+      return;
     }
     accum_.push(costmap_cspace::PointcloudAccumurator<sensor_msgs::PointCloud2>::Points(
         cloud_global, cloud_global.header.stamp));
-- 
2.43.0


From bc08e2cee4826035c5e1fb33185a115ae67f80c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 08/58] fix: check height of each point in laserscan_to_map

itr_z was not incremented, so only the height of the first point was tested.
---
 costmap_cspace/src/laserscan_to_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/costmap_cspace/src/laserscan_to_map.cpp b/costmap_cspace/src/laserscan_to_map.cpp
index 7484efd..df1c9b7 100644
--- a/costmap_cspace/src/laserscan_to_map.cpp
+++ b/costmap_cspace/src/laserscan_to_map.cpp
@@ -161,7 +161,7 @@ private:
       auto itr_x = sensor_msgs::PointCloud2ConstIterator<float>(pc, "x");
       auto itr_y = sensor_msgs::PointCloud2ConstIterator<float>(pc, "y");
       auto itr_z = sensor_msgs::PointCloud2ConstIterator<float>(pc, "z");
-      for (; itr_x != itr_x.end(); ++itr_x, ++itr_y)
+      for (; itr_x != itr_x.end(); ++itr_x, ++itr_y, ++itr_z)
       {
         if (*itr_z - robot_z < z_min_ || z_max_ < *itr_z - robot_z)
           continue;
-- 
2.43.0


From 9677f773316207de256f18ce1ee29ea7dfb8438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 09/58] fix: don't mark points out of the local map on its edge

Conversion to int truncates toward zero, so points up to one cell beyond the
lower edges were marked in the first column and row.
---
 costmap_cspace/src/laserscan_to_map.cpp   | 7 ++++---
 costmap_cspace/src/pointcloud2_to_map.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/costmap_cspace/src/laserscan_to_map.cpp b/costmap_cspace/src/laserscan_to_map.cpp
index df1c9b7..54f1419 100644
--- a/costmap_cspace/src/laserscan_to_map.cpp
+++ b/costmap_cspace/src/laserscan_to_map.cpp
@@ -36,6 +36,7 @@
 #include <tf2_ros/transform_listener.h>
 #include <tf2_sensor_msgs/tf2_sensor_msgs.h>
 
+#include <cmath>
 #include <limits>
 #include <string>
 
@@ -165,11 +166,11 @@ private:
       {
         if (*itr_z - robot_z < z_min_ || z_max_ < *itr_z - robot_z)
           continue;
-        unsigned int x = int(
+        const int x = std::floor(
             (*itr_x - map.info.origin.position.x) / map.info.resolution);
-        unsigned int y = int(
+        const int y = std::floor(
             (*itr_y - map.info.origin.position.y) / map.info.resolution);
-        if (x >= map.info.width || y >= map.info.height)
+        if (x < 0 || y < 0 || x >= static_cast<int>(map.info.width) || y >= static_cast<int>(map.info.height))
           continue;
         map.data[x + y * map.info.width] = 100;
       }
diff --git a/costmap_cspace/src/pointcloud2_to_map.cpp b/costmap_cspace/src/pointcloud2_to_map.cpp
index 2d4ec5c..887fb3a 100644
--- a/costmap_cspace/src/pointcloud2_to_map.cpp
+++ b/costmap_cspace/src/pointcloud2_to_map.cpp
@@ -35,6 +35,7 @@
 #include <nav_msgs/OccupancyGrid.h>
 #include <sensor_msgs/PointCloud2.h>
 
+#include <cmath>
 #include <string>
 #include <vector>
 
@@ -174,11 +175,11 @@ private:
         {
           if (*iter_z - robot_z < z_min_ || z_max_ < *iter_z - robot_z)
             continue;
-          unsigned int x = int(
+          const int x = std::floor(
               (*iter_x - map_.info.origin.position.x) / map_.info.resolution);
-          unsigned int y = int(
+          const int y = std::floor(
               (*iter_y - map_.info.origin.position.y) / map_.info.resolution);
-          if (x >= map_.info.width || y >= map_.info.height)
+          if (x < 0 || y < 0 || x >= static_cast<int>(map_.info.width) || y >= static_cast<int>(map_.info.height))
             continue;
           map_.data[x + y * map_.info.width] = 100;
         }
-- 
2.43.0


From 725884028ba3e2023bdd2281639c342d813970f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 10/58] fix: ignore time going backward in odometry of
 trajectory_tracker

---
 trajectory_tracker/src/trajectory_tracker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index 4e26ee8..37ba6cf 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -328,7 +328,7 @@ void TrackerNode::cbOdometry(const nav_msgs::Odometry::ConstPtr& odom)
 
   if (prev_odom_stamp_ != ros::Time())
   {
-    const double dt = std::min(max_dt_, (odom->header.stamp - prev_odom_stamp_).toSec());
+    const double dt = std::max(0.0, std::min(max_dt_, (odom->header.stamp - prev_odom_stamp_).toSec()));
     nav_msgs::Odometry odom_compensated = *odom;
     Eigen::Vector3d prediction_offset(0, 0, 0);
     if (predict_odom_)
-- 
2.43.0


From 9e3f4e42e639ba939a2788ae26a940c6223837d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:53 +0000
Subject: [PATCH 11/58] fix: keep acceleration limit with limit_vel_by_avel in
 trajectory_tracker

---
 trajectory_tracker/src/trajectory_tracker.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index 37ba6cf..99007f5 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -464,17 +464,18 @@ void TrackerNode::control(
       }
       else
       {
+        double target_linear_vel = tracking_result.target_linear_vel;
+        if (limit_vel_by_avel_ && target_linear_vel * std::abs(tracking_result.tracking_point_curv) > vel_[1])
+        {
+          target_linear_vel = vel_[1] / std::abs(tracking_result.tracking_point_curv);
+        }
         v_lim_.set(
             trajectory_tracker::timeOptimalControl(tracking_result.signed_local_distance, acc_toc_[0]),
-            tracking_result.target_linear_vel, acc_[0], dt);
+            target_linear_vel, acc_[0], dt);
 
         float wref = std::abs(v_lim_.get()) * tracking_result.tracking_point_curv;
-
         if (limit_vel_by_avel_ && std::abs(wref) > vel_[1])
         {
-          v_lim_.set(
-              std::copysign(1.0, v_lim_.get()) * std::abs(vel_[1] / tracking_result.tracking_point_curv),
-              tracking_result.target_linear_vel, acc_[0], dt);
           wref = std::copysign(1.0, wref) * vel_[1];
         }
 
-- 
2.43.0


From 33537bb9e00bd21841827bf1cdf97cf0455dcafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:53 +0000
Subject: [PATCH 12/58] fix: keep progress on the path when path_step is
 changed in trajectory_tracker

---
 trajectory_tracker/src/trajectory_tracker.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index 99007f5..adbeaba 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -191,7 +191,9 @@ private:
 };
 
 TrackerNode::TrackerNode()
-  : nh_()
+  : path_step_(1)
+  , path_step_done_(0)
+  , nh_()
   , pnh_("~")
   , tfl_(tfbuf_)
   , is_path_updated_(false)
@@ -250,7 +252,13 @@ void TrackerNode::cbParameter(const TrajectoryTrackerConfig& config, const uint3
   acc_[1] = config.max_angacc;
   acc_toc_[0] = acc_[0] * config.acc_toc_factor;
   acc_toc_[1] = acc_[1] * config.angacc_toc_factor;
-  path_step_ = config.path_step;
+  if (path_step_ != config.path_step)
+  {
+    // path_step_done_ is an index of the path sampled by path_step_
+    const int done = std::min(path_step_done_ * path_step_, std::max(0, static_cast<int>(path_.size()) - 1));
+    path_step_done_ = done / config.path_step;
+    path_step_ = config.path_step;
+  }
   goal_tolerance_dist_ = config.goal_tolerance_dist;
   goal_tolerance_ang_ = config.goal_tolerance_ang;
   stop_tolerance_dist_ = config.stop_tolerance_dist;
-- 
2.43.0


From 9ec9d1c102906cce1da660cbbb1d98e92c0d8de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:53 +0000
Subject: [PATCH 13/58] fix: track the path up to its end with path_step

---
 trajectory_tracker/src/trajectory_tracker.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index adbeaba..743b4ec 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -552,10 +552,17 @@ TrackerNode::TrackingResult TrackerNode::getTrackingResult(
         Eigen::Rotation2Dd(robot_yaw);
     const auto robot_to_path_2d = path_to_robot_2d.inverse();
 
-    for (size_t i = 0; i < path_.size(); i += path_step_)
+    const auto push_pose = [&lpath, &robot_to_path_2d, robot_yaw](const trajectory_tracker::Pose2D& pose)
+    {
       lpath.push_back(
           trajectory_tracker::Pose2D(
-              robot_to_path_2d * path_[i].pos_, -robot_yaw + path_[i].yaw_, path_[i].velocity_));
+              robot_to_path_2d * pose.pos_, -robot_yaw + pose.yaw_, pose.velocity_));
+    };
+    for (size_t i = 0; i < path_.size(); i += path_step_)
+      push_pose(path_[i]);
+    // The end of the path must always be included
+    if ((path_.size() - 1) % path_step_ != 0)
+      push_pose(path_.back());
   }
   catch (tf2::TransformException& e)
   {
@@ -669,7 +676,7 @@ TrackerNode::TrackingResult TrackerNode::getTrackingResult(
     float dist_from_path = dist_err;
     if (i_nearest == 0)
       dist_from_path = -(lpath[i_nearest].pos_ - origin).norm();
-    else if (i_nearest + 1 >= static_cast<int>(path_.size()))
+    else if (i_nearest + 1 >= static_cast<int>(lpath.size()))
       dist_from_path = -(lpath[i_nearest].pos_ - origin).norm();
     if (std::abs(dist_from_path) > d_stop_)
     {
-- 
2.43.0


From 3a6ca74ad61f039848a02a8b74e5b2f499f4c766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 14/58] fix: don't report GOAL of trajectory_tracker far from
 the end of the path

---
 trajectory_tracker/src/trajectory_tracker.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index 743b4ec..3185099 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -710,7 +710,13 @@ TrackerNode::TrackingResult TrackerNode::getTrackingResult(
       (goal_tolerance_ang_vel_ == 0.0 || std::abs(odom_angular_vel) < goal_tolerance_ang_vel_) &&
       it_local_goal == lpath.end())
   {
-    result.status = trajectory_tracker_msgs::TrajectoryTrackerStatus::GOAL;
+    // Distance to the goal is not evaluated above during in-place turning
+    const bool control_position =
+        path_length >= no_pos_cntl_dist_ && path_length >= min_track_path_ && path_length >= stop_tolerance_dist_;
+    if (control_position && (lpath.back().pos_ - origin_raw).norm() > d_stop_ + goal_tolerance_dist_)
+      result.status = trajectory_tracker_msgs::TrajectoryTrackerStatus::FAR_FROM_PATH;
+    else
+      result.status = trajectory_tracker_msgs::TrajectoryTrackerStatus::GOAL;
   }
 
   if (arrive_local_goal)
-- 
2.43.0


From f7e408f4ab76be163a9456b43762cc846253c236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 15/58] fix: evaluate goal of trajectory_tracker by unpredicted
 odometry

The position before prediction is behind the predicted one.
---
 trajectory_tracker/src/trajectory_tracker.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index 3185099..a2667a0 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -346,8 +346,9 @@ void TrackerNode::cbOdometry(const nav_msgs::Odometry::ConstPtr& odom)
       const tf2::Quaternion rotation(tf2::Vector3(0, 0, 1), odom->twist.twist.angular.z * predict_dt);
       const tf2::Vector3 translation(odom->twist.twist.linear.x * predict_dt, 0, 0);
 
-      prediction_offset[0] = odom->twist.twist.linear.x * predict_dt;
-      prediction_offset[2] = odom->twist.twist.angular.z * predict_dt;
+      // Odometry without prediction seen from the predicted pose
+      prediction_offset[0] = -odom->twist.twist.linear.x * predict_dt;
+      prediction_offset[2] = -odom->twist.twist.angular.z * predict_dt;
 
       tf2::fromMsg(odom->pose.pose, trans);
       trans.setOrigin(trans.getOrigin() + tf2::Transform(trans.getRotation()) * translation);
-- 
2.43.0


From cfac220a18fc6b3fccc446235b7d2bcd80c40ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:21 +0000
Subject: [PATCH 16/58] fix: check write error in trajectory_saver

---
 trajectory_tracker/src/trajectory_saver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trajectory_tracker/src/trajectory_saver.cpp b/trajectory_tracker/src/trajectory_saver.cpp
index 6fbf884..e0b86d0 100644
--- a/trajectory_tracker/src/trajectory_saver.cpp
+++ b/trajectory_tracker/src/trajectory_saver.cpp
@@ -101,6 +101,12 @@ void SaverNode::cbPath(const nav_msgs::Path::ConstPtr& msg)
   ros::serialization::serialize(stream, *msg);
 
   ofs.write(reinterpret_cast<char*>(buffer.get()), serial_size);
+  ofs.close();
+  if (!ofs)
+  {
+    ROS_ERROR("Failed to write %s", filename_.c_str());
+    return;
+  }
 
   saved_ = true;
 }
-- 
2.43.0


From 8045e4f68a270d69008de4f837571bb55351b015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 17/58] fix: don't publish a partially read file in
 trajectory_server

---
 trajectory_tracker/src/trajectory_server.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trajectory_tracker/src/trajectory_server.cpp b/trajectory_tracker/src/trajectory_server.cpp
index c3c2632..2a54ce8 100644
--- a/trajectory_tracker/src/trajectory_server.cpp
+++ b/trajectory_tracker/src/trajectory_server.cpp
@@ -37,6 +37,7 @@
 
 #include <cmath>
 #include <fstream>
+#include <limits>
 #include <string>
 
 #include <ros/ros.h>
@@ -125,12 +126,15 @@ bool ServerNode::loadFile()
   if (ifs.good())
   {
     ifs.seekg(0, ifs.end);
-    serial_size_ = ifs.tellg();
+    const std::streamoff size = ifs.tellg();
+    if (size < 0 || size > std::numeric_limits<int>::max())
+      return false;
+    serial_size_ = size;
     ifs.seekg(0, ifs.beg);
     buffer_.reset(new uint8_t[serial_size_]);
     ifs.read(reinterpret_cast<char*>(buffer_.get()), serial_size_);
 
-    return true;
+    return ifs.gcount() == serial_size_;
   }
   return false;
 }
-- 
2.43.0


From 57cda6c7b925277b1e417f589b8c79af955ffd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 18/58] fix: handle broken file in trajectory_server

---
 trajectory_tracker/src/trajectory_server.cpp | 23 +++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/trajectory_tracker/src/trajectory_server.cpp b/trajectory_tracker/src/trajectory_server.cpp
index 2a54ce8..7cb530c 100644
--- a/trajectory_tracker/src/trajectory_server.cpp
+++ b/trajectory_tracker/src/trajectory_server.cpp
@@ -36,6 +36,7 @@
  */
 
 #include <cmath>
+#include <exception>
 #include <fstream>
 #include <limits>
 #include <string>
@@ -79,6 +80,7 @@ private:
   trajectory_tracker::Filter* lpf_[2];
 
   bool loadFile();
+  bool decodePath();
   void loadPath();
   bool change(trajectory_tracker_msgs::ChangePath::Request& req,
               trajectory_tracker_msgs::ChangePath::Response& res);
@@ -139,6 +141,23 @@ bool ServerNode::loadFile()
   return false;
 }
 
+bool ServerNode::decodePath()
+{
+  try
+  {
+    nav_msgs::Path path;
+    ros::serialization::IStream stream(buffer_.get(), serial_size_);
+    ros::serialization::deserialize(stream, path);
+    path_ = path;
+  }
+  catch (const std::exception& e)
+  {
+    ROS_ERROR("Failed to decode %s: %s", req_path_.filename.c_str(), e.what());
+    return false;
+  }
+  return true;
+}
+
 void ServerNode::processFeedback(
     const visualization_msgs::InteractiveMarkerFeedbackConstPtr& feedback)
 {
@@ -242,11 +261,9 @@ bool ServerNode::change(trajectory_tracker_msgs::ChangePath::Request& req,
   req_path_ = req;
   res.success = false;
 
-  if (loadFile())
+  if (loadFile() && decodePath())
   {
     res.success = true;
-    ros::serialization::IStream stream(buffer_.get(), serial_size_);
-    ros::serialization::deserialize(stream, path_);
     path_.header.stamp = ros::Time::now();
     if (filter_step_ > 0)
     {
-- 
2.43.0


From bc78c130f03a32433f83d31704a62e00c821d18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 19/58] fix: accept an empty path with filter in
 trajectory_server

---
 trajectory_tracker/src/trajectory_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajectory_tracker/src/trajectory_server.cpp b/trajectory_tracker/src/trajectory_server.cpp
index 7cb530c..d11bcf6 100644
--- a/trajectory_tracker/src/trajectory_server.cpp
+++ b/trajectory_tracker/src/trajectory_server.cpp
@@ -265,7 +265,7 @@ bool ServerNode::change(trajectory_tracker_msgs::ChangePath::Request& req,
   {
     res.success = true;
     path_.header.stamp = ros::Time::now();
-    if (filter_step_ > 0)
+    if (filter_step_ > 0 && !path_.poses.empty())
     {
       std::cout << filter_step_ << std::endl;
       lpf_[0] = new trajectory_tracker::Filter(
-- 
2.43.0


From 1835dad3ac759ce46ea781131f1f2d04e08d248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 20/58] fix: clear markers of the discarded path in
 trajectory_server

---
 trajectory_tracker/src/trajectory_server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajectory_tracker/src/trajectory_server.cpp b/trajectory_tracker/src/trajectory_server.cpp
index d11bcf6..c89a87f 100644
--- a/trajectory_tracker/src/trajectory_server.cpp
+++ b/trajectory_tracker/src/trajectory_server.cpp
@@ -292,6 +292,7 @@ bool ServerNode::change(trajectory_tracker_msgs::ChangePath::Request& req,
     req_path_.filename = "";
     path_.poses.clear();
     path_.header.frame_id = "map";
+    updateIM();
   }
   return true;
 }
-- 
2.43.0


From 7aed2b4d5139f29aea3e463ad07ef3502be14aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 21/58] fix: serve clear_path of trajectory_recorder while TF
 is unavailable

---
 trajectory_tracker/src/trajectory_recorder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajectory_tracker/src/trajectory_recorder.cpp b/trajectory_tracker/src/trajectory_recorder.cpp
index 729b3e9..916093a 100644
--- a/trajectory_tracker/src/trajectory_recorder.cpp
+++ b/trajectory_tracker/src/trajectory_recorder.cpp
@@ -131,6 +131,8 @@ void RecorderNode::spin()
     catch (tf2::TransformException& e)
     {
       ROS_WARN("TF exception: %s", e.what());
+      ros::spinOnce();
+      loop_rate.sleep();
       continue;
     }
     geometry_msgs::PoseStamped pose;
-- 
2.43.0


From b7b1f122c6ccaab3544a39464789ec0513460198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 22/58] fix: record turn of the robot by ang_interval of
 trajectory_recorder

---
 trajectory_tracker/src/trajectory_recorder.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/trajectory_tracker/src/trajectory_recorder.cpp b/trajectory_tracker/src/trajectory_recorder.cpp
index 916093a..6a942f1 100644
--- a/trajectory_tracker/src/trajectory_recorder.cpp
+++ b/trajectory_tracker/src/trajectory_recorder.cpp
@@ -42,6 +42,7 @@
 
 #include <geometry_msgs/Twist.h>
 #include <nav_msgs/Path.h>
+#include <tf2/utils.h>
 #include <tf2_geometry_msgs/tf2_geometry_msgs.h>
 #include <tf2_ros/transform_listener.h>
 #include <std_srvs/Empty.h>
@@ -104,6 +105,12 @@ float dist2d(geometry_msgs::Point& a, geometry_msgs::Point& b)
   return std::sqrt(std::pow(a.x - b.x, 2) + std::pow(a.y - b.y, 2));
 }
 
+float angle2d(const geometry_msgs::Quaternion& a, const geometry_msgs::Quaternion& b)
+{
+  const double diff = tf2::getYaw(b) - tf2::getYaw(a);
+  return std::abs(std::atan2(std::sin(diff), std::cos(diff)));
+}
+
 bool RecorderNode::clearPath(std_srvs::Empty::Request& /* req */,
                              std_srvs::Empty::Response& /* res */)
 {
@@ -155,7 +162,8 @@ void RecorderNode::spin()
       path_.poses.push_back(pose);
       pub_path_.publish(path_);
     }
-    else if (dist2d(path_.poses.back().pose.position, pose.pose.position) > dist_interval_)
+    else if (dist2d(path_.poses.back().pose.position, pose.pose.position) > dist_interval_ ||
+             angle2d(path_.poses.back().pose.orientation, pose.pose.orientation) > ang_interval_)
     {
       path_.poses.push_back(pose);
       pub_path_.publish(path_);
-- 
2.43.0


From 326230b24481f7d12668abd4aa473f23ba74c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:54 +0000
Subject: [PATCH 23/58] fix: planner_3d: abort action goals refused while the
 other action is active

The goal was left pending, so its client never got a result, and it was
recalled or executed unexpectedly when another goal arrived.
---
 planner_cspace/src/planner_3d.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 8c83251..4139511 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -1111,6 +1111,8 @@ protected:
     if (act_tolerant_->isActive())
     {
       ROS_ERROR("Setting new goal is ignored since planner_3d is proceeding by tolerant_move action.");
+      act_->acceptNewGoal();
+      act_->setAborted(move_base_msgs::MoveBaseResult(), "tolerant_move action is proceeding.");
       return;
     }
 
@@ -1124,6 +1126,8 @@ protected:
     if (act_->isActive())
     {
       ROS_ERROR("Setting new goal is ignored since planner_3d is proceeding by move_base action.");
+      act_tolerant_->acceptNewGoal();
+      act_tolerant_->setAborted(planner_cspace_msgs::MoveWithToleranceResult(), "move_base action is proceeding.");
       return;
     }
 
-- 
2.43.0


From 1743f9715fa278976e7789bd70bc8c728b978c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:54 +0000
Subject: [PATCH 24/58] fix: planner_3d: search for the temporary escape goal
 around the robot

The search was done around an uninitialised cell.
---
 planner_cspace/src/planner_3d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 4139511..4def55a 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -2118,7 +2118,7 @@ protected:
     if (!enable_crowd_mode_)
     {
       // Just find available (not occupied) pose
-      Astar::Vec te;
+      Astar::Vec te = start_grid;
       if (!searchAvailablePos(cm_, te, esc_range_, esc_angle_, relocation_acceptable_cost_, esc_range_min_))
       {
         ROS_WARN("No valid temporary escape goal");
-- 
2.43.0


From 05de52e2916914b0fdc0ee70b7bc258a8bdd13df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:54 +0000
Subject: [PATCH 25/58] fix: planner_3d: keep the window of the crowd escape
 inside of the map

The copied window was one row and one column larger than what is
validated against the size of the map.
---
 planner_cspace/src/planner_3d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 4def55a..4859d8b 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -2181,8 +2181,8 @@ protected:
       // Construct arraivability map
       const int local_width = esc_range_ * 2 + 1;
       const Astar::Vec local_origin = s - Astar::Vec(esc_range_, esc_range_, 0);
-      const Astar::Vec local_range(local_width, local_width, 0);
-      const Astar::Vec local_size(local_width + 1, local_width + 1, 1);
+      const Astar::Vec local_range(local_width - 1, local_width - 1, 0);
+      const Astar::Vec local_size(local_width, local_width, 1);
       const Astar::Vec local_center(esc_range_, esc_range_, 0);
       const DistanceMap::Params dmp =
           {
-- 
2.43.0


From 5646eb37bb456703844d7d47d1027054fbcd13cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:55 +0000
Subject: [PATCH 26/58] fix: planner_3d: apply the costmap watchdog after a
 rejected costmap update

Planning triggered by a costmap update passed the time of the last applied
update as the current time, so that an update refused for its range let the
planner publish paths based on an outdated costmap.
---
 planner_cspace/src/planner_3d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 4859d8b..a0e1f99 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -973,7 +973,7 @@ protected:
       no_map_update_timer_.stop();
       updateStart();
       applyCostmapUpdate(msg);
-      planPath(last_costmap_);
+      planPath(ros::Time::now());
       if (costmap_watchdog_ > ros::Duration(0))
       {
         no_map_update_timer_ =
-- 
2.43.0


From 94e2347d30368f0a6d1072e70e2cb7f3803d6c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:41 +0000
Subject: [PATCH 27/58] fix: planner_3d: refuse costmap updates exceeding the
 angular range

The offset in the angle was not considered, so that such an update was
written beyond the end of the costmap. A wrapped sum of the offset and the
size was accepted as well.
---
 planner_cspace/src/planner_3d.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index a0e1f99..f02c9ca 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -784,9 +784,9 @@ protected:
     const int map_update_y_min = static_cast<int>(msg->y);
     const int map_update_y_max = std::max(static_cast<int>(msg->y + msg->height) - 1, 0);
 
-    if (static_cast<size_t>(map_update_x_max) >= map_info_.width ||
-        static_cast<size_t>(map_update_y_max) >= map_info_.height ||
-        msg->angle > map_info_.angle)
+    if (static_cast<uint64_t>(msg->x) + msg->width > map_info_.width ||
+        static_cast<uint64_t>(msg->y) + msg->height > map_info_.height ||
+        static_cast<uint64_t>(msg->yaw) + msg->angle > map_info_.angle)
     {
       ROS_WARN(
           "Map update out of range (update range: %dx%dx%d, map range: %dx%dx%d)",
-- 
2.43.0


From 189f450fcb0c1025edf2b32ade61ffc0deb0bb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 28/58] fix: grid_astar: don't take a start which can't reach
 the goal as the goal

---
 planner_cspace/include/planner_cspace/grid_astar.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/planner_cspace/include/planner_cspace/grid_astar.h b/planner_cspace/include/planner_cspace/grid_astar.h
index 4536a0a..646b4e2 100644
--- a/planner_cspace/include/planner_cspace/grid_astar.h
+++ b/planner_cspace/include/planner_cspace/grid_astar.h
@@ -205,7 +205,7 @@ protected:
 
     std::vector<VecWithCost> ss_normalized;
     Vec better;
-    int cost_estim_min = std::numeric_limits<int>::max();
+    float cost_estim_min = std::numeric_limits<float>::max();
     for (const VecWithCost& st : sts)
     {
       if (st.v_ == en)
@@ -215,8 +215,13 @@ protected:
       s.cycleUnsigned(g.size());
       ss_normalized.emplace_back(s, st.c_);
       g[s] = st.c_;
+      if (ss_normalized.size() == 1)
+        better = s;
+
+      const float cost_estim = model->costEstim(s, e);
+      if (cost_estim < 0 || cost_estim == std::numeric_limits<float>::max())
+        continue;
 
-      const int cost_estim = model->costEstim(s, e);
       open_.emplace(cost_estim + st.c_, st.c_, s);
       if (cost_estim_min > cost_estim)
       {
-- 
2.43.0


From f686486dcc95d4754f79e8c2443753cad935b84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 29/58] fix: planner_3d: refuse to plan from a start pose in
 collision

---
 planner_cspace/src/start_pose_predictor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/start_pose_predictor.cpp b/planner_cspace/src/start_pose_predictor.cpp
index 759c541..904829b 100644
--- a/planner_cspace/src/start_pose_predictor.cpp
+++ b/planner_cspace/src/start_pose_predictor.cpp
@@ -135,7 +135,7 @@ bool StartPosePredictor::buildResults(
     const GridAstar<3, 2>::Gridmap<char, 0x40>& cm,
     StartPosePredictor::Astar::Vec& start_grid)
 {
-  if (isPathColliding(previous_path_2d_.begin(), expected_start_pose_it, cm))
+  if (isPathColliding(previous_path_2d_.begin(), expected_start_pose_it + 1, cm))
   {
     ROS_WARN("The robot might collide with an obstacle during the next planning. An empty path is published.");
     clear();
-- 
2.43.0


From 3ac78e1491767ab55a74631bad5059165563e23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:42 +0000
Subject: [PATCH 30/58] fix: planner_3d: recalculate the distance map discarded
 by a parameter change

---
 planner_cspace/src/planner_3d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index f02c9ca..8955728 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -1479,6 +1479,8 @@ public:
       {
         cost_estim_cache_static_.init(model_, dmp);
       }
+      // The costs are to be recalculated before the next planning.
+      cost_estim_cache_created_ = false;
     }
 
     keep_a_part_of_previous_path_ = config.keep_a_part_of_previous_path;
-- 
2.43.0


From b05f36200946144f4f12c3d3790570c62d571d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:38 +0000
Subject: [PATCH 31/58] fix: planner_3d: keep the costmap watchdog running
 after a parameter change

---
 planner_cspace/src/planner_3d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 8955728..bfaaf7b 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -1502,6 +1502,11 @@ public:
     start_pose_predictor_.setConfig(start_pose_predictor_config);
     trigger_plan_by_costmap_update_ = config.trigger_plan_by_costmap_update;
     no_map_update_timer_.stop();
+    if (trigger_plan_by_costmap_update_ && costmap_watchdog_ > ros::Duration(0))
+    {
+      no_map_update_timer_ =
+          nh_.createTimer(costmap_watchdog_, &Planner3dNode::cbNoMapUpdateTimer, this, true);
+    }
   }
 
   void waitUntil(const ros::Time& next_replan_time)
-- 
2.43.0


From 6ac8e529eb01b44e8f290662b2b9e70723149940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:38 +0000
Subject: [PATCH 32/58] fix: planner_3d: search at least the local range from
 the actual start

---
 planner_cspace/src/planner_3d.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index bfaaf7b..2902084 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -1964,7 +1964,13 @@ protected:
       return false;
     }
 
-    const float range_limit = initial_2dof_cost - (local_range_ + range_) * ec_[0];
+    // The search may start from a cell nearer to the goal than the cell of the robot.
+    float start_2dof_cost = initial_2dof_cost;
+    for (const Astar::VecWithCost& s : starts)
+    {
+      start_2dof_cost = std::min(start_2dof_cost, cost_estim_cache_[Astar::Vec(s.v_[0], s.v_[1], 0)]);
+    }
+    const float range_limit = start_2dof_cost - (local_range_ + range_) * ec_[0];
     const auto ts = boost::chrono::high_resolution_clock::now();
     const auto cb_progress =
         [this, ts, start_grid, end_grid](const std::list<Astar::Vec>& path_grid, const SearchStats& stats) -> bool
-- 
2.43.0


From b4eb272f5b2025dc00167d9b85ad97621901d14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:47 +0000
Subject: [PATCH 33/58] fix: planner_3d: relocate make_plan poses on the rough
 costmap

---
 planner_cspace/src/planner_3d.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 2902084..82f707e 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -295,7 +295,8 @@ protected:
     if (use_cm_rough)
     {
       pose_discrete[2] = 0;
-      return relocateDiscretePoseIfNeededImpl(cm_rough_, tolerance_range, tolerance_angle, pose_discrete);
+      // The rough costmap doesn't have the angular axis.
+      return relocateDiscretePoseIfNeededImpl(cm_rough_, tolerance_range, 0, pose_discrete);
     }
     else
     {
@@ -525,10 +526,10 @@ protected:
               (unsigned int)s2[1] >= (unsigned int)map_info_.height)
             continue;
           s2.cycleUnsigned(map_info_.angle);
-          if (!cm_.validate(s2, range_))
+          if (!cm.validate(s2, range_))
             continue;
 
-          if (cm_[s2] >= cost_acceptable)
+          if (cm[s2] >= cost_acceptable)
             continue;
           const auto cost = model_->euclidCost(d);
           if (cost < range_min)
-- 
2.43.0


From a739b6ad4c2ec280340b26c5d1efa6e5e68195d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:08 +0000
Subject: [PATCH 34/58] fix: GridAstar: initialize the number of search tasks
 in the sizing constructor

---
 planner_cspace/include/planner_cspace/grid_astar.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/include/planner_cspace/grid_astar.h b/planner_cspace/include/planner_cspace/grid_astar.h
index 646b4e2..8e4702c 100644
--- a/planner_cspace/include/planner_cspace/grid_astar.h
+++ b/planner_cspace/include/planner_cspace/grid_astar.h
@@ -157,9 +157,10 @@ public:
   {
   }
   explicit GridAstar(const Vec size)
+    : queue_size_limit_(0)
+    , search_task_num_(1)
   {
     reset(size);
-    queue_size_limit_ = 0;
   }
   void setQueueSizeLimit(const size_t size)
   {
-- 
2.43.0


From 623e4778a2d5f876907f82e10ad5479c2d6bbbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:08 +0000
Subject: [PATCH 35/58] fix: GridAstar: select the best reached cell outside of
 the parallel section

---
 planner_cspace/include/planner_cspace/grid_astar.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/planner_cspace/include/planner_cspace/grid_astar.h b/planner_cspace/include/planner_cspace/grid_astar.h
index 8e4702c..b3f6c9c 100644
--- a/planner_cspace/include/planner_cspace/grid_astar.h
+++ b/planner_cspace/include/planner_cspace/grid_astar.h
@@ -273,6 +273,12 @@ protected:
               found = true;
               break;
             }
+            const float cost_estim = center.p_ - center.p_raw_;
+            if (center.p_raw_ <= g[center.v_] && cost_estim < cost_estim_min)
+            {
+              cost_estim_min = cost_estim;
+              better = center.v_;
+            }
             centers.emplace_back(std::move(center));
             ++i;
           }
@@ -307,17 +313,10 @@ protected:
         {
           const Vec p = it->v_;
           const float c = it->p_raw_;
-          const float c_estim = it->p_;
           const float gp = g[p];
           if (c > gp)
             continue;
 
-          if (c_estim - c < cost_estim_min)
-          {
-            cost_estim_min = c_estim - c;
-            better = p;
-          }
-
           const std::vector<Vec> search_list = model->searchGrids(p, ss_normalized, e);
 
           bool updated(false);
-- 
2.43.0


From fdb898204e0936fec699c7010a61ff31bd9e4223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:28 +0000
Subject: [PATCH 36/58] fix: planner_3d: make incremental distance map updates
 equal to a full build

---
 .../planner_cspace/planner_3d/distance_map.h  |  2 +
 planner_cspace/src/distance_map.cpp           | 87 ++++++++++---------
 2 files changed, 50 insertions(+), 39 deletions(-)

diff --git a/planner_cspace/include/planner_cspace/planner_3d/distance_map.h b/planner_cspace/include/planner_cspace/planner_3d/distance_map.h
index 229f8b2..f0a4ef4 100644
--- a/planner_cspace/include/planner_cspace/planner_3d/distance_map.h
+++ b/planner_cspace/include/planner_cspace/planner_3d/distance_map.h
@@ -121,6 +121,8 @@ public:
   }
 
 protected:
+  static constexpr int range_rough_ = 4;
+
   Astar::Gridmap<float> g_;
   Params p_;
   CostCoeff cc_;
diff --git a/planner_cspace/src/distance_map.cpp b/planner_cspace/src/distance_map.cpp
index e4bcb55..bb29038 100644
--- a/planner_cspace/src/distance_map.cpp
+++ b/planner_cspace/src/distance_map.cpp
@@ -28,6 +28,7 @@
  */
 
 #include <cmath>
+#include <algorithm>
 #include <limits>
 #include <unordered_map>
 #include <utility>
@@ -211,14 +212,13 @@ void DistanceMap::init(const GridAstarModel3D::Ptr model, const Params& p)
   p_ = p;
   search_diffs_.clear();
 
-  const int range_rough = 4;
-  for (Astar::Vec d(-range_rough, 0, 0); d[0] <= range_rough; d[0]++)
+  for (Astar::Vec d(-range_rough_, 0, 0); d[0] <= range_rough_; d[0]++)
   {
-    for (d[1] = -range_rough; d[1] <= range_rough; d[1]++)
+    for (d[1] = -range_rough_; d[1] <= range_rough_; d[1]++)
     {
       if (d[0] == 0 && d[1] == 0)
         continue;
-      if (d.sqlen() > range_rough * range_rough)
+      if (d.sqlen() > range_rough_ * range_rough_)
         continue;
 
       SearchDiffs diffs;
@@ -258,17 +258,22 @@ void DistanceMap::update(
     create(s, e);
     return;
   }
-  Astar::Vec p_cost_min;
+  // Moves passing through the updated area start and end within the search range from the area
+  Rect area(rect);
+  if (rect.min[0] <= rect.max[0] && rect.min[1] <= rect.max[1])
+  {
+    for (int i = 0; i < 2; ++i)
+    {
+      area.min[i] = std::max(0, rect.min[i] - range_rough_);
+      area.max[i] = std::min(p_.size[i] - 1, rect.max[i] + range_rough_);
+    }
+  }
   float cost_min = std::numeric_limits<float>::max();
-  for (Astar::Vec p(0, rect.min[1], 0); p[1] <= rect.max[1]; p[1]++)
+  for (Astar::Vec p(0, area.min[1], 0); p[1] <= area.max[1]; p[1]++)
   {
-    for (p[0] = rect.min[0]; p[0] <= rect.max[0]; p[0]++)
+    for (p[0] = area.min[0]; p[0] <= area.max[0]; p[0]++)
     {
-      if (cost_min > g_[p])
-      {
-        p_cost_min = p;
-        cost_min = g_[p];
-      }
+      cost_min = std::min(cost_min, g_[p]);
     }
   }
   if (cost_min == 0.0)
@@ -286,13 +291,20 @@ void DistanceMap::update(
     return;
   }
 
-  if (cost_min != std::numeric_limits<float>::max())
+  for (Astar::Vec p(0, area.min[1], 0); p[1] <= area.max[1]; p[1]++)
   {
-    pq_erase_.emplace(0.0, 0.0, p_cost_min);
+    for (p[0] = area.min[0]; p[0] <= area.max[0]; p[0]++)
+    {
+      g_[p] = std::numeric_limits<float>::max();
+      edges_buf_[p[0] + p[1] * p_.size[0]] = false;
+      pq_erase_.emplace(0.0, 0.0, p);
+    }
   }
 
-  if (g_[s_rough] > cost_min)
+  if (g_[s_rough] > cost_min && g_[s_rough] != std::numeric_limits<float>::max())
   {
+    g_[s_rough] = std::numeric_limits<float>::max();
+    edges_buf_[s_rough[0] + s_rough[1] * p_.size[0]] = false;
     pq_erase_.emplace(0.0, 0.0, s_rough);
   }
 
@@ -304,35 +316,31 @@ void DistanceMap::update(
     const Astar::Vec p = center.v_;
     pq_erase_.pop();
 
-    if (g_[p] == std::numeric_limits<float>::max())
-      continue;
-    g_[p] = std::numeric_limits<float>::max();
-
-    for (Astar::Vec d(-1, 0, 0); d[0] <= 1; d[0]++)
+    // Erase all the cells which may be reached through the updated area
+    // and expand again from all the remaining cells which can reach the erased cells
+    for (const SearchDiffs& ds : search_diffs_)
     {
-      for (d[1] = -1; d[1] <= 1; d[1]++)
+      const Astar::Vec next = p + ds.d;
+      if ((unsigned int)next[0] >= (unsigned int)p_.size[0] ||
+          (unsigned int)next[1] >= (unsigned int)p_.size[1])
+        continue;
+      const float gn = g_[next];
+      if (gn == std::numeric_limits<float>::max())
+        continue;
+      const size_t addr = next[0] + next[1] * p_.size[0];
+      if (gn < cost_min)
       {
-        if (!((d[0] == 0) ^ (d[1] == 0)))
-          continue;
-        Astar::Vec next = p + d;
-        next[2] = 0;
-        if ((unsigned int)next[0] >= (unsigned int)p_.size[0] ||
-            (unsigned int)next[1] >= (unsigned int)p_.size[1])
-          continue;
-        const float gn = g_[next];
-        if (gn == std::numeric_limits<float>::max())
-          continue;
-        if (gn < cost_min)
-        {
-          pq_open_.emplace(gn, gn, next);
-          continue;
-        }
-        pq_erase_.emplace(0.0, 0.0, next);
-        edges_buf_[next[0] + next[1] * p_.size[0]] = false;
+        edges_buf_[addr] = true;
+        continue;
       }
+      g_[next] = std::numeric_limits<float>::max();
+      edges_buf_[addr] = false;
+      pq_erase_.emplace(0.0, 0.0, next);
     }
   }
 
+  g_[e_rough] = -p_.euclid_cost[0] * 0.5;  // Same as create()
+
   int pos = 0;
   for (const auto& edge : edges_buf_)
   {
@@ -347,10 +355,11 @@ void DistanceMap::update(
 
   if (pq_open_.size() == 0)
   {
-    pq_open_.emplace(-p_.euclid_cost[0] * 0.5, -p_.euclid_cost[0] * 0.5, e_rough);
+    pq_open_.emplace(g_[e_rough], g_[e_rough], e_rough);
   }
 
   fillCostmap(pq_open_, s_rough);
+  g_[e_rough] = 0;
 }
 
 void DistanceMap::create(const Astar::Vec& s, const Astar::Vec& e)
-- 
2.43.0


From 2c75e7b88ca73835d38cc093262897b731f526a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:10 +0000
Subject: [PATCH 37/58] fix: track_odometry: bound the gain of the height
 filter

The height was multiplied by 1 - dt / timeconst. After a gap longer than the
time constant it flipped (and beyond twice the time constant grew), and stamps
going back amplified it.
---
 track_odometry/src/track_odometry.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/track_odometry/src/track_odometry.cpp b/track_odometry/src/track_odometry.cpp
index 15e85b9..84bb54b 100644
--- a/track_odometry/src/track_odometry.cpp
+++ b/track_odometry/src/track_odometry.cpp
@@ -27,6 +27,7 @@
  * POSSIBILITY OF SUCH DAMAGE.
  */
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <memory>
@@ -272,7 +273,7 @@ private:
 
       odom.pose.pose.position = toPoint(toEigen(odom_prev_.pose.pose.position) + v);
       if (z_filter_timeconst_ > 0)
-        odom.pose.pose.position.z *= 1.0 - (dt / z_filter_timeconst_);
+        odom.pose.pose.position.z *= 1.0 - std::min(1.0, std::max(0.0, dt / z_filter_timeconst_));
 
       odom.child_frame_id = base_link_id_;
       pub_odom_.publish(odom);
-- 
2.43.0


From 8581938b679ac61ed2ef6622120879d8e55009c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:10 +0000
Subject: [PATCH 38/58] fix: track_odometry: bound the decay of the estimated
 slip

The estimated slip is meant to decay to zero, but after a gap in the odometry
it overshot (-x * dt * tc), inverted and scaled the motion. Stamps going back
amplified it and made its sigma negative.
---
 track_odometry/src/track_odometry.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/track_odometry/src/track_odometry.cpp b/track_odometry/src/track_odometry.cpp
index 84bb54b..62b0c20 100644
--- a/track_odometry/src/track_odometry.cpp
+++ b/track_odometry/src/track_odometry.cpp
@@ -233,7 +233,9 @@ private:
       if (w_imu * w_odom < 0 && !negative_slip_)
         w_imu = w_odom;
 
-      slip_.predict(-slip_.x_ * dt * predict_filter_tc_, dt * sigma_predict_);
+      const double dt_predict = std::max(0.0, dt);
+      slip_.predict(
+          -slip_.x_ * std::min(1.0, dt_predict * predict_filter_tc_), dt_predict * sigma_predict_);
       if (std::abs(w_odom) > sigma_odom_ * 3)
       {
         // non-kf mode: calculate slip_ratio if angular vel < 3*sigma
-- 
2.43.0


From b2285e77c0478b29bd81d09575b82073263641aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:11 +0000
Subject: [PATCH 39/58] fix: track_odometry: keep the estimated slip finite
 without odometry noise

With sigma_odom 0, a robot going straight divided zero by zero and all the
following odometry was NaN. Two exact values (both sigmas zero) did the same.
---
 track_odometry/include/track_odometry/kalman_filter1.h | 2 ++
 track_odometry/src/track_odometry.cpp                  | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/track_odometry/include/track_odometry/kalman_filter1.h b/track_odometry/include/track_odometry/kalman_filter1.h
index 5aad66a..568021f 100644
--- a/track_odometry/include/track_odometry/kalman_filter1.h
+++ b/track_odometry/include/track_odometry/kalman_filter1.h
@@ -69,6 +69,8 @@ public:
       sigma_ = sigma_in;
       return;
     }
+    if (sigma_ == 0.0 && sigma_in == 0.0)
+      return;
     double kt = sigma_ * sigma_ / (sigma_ * sigma_ + sigma_in * sigma_in);
     x_ = x_ + kt * (x_in - x_);
     sigma_ = (1.0 - kt) * sigma_;
diff --git a/track_odometry/src/track_odometry.cpp b/track_odometry/src/track_odometry.cpp
index 62b0c20..d614bce 100644
--- a/track_odometry/src/track_odometry.cpp
+++ b/track_odometry/src/track_odometry.cpp
@@ -246,7 +246,7 @@ private:
           (w_odom - w_imu) / (w_odom * std::abs(w_odom));
       double slip_ratio_per_angvel_sigma =
           sigma_odom_ * std::abs(2.0 * w_odom * sigma_odom_ / std::pow(w_odom * w_odom - sigma_odom_ * sigma_odom_, 2));
-      if (std::abs(w_odom) < sigma_odom_)
+      if (std::abs(w_odom) <= sigma_odom_)
         slip_ratio_per_angvel_sigma = std::numeric_limits<double>::infinity();
 
       slip_.measure(slip_ratio_per_angvel, slip_ratio_per_angvel_sigma);
-- 
2.43.0


From b09d0830468c7d01238f822c4697a9e8973da84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:55 +0000
Subject: [PATCH 40/58] fix: pose_transform: construct the node

`PoseTransformNode ptn();` declares a function; the node subscribed to nothing
and no pose was ever transformed.
---
 map_organizer/src/pose_transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/map_organizer/src/pose_transform.cpp b/map_organizer/src/pose_transform.cpp
index b80ca92..a702487 100644
--- a/map_organizer/src/pose_transform.cpp
+++ b/map_organizer/src/pose_transform.cpp
@@ -94,7 +94,7 @@ int main(int argc, char** argv)
 {
   ros::init(argc, argv, "pose_transform");
 
-  PoseTransformNode ptn();
+  PoseTransformNode ptn;
   ros::spin();
 
   return 0;
-- 
2.43.0


From c0b4998139a45372ce148a63124ed184afaf3d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:55 +0000
Subject: [PATCH 41/58] fix: select_map: publish the selected floor of a new
 map array

The selected map was published only when the floor number changed. After
receiving a new map array, the map (and height) of the previous array stayed, and
a floor selected before its map array was received was never published.
---
 map_organizer/src/select_map.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/map_organizer/src/select_map.cpp b/map_organizer/src/select_map.cpp
index eb1be48..97363d7 100644
--- a/map_organizer/src/select_map.cpp
+++ b/map_organizer/src/select_map.cpp
@@ -41,6 +41,7 @@
 map_organizer_msgs::OccupancyGridArray maps;
 std::vector<nav_msgs::MapMetaData> orig_mapinfos;
 int floor_cur = 0;
+bool maps_updated = false;
 
 void cbMaps(const map_organizer_msgs::OccupancyGridArray::Ptr& msg)
 {
@@ -52,6 +53,7 @@ void cbMaps(const map_organizer_msgs::OccupancyGridArray::Ptr& msg)
     orig_mapinfos.push_back(map.info);
     map.info.origin.position.z = 0.0;
   }
+  maps_updated = true;
 }
 void cbFloor(const std_msgs::Int32::Ptr& msg)
 {
@@ -91,7 +93,7 @@ int main(int argc, char** argv)
     if (maps.maps.size() == 0)
       continue;
 
-    if (floor_cur != floor_prev)
+    if (floor_cur != floor_prev || maps_updated)
     {
       if (floor_cur >= 0 && floor_cur < static_cast<int>(maps.maps.size()))
       {
@@ -103,6 +105,7 @@ int main(int argc, char** argv)
         ROS_INFO("Floor out of range");
       }
       floor_prev = floor_cur;
+      maps_updated = false;
     }
     trans.header.stamp = ros::Time::now() + ros::Duration(0.15);
     tfb.sendTransform(trans);
-- 
2.43.0


From 1efa55413fb61bcf1bb5092a72e09b4c20c6f905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:55 +0000
Subject: [PATCH 42/58] fix: save_maps: don't crash if the metadata file can't
 be opened

---
 map_organizer/src/save_maps.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/map_organizer/src/save_maps.cpp b/map_organizer/src/save_maps.cpp
index 76eadb9..389be37 100644
--- a/map_organizer/src/save_maps.cpp
+++ b/map_organizer/src/save_maps.cpp
@@ -118,6 +118,11 @@ public:
     std::string mapmetadatafile = mapname_ + std::to_string(floor) + ".yaml";
     ROS_INFO("Writing map occupancy data to %s", mapmetadatafile.c_str());
     FILE* yaml = fopen(mapmetadatafile.c_str(), "w");
+    if (!yaml)
+    {
+      ROS_ERROR("Couldn't save map metadata file to %s", mapmetadatafile.c_str());
+      return;
+    }
 
     geometry_msgs::Quaternion orientation = map->info.origin.orientation;
     tf2::Matrix3x3 mat(tf2::Quaternion(orientation.x, orientation.y, orientation.z, orientation.w));
-- 
2.43.0


From d0b07a0b8b688b705fc5a7d63f3e3ecc93c47894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:55 +0000
Subject: [PATCH 43/58] fix: save_maps: write the image path relative to the
 metadata file

tie_maps (and map_server) takes a relative image path as relative to the
directory of the metadata file, so maps saved by `-f dir/name` couldn't be loaded.
---
 map_organizer/src/save_maps.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/map_organizer/src/save_maps.cpp b/map_organizer/src/save_maps.cpp
index 389be37..dfff69f 100644
--- a/map_organizer/src/save_maps.cpp
+++ b/map_organizer/src/save_maps.cpp
@@ -129,10 +129,15 @@ public:
     double yaw, pitch, roll;
     mat.getEulerYPR(yaw, pitch, roll);
 
+    // Relative path of the image is relative to the directory of the metadata file
+    std::string image = mapdatafile;
+    if (image[0] != '/')
+      image = image.substr(image.rfind('/') + 1);
+
     fprintf(yaml, "image: %s\nresolution: %f\n"
                   "origin: [%f, %f, %f]\nheight: %f\n"
                   "negate: 0\noccupied_thresh: 0.65\nfree_thresh: 0.196\n\n",
-            mapdatafile.c_str(), map->info.resolution,
+            image.c_str(), map->info.resolution,
             map->info.origin.position.x, map->info.origin.position.y, yaw, map->info.origin.position.z);
 
     fclose(yaml);
-- 
2.43.0


From 8cebc7dbbbfac6ec90bc733efb9297d01b140729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:31 +0000
Subject: [PATCH 44/58] fix: pointcloud_to_maps: put points of negative
 coordinates to their cells

Truncation toward zero moved points of negative coordinates by one cell (partly
outside of the map) and joined the cells on both sides of the origin.
---
 map_organizer/src/pointcloud_to_maps.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/map_organizer/src/pointcloud_to_maps.cpp b/map_organizer/src/pointcloud_to_maps.cpp
index 7bad9fe..16faf94 100644
--- a/map_organizer/src/pointcloud_to_maps.cpp
+++ b/map_organizer/src/pointcloud_to_maps.cpp
@@ -105,8 +105,8 @@ public:
     for (const auto& p : pc->points)
     {
       const int h = (p.z / grid);
-      const int x = (p.x / grid);
-      const int y = (p.y / grid);
+      const int x = std::floor(p.x / grid);
+      const int y = std::floor(p.y / grid);
       if (x_min > x)
         x_min = x;
       if (y_min > y)
@@ -156,8 +156,8 @@ public:
       {
         for (auto& p : pc->points)
         {
-          const int x = (p.x / grid);
-          const int y = (p.y / grid);
+          const int x = std::floor(p.x / grid);
+          const int y = std::floor(p.y / grid);
           const int z = (p.z / grid);
           const auto v = std::pair<int, int>(x, y);
 
-- 
2.43.0


From 9e53b87589b1b6fdad653903c54f84c10f6c303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:31 +0000
Subject: [PATCH 45/58] fix: pointcloud_to_maps: get the layer of a floor from
 its height by rounding

Due to the truncation, the area of a floor at e.g. 2.95 m was taken from the next
layer, and the floor was skipped.
---
 map_organizer/src/pointcloud_to_maps.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/map_organizer/src/pointcloud_to_maps.cpp b/map_organizer/src/pointcloud_to_maps.cpp
index 16faf94..9215b83 100644
--- a/map_organizer/src/pointcloud_to_maps.cpp
+++ b/map_organizer/src/pointcloud_to_maps.cpp
@@ -229,8 +229,8 @@ public:
     auto it_prev = maps.rbegin();
     for (auto it = maps.rbegin() + 1; it != maps.rend() && it_prev != maps.rend(); it++)
     {
-      const int h = it->info.origin.position.z / grid;
-      const int h_prev = it_prev->info.origin.position.z / grid;
+      const int h = std::lround(it->info.origin.position.z / grid);
+      const int h_prev = std::lround(it_prev->info.origin.position.z / grid);
       if (std::abs(it_prev->info.origin.position.z - it->info.origin.position.z) < grid * 1.5)
       {
         // merge slopes
@@ -280,7 +280,7 @@ public:
     for (auto& map : maps)
     {
       num++;
-      int h = map.info.origin.position.z / grid;
+      const int h = std::lround(map.info.origin.position.z / grid);
       if (floor_runnable_area[h] < min_floor_area)
       {
         ROS_WARN("floor %d (%5.2fm^2), h = %0.2fm skipped",
-- 
2.43.0


From 37f32509958bb5a7320de455aa2351f495b5ce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:31 +0000
Subject: [PATCH 46/58] fix: pointcloud_to_maps: ignore invalid points

A point with NaN made the size of the map overflow, and the node died allocating it.
---
 map_organizer/src/pointcloud_to_maps.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/map_organizer/src/pointcloud_to_maps.cpp b/map_organizer/src/pointcloud_to_maps.cpp
index 9215b83..5aee246 100644
--- a/map_organizer/src/pointcloud_to_maps.cpp
+++ b/map_organizer/src/pointcloud_to_maps.cpp
@@ -27,6 +27,7 @@
  * POSSIBILITY OF SUCH DAMAGE.
  */
 
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include <limits>
@@ -73,6 +74,14 @@ public:
   {
     pcl::PointCloud<pcl::PointXYZ>::Ptr pc(new pcl::PointCloud<pcl::PointXYZ>());
     pcl::fromROSMsg(*msg, *pc);
+    pc->points.erase(
+        std::remove_if(
+            pc->points.begin(), pc->points.end(),
+            [](const pcl::PointXYZ& p)
+            {
+              return !std::isfinite(p.x) || !std::isfinite(p.y) || !std::isfinite(p.z);
+            }),
+        pc->points.end());
 
     double grid;
     int min_points;
-- 
2.43.0


From 9c31714c517db22a22483f01be6bafc86a5d6835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:31 +0000
Subject: [PATCH 47/58] fix: tie_maps: publish all the maps or none

Maps were published one by one while loading. If a following file was missing or
broken, the preceding maps had already been published, and an exception not
caught (missing tag, syntax error, broken image) aborted the node.
---
 map_organizer/src/tie_maps.cpp | 55 ++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/map_organizer/src/tie_maps.cpp b/map_organizer/src/tie_maps.cpp
index 849e183..a8cfcc2 100644
--- a/map_organizer/src/tie_maps.cpp
+++ b/map_organizer/src/tie_maps.cpp
@@ -36,6 +36,7 @@
 #include <libgen.h>
 #include <fstream>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -80,7 +81,6 @@ public:
     pnh_.param("map_files", files_str, std::string(""));
     pnh_.param("frame_id", frame_id, std::string("map"));
 
-    int i = 0;
     std::string file;
     std::stringstream ss(files_str);
     while (std::getline(ss, file, ','))
@@ -92,19 +92,28 @@ public:
         ros::shutdown();
         return;
       }
+      YAML::Node doc;
+      try
+      {
 #ifdef HAVE_NEW_YAMLCPP
-      // The document loading process changed in yaml-cpp 0.5.
-      YAML::Node doc = YAML::Load(fin);
+        // The document loading process changed in yaml-cpp 0.5.
+        doc = YAML::Load(fin);
 #else
-      YAML::Parser parser(fin);
-      YAML::Node doc;
-      parser.GetNextDocument(doc);
+        YAML::Parser parser(fin);
+        parser.GetNextDocument(doc);
 #endif
+      }
+      catch (YAML::Exception& e)
+      {
+        ROS_ERROR("Failed to parse %s: %s", file.c_str(), e.what());
+        ros::shutdown();
+        return;
+      }
       try
       {
         doc["resolution"] >> res;
       }
-      catch (YAML::InvalidScalar& e)
+      catch (YAML::Exception& e)
       {
         ROS_ERROR("The map does not contain a resolution tag or it is invalid: %s", e.what());
         ros::shutdown();
@@ -114,7 +123,7 @@ public:
       {
         doc["negate"] >> negate;
       }
-      catch (YAML::InvalidScalar& e)
+      catch (YAML::Exception& e)
       {
         ROS_ERROR("The map does not contain a negate tag or it is invalid: %s", e.what());
         ros::shutdown();
@@ -124,7 +133,7 @@ public:
       {
         doc["occupied_thresh"] >> occ_th;
       }
-      catch (YAML::InvalidScalar& e)
+      catch (YAML::Exception& e)
       {
         ROS_ERROR("The map does not contain an occupied_thresh tag or it is invalid: %s", e.what());
         ros::shutdown();
@@ -134,7 +143,7 @@ public:
       {
         doc["free_thresh"] >> free_th;
       }
-      catch (YAML::InvalidScalar& e)
+      catch (YAML::Exception& e)
       {
         ROS_ERROR("The map does not contain a free_thresh tag or it is invalid: %s", e.what());
         ros::shutdown();
@@ -154,7 +163,8 @@ public:
         else
         {
           ROS_ERROR("Invalid mode tag \"%s\".", modeS.c_str());
-          exit(-1);
+          ros::shutdown();
+          return;
         }
       }
       catch (YAML::Exception& e)
@@ -168,7 +178,7 @@ public:
         doc["origin"][1] >> origin[1];
         doc["origin"][2] >> origin[2];
       }
-      catch (YAML::InvalidScalar& e)
+      catch (YAML::Exception& e)
       {
         ROS_ERROR("The map does not contain an origin tag or it is invalid: %s", e.what());
         ros::shutdown();
@@ -200,7 +210,7 @@ public:
           free(fname_copy);
         }
       }
-      catch (YAML::InvalidScalar& e)
+      catch (YAML::Exception& e)
       {
         ROS_ERROR("The map does not contain an image tag or it is invalid: e.what()");
         ros::shutdown();
@@ -210,8 +220,17 @@ public:
       ROS_INFO("Loading map from image \"%s\"", mapfname.c_str());
 
       nav_msgs::GetMap::Response map_resp;
-      map_server::loadMapFromFile(&map_resp,
-                                  mapfname.c_str(), res, negate, occ_th, free_th, origin, mode);
+      try
+      {
+        map_server::loadMapFromFile(&map_resp,
+                                    mapfname.c_str(), res, negate, occ_th, free_th, origin, mode);
+      }
+      catch (std::runtime_error& e)
+      {
+        ROS_ERROR("Failed to load the image: %s", e.what());
+        ros::shutdown();
+        return;
+      }
       map_resp.map.info.origin.position.z = height;
       map_resp.map.info.map_load_time = ros::Time::now();
       map_resp.map.header.frame_id = frame_id;
@@ -221,9 +240,13 @@ public:
                map_resp.map.info.height,
                map_resp.map.info.resolution);
       maps.maps.push_back(map_resp.map);
+    }
+    int i = 0;
+    for (const nav_msgs::OccupancyGrid& map : maps.maps)
+    {
       pub_map_.push_back(nh_.advertise<nav_msgs::OccupancyGrid>(
           "map" + std::to_string(i), 1, true));
-      pub_map_.back().publish(map_resp.map);
+      pub_map_.back().publish(map);
       i++;
     }
     pub_map_array_.publish(maps);
-- 
2.43.0


From 2394f1e1ad2d4b60111dccb526dd3e7c58a4d980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:49 +0000
Subject: [PATCH 48/58] fix: tie_maps: don't die on a read error of a map file

---
 map_organizer/src/tie_maps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/map_organizer/src/tie_maps.cpp b/map_organizer/src/tie_maps.cpp
index a8cfcc2..3515b53 100644
--- a/map_organizer/src/tie_maps.cpp
+++ b/map_organizer/src/tie_maps.cpp
@@ -103,7 +103,7 @@ public:
         parser.GetNextDocument(doc);
 #endif
       }
-      catch (YAML::Exception& e)
+      catch (std::runtime_error& e)  // YAML::Exception, or std::ios_base::failure on a read error
       {
         ROS_ERROR("Failed to parse %s: %s", file.c_str(), e.what());
         ros::shutdown();
-- 
2.43.0


From 92c9f5b766f3ace6feeffc13ff4c5d88f1069b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:11 +0000
Subject: [PATCH 49/58] fix: patrol: don't get stuck by a late cancel or a
 restart of the action server

---
 planner_cspace/src/patrol.cpp | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/planner_cspace/src/patrol.cpp b/planner_cspace/src/patrol.cpp
index a095e6b..9ac7f82 100644
--- a/planner_cspace/src/patrol.cpp
+++ b/planner_cspace/src/patrol.cpp
@@ -53,6 +53,7 @@ protected:
 
   nav_msgs::Path path_;
   size_t pos_;
+  bool server_lost_;
   bool with_tolerance_;
   double tolerance_lin_;
   double tolerance_ang_;
@@ -60,20 +61,23 @@ protected:
 
   void cbPath(const nav_msgs::Path::ConstPtr& msg)
   {
-    if (path_.poses.size() > 0)
+    if (path_.poses.size() > 0 && pos_ > 0)
     {
-      // Cancel previous patrol if stored
+      // Cancel previous patrol if stored.
+      // Only the goal sent by this node is cancelled since canceling all the goals
+      // may also cancel the first goal of the new path.
       if (with_tolerance_)
       {
-        act_cli_tolerant_->cancelAllGoals();
+        act_cli_tolerant_->cancelGoal();
       }
       else
       {
-        act_cli_->cancelAllGoals();
+        act_cli_->cancelGoal();
       }
     }
     path_ = *msg;
     pos_ = 0;
+    server_lost_ = false;
   }
 
 public:
@@ -101,6 +105,13 @@ public:
     }
 
     pos_ = 0;
+    server_lost_ = false;
+  }
+  bool isServerConnected() const
+  {
+    return with_tolerance_ ?
+               act_cli_tolerant_->isServerConnected() :
+               act_cli_->isServerConnected();
   }
   bool sendNextGoal()
   {
@@ -153,6 +164,14 @@ public:
         continue;
       }
 
+      if (!isServerConnected())
+      {
+        ROS_WARN_THROTTLE(1.0, "Action server is not ready.");
+        // The goal sent to the server which has gone will never finish.
+        server_lost_ = pos_ > 0;
+        continue;
+      }
+
       if (pos_ == 0)
       {
         sendNextGoal();
@@ -173,10 +192,13 @@ public:
         ROS_ERROR("Action has been aborted. Skipping.");
         sendNextGoal();
       }
-      else if (state == actionlib::SimpleClientGoalState::LOST)
+      else if (state == actionlib::SimpleClientGoalState::LOST || (server_lost_ && !state.isDone()))
       {
-        ROS_WARN_ONCE("Action server is not ready.");
+        ROS_WARN("Action server lost the goal. Sending it again.");
+        pos_--;
+        sendNextGoal();
       }
+      server_lost_ = false;
     }
   }
 };
-- 
2.43.0


From 777eddf81894719cf91ccbdf4dc238976eccacd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:40 +0000
Subject: [PATCH 50/58] fix: joystick_mux: advertise the output under the names
 the inputs use

The compatibility level was read again when the first message came, so
that a parameter changed in between mixed old and new names.
---
 joystick_interrupt/src/joystick_mux.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/joystick_interrupt/src/joystick_mux.cpp b/joystick_interrupt/src/joystick_mux.cpp
index 78c3cb1..da36b2e 100644
--- a/joystick_interrupt/src/joystick_mux.cpp
+++ b/joystick_interrupt/src/joystick_mux.cpp
@@ -47,6 +47,7 @@ private:
   int interrupt_button_;
   ros::Time last_joy_msg_;
   bool advertised_;
+  int compat_;
   int selected_;
 
   void cbJoy(const sensor_msgs::Joy::Ptr msg)
@@ -76,8 +77,7 @@ private:
       if (!advertised_)
       {
         advertised_ = true;
-        if (neonavigation_common::compat::getCompat() !=
-            neonavigation_common::compat::current_level)
+        if (compat_ != neonavigation_common::compat::current_level)
         {
           ROS_ERROR(
               "Use %s (%s%s) topic instead of %s (%s%s)",
@@ -111,6 +111,7 @@ public:
     , pnh_("~")
   {
     neonavigation_common::compat::checkCompatMode();
+    compat_ = neonavigation_common::compat::getCompat();
     sub_joy_ = nh_.subscribe("joy", 1, &JoystickMux::cbJoy, this);
     sub_topics_[0] = neonavigation_common::compat::subscribe<topic_tools::ShapeShifter>(
         nh_, "mux_input0",
-- 
2.43.0


From e33ccf6c646d7764360784d2924a27fc95f791a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:03 +0000
Subject: [PATCH 51/58] fix: planner_2dof_serial_joints: ignore malformed
 messages

Messages without points or with fewer positions than names were read out
of bounds, non-finite positions were planned to, and a message which was
not accepted changed the indices of the joints of the accepted one: it
stopped the replanning, or made it plan to the position of the other
joint. The request for (0, 0) was ignored if it was the first one.
---
 .../src/planner_2dof_serial_joints.cpp        | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index eef5db9..96709a3 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -177,6 +177,14 @@ private:
       ROS_ERROR("joint_state does not contain link group %s.", group_.c_str());
       return;
     }
+    for (int i = 0; i < 2; i++)
+    {
+      if (static_cast<size_t>(id[i]) >= msg->position.size() || !std::isfinite(msg->position[id[i]]))
+      {
+        ROS_ERROR("joint_state does not contain valid positions of link group %s.", group_.c_str());
+        return;
+      }
+    }
     links_[0].current_th_ = msg->position[id[0]];
     links_[1].current_th_ = msg->position[id[1]];
     has_joint_states_ = true;
@@ -193,16 +201,15 @@ private:
   int id_[2];
   void cbTrajectory(const trajectory_msgs::JointTrajectory::ConstPtr& msg)
   {
-    id_[0] = -1;
-    id_[1] = -1;
+    int id[2] = {-1, -1};
     for (size_t i = 0; i < msg->joint_names.size(); i++)
     {
       if (msg->joint_names[i].compare(links_[0].name_) == 0)
-        id_[0] = i;
+        id[0] = i;
       else if (msg->joint_names[i].compare(links_[1].name_) == 0)
-        id_[1] = i;
+        id[1] = i;
     }
-    if (id_[0] == -1 || id_[1] == -1)
+    if (id[0] == -1 || id[1] == -1)
     {
       ROS_ERROR("joint_trajectory does not contains link group %s.", group_.c_str());
       return;
@@ -210,15 +217,28 @@ private:
     if (msg->points.size() != 1)
     {
       ROS_ERROR("single trajectory point required.");
+      return;
+    }
+    for (int i = 0; i < 2; i++)
+    {
+      if (static_cast<size_t>(id[i]) >= msg->points[0].positions.size() ||
+          !std::isfinite(msg->points[0].positions[id[i]]))
+      {
+        ROS_ERROR("joint_trajectory does not contain valid positions of link group %s.", group_.c_str());
+        return;
+      }
     }
     decltype(cmd_prev_) cmd;
     cmd.first = msg->points[0].time_from_start;
-    cmd.second.first = msg->points[0].positions[id_[0]];
-    cmd.second.second = msg->points[0].positions[id_[1]];
-    if (cmd_prev_ == cmd)
+    cmd.second.first = msg->points[0].positions[id[0]];
+    cmd.second.second = msg->points[0].positions[id[1]];
+    const bool has_cmd_prev = id_[0] != -1 && id_[1] != -1;
+    if (has_cmd_prev && cmd_prev_ == cmd)
       return;
     cmd_prev_ = cmd;
     traj_prev_ = *msg;
+    id_[0] = id[0];
+    id_[1] = id[1];
     avg_vel_ = -1.0;
 
     replan();
-- 
2.43.0


From 265c3c3c64d04e5a390029588ebb8eb4864b4cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:03 +0000
Subject: [PATCH 52/58] fix: planner_2dof_serial_joints: don't die if the
 request is already reached

The average velocity became zero and the time of the trajectory infinite,
which ros::Duration doesn't accept.
---
 planner_cspace/src/planner_2dof_serial_joints.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index 96709a3..ecab705 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -288,7 +288,9 @@ private:
             pos_sum += diff_max;
           }
         }
-        if (traj_prev_.points[0].time_from_start <= ros::Duration(0))
+        // The time can't be respected if there is almost nothing to move
+        const float pos_sum_min = 1e-3 * 2.0 * M_PI / resolution_;
+        if (traj_prev_.points[0].time_from_start <= ros::Duration(0) || pos_sum < pos_sum_min)
         {
           avg_vel_ = std::min(links_[0].vmax_, links_[1].vmax_);
         }
-- 
2.43.0


From b1d9b0a64dfd751fdee3fcff3480dec10c78d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:03 +0000
Subject: [PATCH 53/58] fix: planner_2dof_serial_joints: plan if replanning is
 disabled by zero interval

Zero replan_interval was also used as the time limit of the search and
every search was aborted at once.
---
 planner_cspace/src/planner_2dof_serial_joints.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index ecab705..26b0270 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -604,7 +604,7 @@ private:
     std::list<Astar::Vec> path_grid;
     // const auto ts = std::chrono::high_resolution_clock::now();
     float cancel = std::numeric_limits<float>::max();
-    if (replan_interval_ >= ros::Duration(0))
+    if (replan_interval_ > ros::Duration(0))
       cancel = replan_interval_.toSec();
     if (!as_.search(
             starts, e, path_grid, model_,
-- 
2.43.0


From e11c903aa6a4be0d3f577e503ff17b1a72c9d174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:03 +0000
Subject: [PATCH 54/58] fix: planner_2dof_serial_joints: don't read out of the
 costmap beyond one turn

---
 .../src/planner_2dof_serial_joints.cpp           | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index 26b0270..343f4f5 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -573,13 +573,19 @@ private:
     ROS_INFO("Planning from (%d, %d) to (%d, %d)",
              s[0], s[1], e[0], e[1]);
 
-    if (cm_[s] == 100)
+    // Costmap is cyclic
+    Astar::Vec s_cyclic = s;
+    Astar::Vec e_cyclic = e;
+    s_cyclic.cycleUnsigned(resolution_ * 2, resolution_ * 2);
+    e_cyclic.cycleUnsigned(resolution_ * 2, resolution_ * 2);
+
+    if (cm_[s_cyclic] == 100)
     {
       ROS_WARN("Path plan failed (current status is in collision)");
       status_.error = planner_cspace_msgs::PlannerStatus::PATH_NOT_FOUND;
       return false;
     }
-    if (cm_[e] == 100)
+    if (cm_[e_cyclic] == 100)
     {
       ROS_WARN("Path plan failed (goal status is in collision)");
       status_.error = planner_cspace_msgs::PlannerStatus::PATH_NOT_FOUND;
@@ -589,9 +595,9 @@ private:
     d.cycle(resolution_, resolution_);
 
     std::vector<Astar::VecWithCost> starts;
-    starts.emplace_back(s);
+    starts.emplace_back(s_cyclic);
 
-    if (model_->cost(s, e, starts, e) >= model_->euclidCost(d))
+    if (model_->cost(s_cyclic, e_cyclic, starts, e_cyclic) >= model_->euclidCost(d))
     {
       path.push_back(sg);
       path.push_back(eg);
@@ -607,7 +613,7 @@ private:
     if (replan_interval_ > ros::Duration(0))
       cancel = replan_interval_.toSec();
     if (!as_.search(
-            starts, e, path_grid, model_,
+            starts, e_cyclic, path_grid, model_,
             std::bind(&Planner2dofSerialJointsNode::cbProgress, this, std::placeholders::_1, std::placeholders::_2),
             0, cancel, true))
     {
-- 
2.43.0


From a4c67dc2f860436a4e817b18f4727e2bf279f9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:03 +0000
Subject: [PATCH 55/58] fix: planner_2dof_serial_joints: check the way which is
 really taken

The direct trajectory was chosen if the shortest way around was free of
collision, but it doesn't cross +-pi and passes the other way around.
---
 .../src/planner_2dof_serial_joints.cpp        | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index 343f4f5..8e22614 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -565,6 +565,22 @@ private:
   {
     metric2Grid(t[0], t[1], gt[0], gt[1]);
   }
+  bool isStraightPathFree(const Astar::Vecf& sg, const Astar::Vecf& eg)
+  {
+    const float prec = 2.0 * M_PI / resolution_;
+    const float dist = std::max(std::abs(eg[0] - sg[0]), std::abs(eg[1] - sg[1]));
+    const int num = std::ceil(dist / prec) * 2 + 1;
+    for (int i = 0; i <= num; ++i)
+    {
+      const float ratio = static_cast<float>(i) / num;
+      Astar::Vec p;
+      metric2Grid(p, Astar::Vecf(sg[0] + (eg[0] - sg[0]) * ratio, sg[1] + (eg[1] - sg[1]) * ratio));
+      p.cycleUnsigned(resolution_, resolution_);
+      if (cm_[p] == 100)
+        return false;
+    }
+    return true;
+  }
   bool makePlan(const Astar::Vecf sg, const Astar::Vecf eg, std::list<Astar::Vecf>& path)
   {
     Astar::Vec s, e;
@@ -597,7 +613,8 @@ private:
     std::vector<Astar::VecWithCost> starts;
     starts.emplace_back(s_cyclic);
 
-    if (model_->cost(s_cyclic, e_cyclic, starts, e_cyclic) >= model_->euclidCost(d))
+    if (model_->cost(s_cyclic, e_cyclic, starts, e_cyclic) >= model_->euclidCost(d) &&
+        isStraightPathFree(sg, eg))
     {
       path.push_back(sg);
       path.push_back(eg);
-- 
2.43.0


From 41464fe7a0d72dd8c371fde0aec69102ccb7c258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:52 +0000
Subject: [PATCH 56/58] fix: planner_2dof_serial_joints: don't die if
 replanning is disabled by negative interval

---
 planner_cspace/src/planner_2dof_serial_joints.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index 8e22614..69ba54e 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -189,9 +189,9 @@ private:
     links_[1].current_th_ = msg->position[id[1]];
     has_joint_states_ = true;
 
-    if ((replan_prev_ + replan_interval_ < ros::Time::now() ||
-         replan_prev_ == ros::Time(0)) &&
-        replan_interval_ > ros::Duration(0))
+    if (replan_interval_ > ros::Duration(0) &&
+        (replan_prev_ == ros::Time(0) ||
+         replan_prev_ + replan_interval_ < ros::Time::now()))
     {
       replan();
     }
-- 
2.43.0


From 62705f1d63c34cfbe64a1ba447656e4e5d67a4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:59 +0000
Subject: [PATCH 57/58] fix: planner_2dof_serial_joints: find the path if only
 whole turns are left

The search returns no path if the start is the goal.
---
 planner_cspace/src/planner_2dof_serial_joints.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index 69ba54e..0ec9cf0 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -624,6 +624,16 @@ private:
       }
       return true;
     }
+    if (s_cyclic == e_cyclic)
+    {
+      // Already there except for whole turns
+      Astar::Vecf egp = eg;
+      for (int i = 0; i < 2; i++)
+        egp[i] -= std::round((eg[i] - sg[i]) / (2.0 * M_PI)) * 2.0 * M_PI;
+      path.push_back(sg);
+      path.push_back(egp);
+      return true;
+    }
     std::list<Astar::Vec> path_grid;
     // const auto ts = std::chrono::high_resolution_clock::now();
     float cancel = std::numeric_limits<float>::max();
-- 
2.43.0


From a23ae0b6cb14356fe7acbe98a510d0f555d108c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:08 +0000
Subject: [PATCH 58/58] fix: obj_to_pointcloud: stop if the OBJ file cannot be
 read

---
 obj_to_pointcloud/src/obj_to_pointcloud.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/obj_to_pointcloud/src/obj_to_pointcloud.cpp b/obj_to_pointcloud/src/obj_to_pointcloud.cpp
index 7482885..7980a25 100644
--- a/obj_to_pointcloud/src/obj_to_pointcloud.cpp
+++ b/obj_to_pointcloud/src/obj_to_pointcloud.cpp
@@ -166,7 +166,8 @@ private:
       }
       else if (ext == "obj")
       {
-        if (pcl::io::loadPolygonFileOBJ(file, *mesh) == -1)
+        // The number of the polygons is returned, 0 if the file could not be read.
+        if (pcl::io::loadPolygonFileOBJ(file, *mesh) <= 0)
         {
           ROS_ERROR("Failed to load OBJ file");
           ros::shutdown();
-- 
2.43.0

