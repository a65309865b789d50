From 4acff17feee98f538d2076ea0783fd901652f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 01/39] fix: field-of-view tests never matched views containing
 the +-180 degree direction

---
 avoidance/src/common.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index 9a8e21a..abf31a2 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -18,9 +18,8 @@ bool pointInsideFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol) {
 }
 
 bool pointInsideFOV(const FOV& fov, const PolarPoint& p_pol) {
-  return p_pol.z <= wrapAngleToPlusMinus180(fov.yaw_deg + fov.h_fov_deg / 2.f) &&
-         p_pol.z >= wrapAngleToPlusMinus180(fov.yaw_deg - fov.h_fov_deg / 2.f) &&
-         p_pol.e <= fov.pitch_deg + fov.v_fov_deg / 2.f && p_pol.e >= fov.pitch_deg - fov.v_fov_deg / 2.f;
+  return pointInsideYawFOV(fov, p_pol) && p_pol.e <= fov.pitch_deg + fov.v_fov_deg / 2.f &&
+         p_pol.e >= fov.pitch_deg - fov.v_fov_deg / 2.f;
 }
 
 bool histogramIndexYawInsideFOV(const std::vector<FOV>& fov_vec, const int idx, Eigen::Vector3f position,
@@ -64,8 +63,8 @@ bool pointInsideYawFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol)
 }
 
 bool pointInsideYawFOV(const FOV& fov, const PolarPoint& p_pol) {
-  return p_pol.z <= wrapAngleToPlusMinus180(fov.yaw_deg + fov.h_fov_deg / 2.f) &&
-         p_pol.z >= wrapAngleToPlusMinus180(fov.yaw_deg - fov.h_fov_deg / 2.f);
+  // compare the offset from the center, such that the test also works for FOVs containing the +-180 deg direction
+  return std::abs(wrapAngleToPlusMinus180(p_pol.z - fov.yaw_deg)) <= fov.h_fov_deg / 2.f;
 }
 
 bool isInWhichFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol, int& idx) {
-- 
2.43.0


From 5bf4517af1fbe1274bb79f706586fe929bf8f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:54 +0000
Subject: [PATCH 02/39] fix: do not access the top of an empty queue when zero
 candidates are requested

---
 local_planner/src/nodes/planner_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/planner_functions.cpp b/local_planner/src/nodes/planner_functions.cpp
index 19560c9..c48c14f 100644
--- a/local_planner/src/nodes/planner_functions.cpp
+++ b/local_planner/src/nodes/planner_functions.cpp
@@ -240,7 +240,7 @@ void getBestCandidatesFromCostMatrix(const Eigen::MatrixXf& matrix, unsigned int
 
       if (queue.size() < number_of_candidates) {
         queue.push(candidate);
-      } else if (candidate < queue.top()) {
+      } else if (!queue.empty() && candidate < queue.top()) {
         queue.push(candidate);
         queue.pop();
       }
-- 
2.43.0


From d0a7ff12259621e5283679f5e77bf0e4b2bd7f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:35 +0000
Subject: [PATCH 03/39] fix: keep the pitch cost finite when the vehicle is at
 the goal

---
 local_planner/src/nodes/planner_functions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/planner_functions.cpp b/local_planner/src/nodes/planner_functions.cpp
index c48c14f..e25b7c6 100644
--- a/local_planner/src/nodes/planner_functions.cpp
+++ b/local_planner/src/nodes/planner_functions.cpp
@@ -354,7 +354,8 @@ std::pair<float, float> costFunction(const PolarPoint& candidate_polar, float ob
       cost_params.pitch_cost_param * (candidate_polar.e - facing_goal.e) * (candidate_polar.e - facing_goal.e);
   // increase the pitch cost starting at 5m from the goal (forcing the drone to goal altitude)
   if (goal_distance < 5.f) {
-    pitch_cost = pitch_cost / ((0.2 * goal_distance) * (0.2 * goal_distance));
+    const float bounded_goal_distance = std::max(goal_distance, 0.01f);  // stay finite at the goal
+    pitch_cost = pitch_cost / ((0.2 * bounded_goal_distance) * (0.2 * bounded_goal_distance));
   }
   const float d = cost_params.obstacle_cost_param - obstacle_distance;
   const float distance_cost = obstacle_distance > 0 ? 5000.0f * (1 + d / sqrt(1 + d * d)) : 0.0f;
-- 
2.43.0


From c2ebcdd1fb9b9bcd1dccada9546c0b9c0050e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:19 +0000
Subject: [PATCH 04/39] fix: keep following the path when exactly at one of its
 inner points

---
 local_planner/src/nodes/planner_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/planner_functions.cpp b/local_planner/src/nodes/planner_functions.cpp
index e25b7c6..aab0867 100644
--- a/local_planner/src/nodes/planner_functions.cpp
+++ b/local_planner/src/nodes/planner_functions.cpp
@@ -381,7 +381,7 @@ bool getSetpointFromPath(const std::vector<Eigen::Vector3f>& path, const ros::Ti
   Eigen::Vector3f path_segment = path[i - 3] - path[i - 2];
   float distance_left = (current_time - path_generation_time).toSec() * velocity;
   setpoint = path[i - 2] + (distance_left / path_segment.norm()) * path_segment;
-  for (i = path.size() - 3; i > 0 && distance_left > path_segment.norm(); --i) {
+  for (i = path.size() - 3; i > 0 && distance_left >= path_segment.norm(); --i) {
     distance_left -= path_segment.norm();
     path_segment = path[i - 1] - path[i];
     setpoint = path[i] + (distance_left / path_segment.norm()) * path_segment;
-- 
2.43.0


From bd08a9f18c39b06d51f4854a9e903dca28fdffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:49 +0000
Subject: [PATCH 05/39] fix: command the hover position when a hover interrupts
 an automatic landing

---
 local_planner/src/nodes/waypoint_generator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/local_planner/src/nodes/waypoint_generator.cpp b/local_planner/src/nodes/waypoint_generator.cpp
index 730168f..0763a0d 100644
--- a/local_planner/src/nodes/waypoint_generator.cpp
+++ b/local_planner/src/nodes/waypoint_generator.cpp
@@ -164,6 +164,7 @@ usm::Transition WaypointGenerator::runLoiter() {
   if (state_changed_ || hover_position_.array().hasNaN()) {
     hover_position_ = position_;
   }
+  auto_land_ = false;  // a landing interrupted by the hover does not set the waypoint any more
   output_.goto_position = hover_position_;
   ROS_DEBUG("[WG] Hover at: [%f, %f, %f].", output_.goto_position.x(), output_.goto_position.y(),
             output_.goto_position.z());
-- 
2.43.0


From 74f03a143a6218c6c0b72cf2478d030f4391ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:00 +0000
Subject: [PATCH 06/39] fix: keep both landing grids the size of a recorded
 grid

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index 66849cf..90fc251 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -55,11 +55,12 @@ void SafeLandingPlanner::processRawGrid() {
   grid_seq_ = raw_grid_.header.seq;
   std::swap(previous_grid_, grid_);
   grid_.reset();
-  grid_.setFilterLimits(position_);
 
   if (grid_.getGridSize() != raw_grid_.grid_size || grid_.getCellSize() != raw_grid_.cell_size) {
     grid_.resize(raw_grid_.grid_size, raw_grid_.cell_size);
+    previous_grid_.resize(raw_grid_.grid_size, raw_grid_.cell_size);
   }
+  grid_.setFilterLimits(position_);
 
   for (int i = 0; i < raw_grid_.mean.layout.dim[0].size; i++) {
     for (int j = 0; j < raw_grid_.mean.layout.dim[1].size; j++) {
-- 
2.43.0


From 830d18f6db2cfaaf99c0f407dbd38bcdf838a3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:00 +0000
Subject: [PATCH 07/39] fix: accept cells without height differences when none
 are tolerated

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index 90fc251..d9a292b 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -123,8 +123,7 @@ void SafeLandingPlanner::isLandingPossible() {
 
     // threshold each cell based on the number of cells in the neighborhood with
     // mean value difference greater than mean_diff_thr_
-    mean_accumulator = (mean_accumulator.array() <= max_n_mean_diff_cells_).select(1, mean_accumulator);
-    mean_accumulator = (mean_accumulator.array() > max_n_mean_diff_cells_).select(0, mean_accumulator);
+    mean_accumulator = (mean_accumulator.array() <= max_n_mean_diff_cells_).cast<int>();
 
     // logical AND between mean_accumulator and land_accumulator
     land_accumulator = mean_accumulator.cwiseProduct(land_accumulator);
-- 
2.43.0


From 69f2aa76326d414a90fea70b5031deb122aac8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:32 +0000
Subject: [PATCH 08/39] fix: do not write outside the landing grid for points
 at its upper border

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index d9a292b..3129eb0 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -148,7 +148,8 @@ Eigen::Vector2i SafeLandingPlanner::computeGridIndexes(float x, float y) {
   grid_.getGridLimits(grid_min, grid_max);
   Eigen::Vector2i idx(static_cast<int>(std::floor((x - grid_min.x()) / grid_.getCellSize())),
                       static_cast<int>(std::floor((y - grid_min.y()) / grid_.getCellSize())));
-  return idx;
+  // rounding can place a point just inside the upper border one cell too far
+  return idx.cwiseMin(grid_.getRowColSize() - 1);
 }
 
 std::pair<float, float> SafeLandingPlanner::computeOnlineMeanVariance(float prev_mean, float prev_variance,
-- 
2.43.0


From 4404cec71a3e98442f424dd6e87b01bf5f5df924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:04 +0000
Subject: [PATCH 09/39] fix: only mark landing setpoints valid when the
 vertical axis is commanded

---
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index bf8887c..8b0f0bb 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -157,7 +157,7 @@ void WaypointGeneratorNode::publishTrajectorySetpoints(const Eigen::Vector3f &po
   bool xy_vel_sp_valid = std::isfinite(setpoint.point_1.velocity.x) && std::isfinite(setpoint.point_1.velocity.y);
 
   if ((xy_pos_sp_valid || xy_vel_sp_valid) &&
-      (std::isfinite(setpoint.point_1.position.z || std::isfinite(setpoint.point_1.velocity.z)))) {
+      (std::isfinite(setpoint.point_1.position.z) || std::isfinite(setpoint.point_1.velocity.z))) {
     setpoint.point_valid = {true, false, false, false, false};
   } else {
     setpoint.point_valid = {false, false, false, false, false};
-- 
2.43.0


From 6607f32d6452b98ebb905169ee2ba76bee794604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:32 +0000
Subject: [PATCH 10/39] fix: neighbourhoods of radius two and more contained
 cells billions of cells away

---
 global_planner/src/library/cell.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/library/cell.cpp b/global_planner/src/library/cell.cpp
index 80aeacb..8f7aaeb 100644
--- a/global_planner/src/library/cell.cpp
+++ b/global_planner/src/library/cell.cpp
@@ -1,5 +1,7 @@
 #include "global_planner/cell.h"
 
+#include <algorithm>  // std::max
+
 namespace global_planner {
 
 Cell::Cell() = default;
@@ -67,7 +69,7 @@ std::vector<Cell> Cell::getFlowNeighbors(int radius) const {
   std::vector<Cell> cells;
   auto ceilDistance = [](int radius, int x, int y) {
     auto sqr = [](int i) { return double(i * i); };
-    return static_cast<int>(std::ceil(std::sqrt(sqr(radius) - sqr(x) - sqr(y))));
+    return static_cast<int>(std::ceil(std::sqrt(std::max(0.0, sqr(radius) - sqr(x) - sqr(y)))));
   };
   for (int x = -radius; x <= radius; x++) {
     int y_radius = ceilDistance(radius, x, 0);
-- 
2.43.0


From b2fb0ab30e083d23b694c586df1dfe922bff19a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:32 +0000
Subject: [PATCH 11/39] fix: apply the configured cell size and edge length in
 the whole planner

---
 global_planner/include/global_planner/cell.h | 2 +-
 global_planner/include/global_planner/node.h | 2 +-
 global_planner/src/library/cell.cpp          | 2 ++
 global_planner/src/library/node.cpp          | 2 ++
 4 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/global_planner/include/global_planner/cell.h b/global_planner/include/global_planner/cell.h
index 5eb30d3..20c62f8 100644
--- a/global_planner/include/global_planner/cell.h
+++ b/global_planner/include/global_planner/cell.h
@@ -11,7 +11,7 @@
 
 namespace global_planner {
 
-static double CELL_SCALE = 1.0;
+extern double CELL_SCALE;  // Size of a cell, shared by all parts of the planner
 
 class Cell {
  public:
diff --git a/global_planner/include/global_planner/node.h b/global_planner/include/global_planner/node.h
index 49c134f..b1a2f06 100644
--- a/global_planner/include/global_planner/node.h
+++ b/global_planner/include/global_planner/node.h
@@ -67,7 +67,7 @@ class NodeWithoutSmooth : public Node {
   double getRotation(const Node& other) const { return 0.0; }
 };
 
-static double SPEEDNODE_RADIUS = 5.0;
+extern double SPEEDNODE_RADIUS;  // Maximum length of an edge, shared by all parts of the planner
 // Node represents 3D position, orientation and speed
 // TODO: Needs to check the risk of Cells between cell and parent
 class SpeedNode : public Node {
diff --git a/global_planner/src/library/cell.cpp b/global_planner/src/library/cell.cpp
index 8f7aaeb..531d8c0 100644
--- a/global_planner/src/library/cell.cpp
+++ b/global_planner/src/library/cell.cpp
@@ -4,6 +4,8 @@
 
 namespace global_planner {
 
+double CELL_SCALE = 1.0;
+
 Cell::Cell() = default;
 Cell::Cell(std::tuple<int, int, int> new_tuple) : tpl_(new_tuple) {}
 Cell::Cell(double x, double y, double z) : tpl_(floor(x / CELL_SCALE), floor(y / CELL_SCALE), floor(z / CELL_SCALE)) {}
diff --git a/global_planner/src/library/node.cpp b/global_planner/src/library/node.cpp
index 6f631f0..de723cb 100644
--- a/global_planner/src/library/node.cpp
+++ b/global_planner/src/library/node.cpp
@@ -2,6 +2,8 @@
 
 namespace global_planner {
 
+double SPEEDNODE_RADIUS = 5.0;
+
 bool Node::isSmaller(const Node& other) const {
   return cell_ < other.cell_ || (cell_ == other.cell_ && parent_ < other.parent_);
 }
-- 
2.43.0


From a4e2e44c67e053a71e05a5fa26fe932f6242c68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:37 +0000
Subject: [PATCH 12/39] fix: turning from the x to the y direction is not free

---
 global_planner/src/library/node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/node.cpp b/global_planner/src/library/node.cpp
index de723cb..dafcaf2 100644
--- a/global_planner/src/library/node.cpp
+++ b/global_planner/src/library/node.cpp
@@ -67,7 +67,7 @@ double Node::getRotation(const Node& other) const {
 double Node::getXYRotation(const Node& other) const {
   Cell this_diff = (cell_ - parent_);
   Cell other_diff = (other.cell_ - other.parent_);
-  if ((this_diff.xIndex() == 0 && this_diff.yIndex() == 0) || (other_diff.xIndex() == 0 && this_diff.yIndex() == 0)) {
+  if ((this_diff.xIndex() == 0 && this_diff.yIndex() == 0) || (other_diff.xIndex() == 0 && other_diff.yIndex() == 0)) {
     return 0.0;  // Vertical movement
   }
   double this_ang = this_diff.angle();
-- 
2.43.0


From 6c4035dd37197eb985da0277a18401d8f77a3644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:56 +0000
Subject: [PATCH 13/39] fix: the risk of not moving is zero instead of not a
 number

---
 global_planner/src/library/global_planner.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index d04f49f..51a1e56 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -196,6 +196,9 @@ double GlobalPlanner::getRisk(const Cell& cell) {
 double GlobalPlanner::getRisk(const Node& node) {
   double risk = 0.0;
   std::unordered_set<Cell> nodeCells = node.getCells();
+  if (nodeCells.empty()) {
+    return 0.0;  // Not moving to another cell
+  }
   for (const Cell& cell : nodeCells) {
     risk += getRisk(cell);
   }
-- 
2.43.0


From 793b42a4bc6cd17c8a62825cc50649f0cd046497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:34 +0000
Subject: [PATCH 14/39] fix: pass the simplification margin and iterations in
 the declared order

---
 global_planner/src/nodes/global_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 877907b..a9f8cee 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -374,7 +374,7 @@ void GlobalPlannerNode::publishPath() {
   setCurrentPath(path_msg.poses);
   smooth_path_pub_.publish(smoothPath(path_msg));
 
-  auto simple_path = simplifyPath(&global_planner_, global_planner_.curr_path_, simplify_iterations_, simplify_margin_);
+  auto simple_path = simplifyPath(&global_planner_, global_planner_.curr_path_, simplify_margin_, simplify_iterations_);
   auto simple_path_msg = global_planner_.getPathMsg(simple_path);
   global_temp_path_pub_.publish(simple_path_msg);
   setCurrentPath(simple_path_msg.poses);
-- 
2.43.0


From bb102d8007758b3332a6d9f7b8e02d1b4cce8df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:45 +0000
Subject: [PATCH 15/39] fix: use the ground's prior below the ground, not that
 of the highest altitude

---
 global_planner/src/library/global_planner.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 51a1e56..c04fbc6 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -163,10 +163,10 @@ double GlobalPlanner::getSingleCellRisk(const Cell& cell) {
 double GlobalPlanner::getAltPrior(const Cell& cell) {
   int index = std::round(cell.zPos());
 
-  if (index > alt_prior_.size() - 1) {
-    return alt_prior_.back();
-  } else if (index < 0) {
+  if (index < 0) {
     return alt_prior_.front();
+  } else if (index > static_cast<int>(alt_prior_.size()) - 1) {
+    return alt_prior_.back();
   } else {
     return alt_prior_.at(index);
   }
-- 
2.43.0


From 5ffb93340e340a00e1c9df0a31f8a79aad75acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:45 +0000
Subject: [PATCH 16/39] fix: do not read outside the altitude prior for goals
 below the ground or above 25 m

---
 global_planner/src/library/global_planner.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index c04fbc6..c36ed1f 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -258,8 +258,11 @@ double GlobalPlanner::riskHeuristic(const Cell& u, const Cell& goal) {
   double unexplored_risk = (1.0 + 6.0 * neighbor_risk_flow_) * explore_penalty_ * risk_factor_;
   double xy_dist = u.diagDistance2D(goal) - 1.0;  // XY distance excluding the goal cell
   double xy_risk = xy_dist * unexplored_risk * getAltPrior(u);
-  double z_risk =
-      unexplored_risk * std::abs(accumulated_alt_prior_[u.zIndex()] - accumulated_alt_prior_[goal.zIndex()]);
+  // The prior is only known up to some altitude
+  const int max_z = static_cast<int>(accumulated_alt_prior_.size()) - 1;
+  const int u_z = std::max(0, std::min(u.zIndex(), max_z));
+  const int goal_z = std::max(0, std::min(goal.zIndex(), max_z));
+  double z_risk = unexplored_risk * std::abs(accumulated_alt_prior_[u_z] - accumulated_alt_prior_[goal_z]);
   // TODO: instead of subtracting 1 from the xy_dist, subtract 1 from the
   // combined xy and z dist
   double goal_risk = getRisk(goal) * risk_factor_;
-- 
2.43.0


From 306021afe33f36cdf21801730eea88e1ce27119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:45 +0000
Subject: [PATCH 17/39] fix: initialise the map resolution used before the
 first map arrives

---
 global_planner/include/global_planner/global_planner.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global_planner/include/global_planner/global_planner.h b/global_planner/include/global_planner/global_planner.h
index eaf464c..a253a74 100644
--- a/global_planner/include/global_planner/global_planner.h
+++ b/global_planner/include/global_planner/global_planner.h
@@ -145,8 +145,8 @@ class GlobalPlanner {
   void setRobotRadius(double radius);
 
  private:
-  double robot_radius_;
-  double octree_resolution_;
+  double robot_radius_ = 0.5;
+  double octree_resolution_ = 1.0;  // Until the first map is received
 };
 
 }  // namespace global_planner
-- 
2.43.0


From 50f325b926789c61adbc14bd98dbb083a6c802a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:28 +0000
Subject: [PATCH 18/39] fix: let the risk based speedup follow its own
 parameter

---
 global_planner/src/nodes/global_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index a9f8cee..81a59c6 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -390,7 +390,7 @@ void GlobalPlannerNode::printPointInfo(double x, double y, double z) {
 void GlobalPlannerNode::publishSetpoint() {
   // Vector pointing from current position to the current goal
   tf::Vector3 vec = toTfVector3(subtractPoints(current_goal_.pose.position, last_pos_.pose.position));
-  if (global_planner_.use_speedup_heuristics_) {
+  if (global_planner_.use_risk_based_speedup_) {
     Cell cur_cell =
         global_planner::Cell(last_pos_.pose.position.x, last_pos_.pose.position.y, last_pos_.pose.position.z);
     double cur_risk = std::sqrt(global_planner_.getRisk(cur_cell));
-- 
2.43.0


From a207f88bccc2f85b3390052e4a96cfbc45760202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:28 +0000
Subject: [PATCH 19/39] fix: command the current goal instead of not a number
 when exactly at it

---
 global_planner/src/nodes/global_planner_node.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 81a59c6..badf05e 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -408,8 +408,10 @@ void GlobalPlannerNode::publishSetpoint() {
 
   // If we are less than 1.0 away, then we should stop at the goal
   double new_len = vec.length() < 1.0 ? vec.length() : speed_;
-  vec.normalize();
-  vec *= new_len;
+  if (vec.length() > 0.0) {
+    vec.normalize();
+    vec *= new_len;
+  }
 
   auto setpoint = current_goal_;  // The intermediate position sent to Mavros
   setpoint.pose.position.x = last_pos_.pose.position.x + vec.getX();
-- 
2.43.0


From 0a6ec98ca8ba3878607f3b864c17686e70b64018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:01 +0000
Subject: [PATCH 20/39] fix: keep the landing kernel inside the grid for every
 configured kernel and grid size

---
 safe_landing_planner/src/nodes/waypoint_generator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index f6dd9cf..09fccf7 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -60,6 +60,9 @@ void WaypointGenerator::calculateWaypoint() {
 }
 
 void WaypointGenerator::updateSLPState() {
+  // the kernel can not be larger than the grid
+  smoothing_land_cell_ = std::min(smoothing_land_cell_, (grid_slp_.getRowColSize() - 1) / 2);
+
   if (update_smoothing_size_ || mask_.rows() != (smoothing_land_cell_ * 2 + 1)) {
     mask_.resize((smoothing_land_cell_ * 2 + 1), (smoothing_land_cell_ * 2 + 1));
 
-- 
2.43.0


From f0d871f03f6601e0a6e446ed654ea1cf89864a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:01 +0000
Subject: [PATCH 21/39] fix: a height percentile of a small landing area reads
 past its heights

---
 safe_landing_planner/src/nodes/waypoint_generator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index 09fccf7..493e3f4 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -340,6 +340,7 @@ float WaypointGenerator::landingAreaHeightPercentile(float percentile) {
 
   std::sort(altitude_landing_area.begin(), altitude_landing_area.end());
   int index = static_cast<int>(std::round(percentile / 100.f * altitude_landing_area.size()));
+  index = std::min(index, static_cast<int>(altitude_landing_area.size()) - 1);
   return altitude_landing_area[index];
 }
 }
-- 
2.43.0


From acb95c395589f884982b8c41af453d221a82babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:01 +0000
Subject: [PATCH 22/39] fix: the shown landing area was only placed right in a
 grid of 40 cells

---
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index 8b0f0bb..4002482 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -208,7 +208,7 @@ void WaypointGeneratorNode::landingAreaVisualization() {
   Eigen::MatrixXi kernel(waypointGenerator_.can_land_hysteresis_matrix_.rows(),
                          waypointGenerator_.can_land_hysteresis_matrix_.cols());
   kernel.fill(0);
-  kernel.block(20 - waypointGenerator_.smoothing_land_cell_, 20 - waypointGenerator_.smoothing_land_cell_,
+  kernel.block(offset - waypointGenerator_.smoothing_land_cell_, offset - waypointGenerator_.smoothing_land_cell_,
                waypointGenerator_.mask_.rows(), waypointGenerator_.mask_.cols()) = waypointGenerator_.mask_;
 
   Eigen::MatrixXi result = waypointGenerator_.can_land_hysteresis_result_.cwiseProduct(kernel);
-- 
2.43.0


From dab285bdf9dcba1b43e7b8ac48b4d2d7231d202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:48 +0000
Subject: [PATCH 23/39] fix: create the mutexes of the cloud thread before
 starting it

---
 safe_landing_planner/src/nodes/safe_landing_planner_node.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index c60eeed..7211236 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -65,12 +65,13 @@ void SafeLandingPlannerNode::rawGridCallback(const safe_landing_planner::SLPGrid
 }
 
 void SafeLandingPlannerNode::startNode() {
-  // initialize thread
-  worker_ = std::thread(&SafeLandingPlannerNode::pointCloudTransformThread, this);
   cloud_msg_mutex_.reset(new std::mutex);
   transformed_cloud_mutex_.reset(new std::mutex);
   cloud_ready_cv_.reset(new std::condition_variable);
 
+  // initialize thread, it uses the mutexes and the condition variable from its start
+  worker_ = std::thread(&SafeLandingPlannerNode::pointCloudTransformThread, this);
+
   ros::TimerOptions timer_options(ros::Duration(spin_dt_),
                                   boost::bind(&SafeLandingPlannerNode::cmdLoopCallback, this, _1), &cmdloop_queue_);
   cmdloop_timer_ = nh_.createTimer(timer_options);
-- 
2.43.0


From e95a67226e2c92adb0f41f839b20c8a5b0b0a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:41 +0000
Subject: [PATCH 24/39] fix: apply cell size, edge length and search mode also
 when configured with other parameters

---
 global_planner/src/nodes/global_planner_node.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index badf05e..347cf8c 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -185,13 +185,13 @@ void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlanner
   simplify_iterations_ = config.simplify_iterations_;
   simplify_margin_ = config.simplify_margin_;
 
-  // cell
-  if (level == 2) {
+  // cell (the level contains the bits of all changed groups)
+  if (level & 2) {
     CELL_SCALE = config.CELL_SCALE;
   }
 
   // node
-  if (level == 4) {
+  if (level & 4) {
     SPEEDNODE_RADIUS = config.SPEEDNODE_RADIUS;
     global_planner_.default_node_type_ = config.default_node_type_;
   }
-- 
2.43.0


From b0f88cae8264d4afe7f4ccc104cee88e9d1d7e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:41 +0000
Subject: [PATCH 25/39] fix: use the configured timeouts in the local planner's
 health check

---
 avoidance/include/avoidance/avoidance_node.h      | 6 ++++++
 avoidance/src/avoidance_node.cpp                  | 6 ++++++
 local_planner/src/nodes/local_planner_nodelet.cpp | 1 +
 3 files changed, 13 insertions(+)

diff --git a/avoidance/include/avoidance/avoidance_node.h b/avoidance/include/avoidance/avoidance_node.h
index 9cbb0e4..8603170 100644
--- a/avoidance/include/avoidance/avoidance_node.h
+++ b/avoidance/include/avoidance/avoidance_node.h
@@ -40,6 +40,12 @@ class AvoidanceNode {
   void checkPx4Parameters();
 
   void setSystemStatus(MAV_STATE state);
+
+  /**
+  * @brief     sets the timeouts of the health check
+  * @param[in] startup, critical, termination, timeouts in seconds
+  **/
+  void setFailsafeTimeouts(double startup, double critical, double termination);
   void init();
 
   /**
diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index 75881ec..309d96b 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -47,6 +47,12 @@ void AvoidanceNode::statusLoopCallback(const ros::TimerEvent& event) { publishSy
 
 void AvoidanceNode::setSystemStatus(MAV_STATE state) { companion_state_ = state; }
 
+void AvoidanceNode::setFailsafeTimeouts(double startup, double critical, double termination) {
+  timeout_startup_ = startup;
+  timeout_critical_ = critical;
+  timeout_termination_ = termination;
+}
+
 MAV_STATE AvoidanceNode::getSystemStatus() { return companion_state_; }
 
 // Publish companion process status
diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index 9e83709..248fad9 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -436,6 +436,7 @@ void LocalPlannerNodelet::dynamicReconfigureCallback(avoidance::LocalPlannerNode
   std::lock_guard<std::mutex> guard(running_mutex_);
   local_planner_->dynamicReconfigureSetParams(config, level);
   wp_generator_->setSmoothingSpeed(config.smoothing_speed_xy_, config.smoothing_speed_z_);
+  avoidance_node_->setFailsafeTimeouts(config.timeout_startup_, config.timeout_critical_, config.timeout_termination_);
   rqt_param_config_ = config;
 }
 
-- 
2.43.0


From 60745d5c4167f4f29355bc3b20b150dd963eab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:53 +0000
Subject: [PATCH 26/39] fix: use the configured landing kernel again when a
 larger grid arrives

---
 .../include/safe_landing_planner/waypoint_generator_node.hpp  | 1 +
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp    | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp b/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
index 2d5a2c1..92a3567 100644
--- a/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
@@ -51,6 +51,7 @@ class WaypointGeneratorNode final {
   ros::Publisher marker_goal_pub_;
 
   bool grid_received_ = false;
+  int smoothing_land_cell_ = 6;  // configured kernel size, the one in use is at most as large as the grid
   double spin_dt_ = 0.1;
   Eigen::Vector3f goal_visualization_ = Eigen::Vector3f::Zero();
 
diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index 4002482..afcac8f 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -53,7 +53,8 @@ void WaypointGeneratorNode::dynamicReconfigureCallback(safe_landing_planner::Way
   waypointGenerator_.beta_ = static_cast<float>(config.beta);
   waypointGenerator_.can_land_thr_ = static_cast<float>(config.can_land_thr);
   waypointGenerator_.loiter_height_ = static_cast<float>(config.loiter_height);
-  waypointGenerator_.smoothing_land_cell_ = config.smoothing_land_cell;
+  smoothing_land_cell_ = config.smoothing_land_cell;
+  waypointGenerator_.smoothing_land_cell_ = smoothing_land_cell_;
   waypointGenerator_.vertical_range_error_ = static_cast<float>(config.vertical_range_error);
   waypointGenerator_.spiral_width_ = static_cast<float>(config.spiral_width);
 
@@ -112,6 +113,7 @@ void WaypointGeneratorNode::gridCallback(const safe_landing_planner::SLPGridMsg
   if (waypointGenerator_.grid_slp_.getGridSize() != msg.grid_size ||
       waypointGenerator_.grid_slp_.getCellSize() != msg.cell_size) {
     waypointGenerator_.grid_slp_.resize(msg.grid_size, msg.cell_size);
+    waypointGenerator_.smoothing_land_cell_ = smoothing_land_cell_;  // it may have been cut to a smaller grid
   }
 
   for (int i = 0; i < msg.mean.layout.dim[0].size; i++) {
-- 
2.43.0


From 2132b72705b0884f14d6dc8a099ab44f01e855d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:44 +0000
Subject: [PATCH 27/39] fix: mark the heading in the cost image at its own
 angle (it was converted to degrees twice)

---
 local_planner/src/nodes/local_planner_visualization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/local_planner/src/nodes/local_planner_visualization.cpp b/local_planner/src/nodes/local_planner_visualization.cpp
index 553d929..9325e9f 100644
--- a/local_planner/src/nodes/local_planner_visualization.cpp
+++ b/local_planner/src/nodes/local_planner_visualization.cpp
@@ -278,8 +278,8 @@ void LocalPlannerVisualization::publishDataImages(const std::vector<uint8_t>& hi
   cost_img.data = cost_image_data;
 
   // current orientation
-  float curr_yaw_fcu_frame = getYawFromQuaternion(newest_orientation);
-  float yaw_angle_histogram_frame = -static_cast<float>(curr_yaw_fcu_frame) * 180.0f / M_PI_F + 90.0f;
+  float curr_yaw_fcu_frame = getYawFromQuaternion(newest_orientation);  // in degrees
+  float yaw_angle_histogram_frame = -curr_yaw_fcu_frame + 90.0f;
   PolarPoint heading_pol(0, yaw_angle_histogram_frame, 1.0);
   Eigen::Vector2i heading_index = polarToHistogramIndex(heading_pol, ALPHA_RES);
 
-- 
2.43.0


From 94fb19cb1ef1455017a366b6b4f3530486fedc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:44 +0000
Subject: [PATCH 28/39] fix: row length of the histogram image is its width

---
 local_planner/src/nodes/local_planner_visualization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/local_planner_visualization.cpp b/local_planner/src/nodes/local_planner_visualization.cpp
index 9325e9f..4e0c6dc 100644
--- a/local_planner/src/nodes/local_planner_visualization.cpp
+++ b/local_planner/src/nodes/local_planner_visualization.cpp
@@ -311,7 +311,7 @@ void LocalPlannerVisualization::publishDataImages(const std::vector<uint8_t>& hi
   hist_img.width = GRID_LENGTH_Z;
   hist_img.encoding = sensor_msgs::image_encodings::MONO8;
   hist_img.is_bigendian = 0;
-  hist_img.step = 255;
+  hist_img.step = hist_img.width;
   hist_img.data = histogram_image_data;
 
   histogram_image_pub_.publish(hist_img);
-- 
2.43.0


From dee83cf106e12a4675a75781d71ea5287af5efb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:28 +0000
Subject: [PATCH 29/39] fix: the global planner's topics belong to its
 namespace, only its parameters are private

---
 .../src/nodes/global_planner_node.cpp          | 18 +++++++++---------
 .../src/nodes/global_planner_node_main.cpp     |  4 ++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 347cf8c..c1c0862 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -75,21 +75,21 @@ GlobalPlannerNode::~GlobalPlannerNode() {}
 void GlobalPlannerNode::readParams() {
   std::vector<std::string> camera_topics;
 
-  nh_.param<double>("start_pos_x", start_pos_.x, 0.5);
-  nh_.param<double>("start_pos_y", start_pos_.y, 0.5);
-  nh_.param<double>("start_pos_z", start_pos_.z, 3.5);
-  nh_.param<std::string>("frame_id", frame_id_, "local_origin");
-  nh_.getParam("pointcloud_topics", camera_topics);
-  if (!nh_.hasParam("camera_frame_id")) {
-    nh_.setParam("camera_frame_id", "camera_link");
+  nh_private_.param<double>("start_pos_x", start_pos_.x, 0.5);
+  nh_private_.param<double>("start_pos_y", start_pos_.y, 0.5);
+  nh_private_.param<double>("start_pos_z", start_pos_.z, 3.5);
+  nh_private_.param<std::string>("frame_id", frame_id_, "local_origin");
+  nh_private_.getParam("pointcloud_topics", camera_topics);
+  if (!nh_private_.hasParam("camera_frame_id")) {
+    nh_private_.setParam("camera_frame_id", "camera_link");
   } else {
-    nh_.getParam("camera_frame_id", camera_frame_id_);
+    nh_private_.getParam("camera_frame_id", camera_frame_id_);
   }
 
   initializeCameraSubscribers(camera_topics);
   global_planner_.goal_pos_ = GoalCell(start_pos_.x, start_pos_.y, start_pos_.z);
   double robot_radius;
-  nh_.param<double>("robot_radius", robot_radius, 0.5);
+  nh_private_.param<double>("robot_radius", robot_radius, 0.5);
   global_planner_.setFrame(frame_id_);
   global_planner_.setRobotRadius(robot_radius);
 }
diff --git a/global_planner/src/nodes/global_planner_node_main.cpp b/global_planner/src/nodes/global_planner_node_main.cpp
index 5c892ae..10291f7 100644
--- a/global_planner/src/nodes/global_planner_node_main.cpp
+++ b/global_planner/src/nodes/global_planner_node_main.cpp
@@ -3,8 +3,8 @@
 int main(int argc, char** argv) {
   ros::init(argc, argv, "global_planner_node");
 
-  ros::NodeHandle nh("~");
-  ros::NodeHandle nh_private("");
+  ros::NodeHandle nh("");
+  ros::NodeHandle nh_private("~");
 
   global_planner::GlobalPlannerNode global_planner_node(nh, nh_private);
 
-- 
2.43.0


From 3481901fb6641fb42bdca9d7d1787e219ac29a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:28 +0000
Subject: [PATCH 30/39] fix: the landing nodes' topics belong to their
 namespace, only their parameters are private

---
 safe_landing_planner/src/nodes/safe_landing_planner_node.cpp | 5 +++--
 .../src/nodes/safe_landing_planner_node_main.cpp             | 2 +-
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp   | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index 7211236..93a2093 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -13,8 +13,9 @@ SafeLandingPlannerNode::SafeLandingPlannerNode(const ros::NodeHandle &nh) : nh_(
   visualizer_.initializePublishers(nh_);
 
   std::string camera_topic;
-  nh_.getParam("pointcloud_topics", camera_topic);
-  nh_.param<bool>("play_rosbag", safe_landing_planner_->play_rosbag_, false);
+  ros::NodeHandle nh_private("~");
+  nh_private.getParam("pointcloud_topics", camera_topic);
+  nh_private.param<bool>("play_rosbag", safe_landing_planner_->play_rosbag_, false);
 
   dynamic_reconfigure::Server<safe_landing_planner::SafeLandingPlannerNodeConfig>::CallbackType f;
   f = boost::bind(&SafeLandingPlannerNode::dynamicReconfigureCallback, this, _1, _2);
diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp
index 0e6de8c..40c82d4 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp
@@ -3,7 +3,7 @@
 int main(int argc, char **argv) {
   using namespace avoidance;
   ros::init(argc, argv, "safe_landing_planner_node");
-  ros::NodeHandle nh("~");
+  ros::NodeHandle nh("");
   SafeLandingPlannerNode NodeSLP(nh);
   NodeSLP.startNode();
 
diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index afcac8f..4310646 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -265,7 +265,7 @@ void WaypointGeneratorNode::goalVisualization() {
 int main(int argc, char **argv) {
   using namespace avoidance;
   ros::init(argc, argv, "waypoint_generator_node");
-  ros::NodeHandle nh("~");
+  ros::NodeHandle nh("");
 
   WaypointGeneratorNode NodeWG(nh);
   NodeWG.startNode();
-- 
2.43.0


From fd699c04e270a991b581e3637a333e6b18ae2c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:28 +0000
Subject: [PATCH 31/39] fix: use the default camera frame when none is
 configured (it was only written to the parameter server)

---
 global_planner/src/nodes/global_planner_node.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index c1c0862..1de5eb2 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -81,6 +81,7 @@ void GlobalPlannerNode::readParams() {
   nh_private_.param<std::string>("frame_id", frame_id_, "local_origin");
   nh_private_.getParam("pointcloud_topics", camera_topics);
   if (!nh_private_.hasParam("camera_frame_id")) {
+    camera_frame_id_ = "camera_link";
     nh_private_.setParam("camera_frame_id", "camera_link");
   } else {
     nh_private_.getParam("camera_frame_id", camera_frame_id_);
-- 
2.43.0


From dc433dac1484cf51f0930dd8e8dd2422df7ccd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:36 +0000
Subject: [PATCH 32/39] fix: do not search a map that was not received yet when
 a point is clicked

---
 global_planner/include/global_planner/analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/include/global_planner/analysis.h b/global_planner/include/global_planner/analysis.h
index 9ce202b..5fd8ce3 100644
--- a/global_planner/include/global_planner/analysis.h
+++ b/global_planner/include/global_planner/analysis.h
@@ -116,7 +116,7 @@ void printPointStats(GlobalPlanner* global_planner, double x, double y, double z
   double heuristics = global_planner->getHeuristic(Node(cell, cell), global_planner->goal_pos_);
   ROS_INFO("Heuristics: %2.2f", heuristics);
 
-  octomap::OcTreeNode* node = global_planner->octree_->search(x, y, z);
+  octomap::OcTreeNode* node = global_planner->octree_ ? global_planner->octree_->search(x, y, z) : nullptr;
   if (node) {
     double prob = octomap::probability(node->getValue());
     double post_prob = posterior(global_planner->getAltPrior(cell), prob);
-- 
2.43.0


From b99af3b8dfdb14bb810eef7dd50fecbe27e0d1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:36 +0000
Subject: [PATCH 33/39] fix: ignore maps that cannot be read instead of using a
 null map

---
 global_planner/src/library/global_planner.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index c36ed1f..b568021 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -67,11 +67,18 @@ void GlobalPlanner::setFrame(std::string frame_id) { frame_id_ = frame_id; }
 // Going through the octomap can take more than 50 ms for 100m x 100m explored
 // map
 void GlobalPlanner::updateFullOctomap(octomap::AbstractOcTree* tree) {
+  octomap::OcTree* octree = dynamic_cast<octomap::OcTree*>(tree);
+  if (!octree) {
+    // The message could not be read or contains another kind of map
+    ROS_WARN("Received an invalid map, keeping the last one");
+    delete tree;
+    return;
+  }
   risk_cache_.clear();
   if (octree_) {
     delete octree_;
   }
-  octree_ = dynamic_cast<octomap::OcTree*>(tree);
+  octree_ = octree;
   octree_resolution_ = octree_->getResolution();
 }
 
-- 
2.43.0


From d357605668115b844590a6f3900d6ac6772bac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:13 +0000
Subject: [PATCH 34/39] fix: rviz world display does not need GAZEBO_MODEL_PATH
 and HOME to be set

---
 avoidance/src/rviz_world_loader.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/avoidance/src/rviz_world_loader.cpp b/avoidance/src/rviz_world_loader.cpp
index 943bc82..5d80789 100644
--- a/avoidance/src/rviz_world_loader.cpp
+++ b/avoidance/src/rviz_world_loader.cpp
@@ -31,11 +31,13 @@ void WorldVisualizer::loopCallback(const ros::TimerEvent& event) {
 
 int WorldVisualizer::resolveUri(std::string& uri) {
   // Iterate through all locations in GAZEBO_MODEL_PATH
-  char* gazebo_model_path = getenv("GAZEBO_MODEL_PATH");
-  char* home = getenv("HOME");
+  // and in the user's own models (either variable may not be set)
+  const char* gazebo_model_path = getenv("GAZEBO_MODEL_PATH");
+  const char* home = getenv("HOME");
   uri = uri.substr(7, std::string::npos);
-  std::stringstream all_locations(gazebo_model_path, std::ios_base::app | std::ios_base::out | std::ios_base::in);
-  all_locations << ":" << home << "/.gazebo/models";
+  std::stringstream all_locations;
+  if (gazebo_model_path) all_locations << gazebo_model_path << ":";
+  if (home) all_locations << home << "/.gazebo/models";
   std::string current_location;
   while (getline(all_locations, current_location, ':')) {
     struct stat s;
-- 
2.43.0


From d7e2dea97bc64103b02fe07eefafb1a8aea93e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:13 +0000
Subject: [PATCH 35/39] fix: rviz world display takes only regular files for
 models

---
 avoidance/src/rviz_world_loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/avoidance/src/rviz_world_loader.cpp b/avoidance/src/rviz_world_loader.cpp
index 5d80789..289c6a5 100644
--- a/avoidance/src/rviz_world_loader.cpp
+++ b/avoidance/src/rviz_world_loader.cpp
@@ -43,7 +43,7 @@ int WorldVisualizer::resolveUri(std::string& uri) {
     struct stat s;
     std::string temp = current_location + uri;
     if (stat(temp.c_str(), &s) == 0) {
-      if (s.st_mode & S_IFREG)  // this path describes a file
+      if (S_ISREG(s.st_mode))  // this path describes a file
       {
         uri = "file://" + current_location + uri;
         return 0;
-- 
2.43.0


From 2ad38769cf381e6161c7f44d2f71a5a867c88111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:13 +0000
Subject: [PATCH 36/39] fix: altitude heuristic counts metres as the cost does,
 for every cell size

---
 global_planner/src/library/global_planner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index b568021..55e948b 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -317,7 +317,7 @@ double GlobalPlanner::smoothnessHeuristic(const Node& u, const Cell& goal) {
 
 // Returns a heuristic for the cost of reaching the altitude of goal
 double GlobalPlanner::altitudeHeuristic(const Cell& u, const Cell& goal) {
-  double diff = goal.zIndex() - u.zIndex();
+  double diff = goal.zPos() - u.zPos();
   // Either multiply by up_cost_ or down_cost_, depending on if we are belove or
   // above the goal
   double cost = (diff > 0) ? (up_cost_ * std::abs(diff)) : (down_cost_ * std::abs(diff));
-- 
2.43.0


From 235a8f8577f01596d51be4fe562bd20861e982a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:13 +0000
Subject: [PATCH 37/39] fix: use_current_yaw_ has an effect (shadowed variable)

---
 global_planner/src/library/global_planner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 55e948b..053da0b 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -433,7 +433,7 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
   // behind the start cell Cell parent_of_s = Cell(curr_pos_);
   Cell parent_of_s(subtractPoints(curr_pos_, scalePoint(curr_vel_, search_time_)));
   if (!use_current_yaw_) {
-    Cell parent_of_s = s;  // Ignore the current yaw
+    parent_of_s = s;  // Ignore the current yaw
   }
 
   ROS_INFO("Planning a path from %s to %s", s.asString().c_str(), t.asString().c_str());
-- 
2.43.0


From e6f779aaf718b63ab9fd42b624cf31d102d42e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:13 +0000
Subject: [PATCH 38/39] fix: search ends when the vehicle is at the goal and
 min_overestimate_factor_ is 1

---
 global_planner/src/library/global_planner.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 053da0b..11c5f32 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -478,6 +478,9 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
       break;
     }
     last_iter = search_info.num_iter;
+    if (last_iter == 0) {
+      break;  // Already at the goal, searching again with a lower overestimation would give the same
+    }
     iter_left -= last_iter;
     overestimate_factor_ = (overestimate_factor_ - 1.0) / 4.0 + 1.0;
   }
-- 
2.43.0


From f0fdb529c95039880350b251b49446f8d256aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:13 +0000
Subject: [PATCH 39/39] fix: the configured search budget is kept after a last
 resort search

---
 global_planner/src/library/global_planner.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 11c5f32..e75b828 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -488,8 +488,10 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
   // Last resort, try 2d search at max_altitude_
   if (!found_path) {
     printf("No path found, search in 2D \n");
+    const int configured_iterations = max_iterations_;
     max_iterations_ = 5000;
     found_path = find2DPath(this, path, s, t, parent_of_s, max_altitude_);
+    max_iterations_ = configured_iterations;
   }
 
   return found_path;
-- 
2.43.0

