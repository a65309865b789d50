#pragma once
#include "ros_stub.h"
// fields as generated by dynamic_reconfigure from local_planner/cfg/LocalPlannerNode.cfg
namespace avoidance {
struct LocalPlannerNodeConfig {
  double max_sensor_range_ = 15.0;
  double min_sensor_range_ = 0.2;
  double pitch_cost_param_ = 25.0;
  double yaw_cost_param_ = 3.0;
  double velocity_cost_param_ = 6000;
  double obstacle_cost_param_ = 8.5;
  double tree_heuristic_weight_ = 35.0;
  double goal_z_param = 3.5;
  double timeout_startup_ = 5;
  double timeout_critical_ = 0.5;
  double timeout_termination_ = 15;
  double max_point_age_s_ = 20;
  int min_num_points_per_cell_ = 1;
  double smoothing_speed_xy_ = 10;
  double smoothing_speed_z_ = 3;
  double smoothing_margin_degrees_ = 40;
  int children_per_node_ = 8;
  int n_expanded_nodes_ = 40;
  double tree_node_distance_ = 2;
  static LocalPlannerNodeConfig __getDefault__() { return LocalPlannerNodeConfig(); }
};
}
