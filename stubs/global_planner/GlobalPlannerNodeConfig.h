#pragma once
#include "ros_stub.h"
// fields as generated by dynamic_reconfigure from global_planner/cfg/GlobalPlannerNode.cfg
namespace global_planner {
struct GlobalPlannerNodeConfig {
  int min_altitude_ = 1;
  int max_altitude_ = 10;
  double max_cell_risk_ = 0.2;
  double smooth_factor_ = 20.0;
  double vert_to_hor_cost_ = 3.0;
  double risk_factor_ = 500.0;
  double neighbor_risk_flow_ = 1.0;
  double explore_penalty_ = 0.005;
  double up_cost_ = 5.0;
  double down_cost_ = 1.0;
  double search_time_ = 0.5;
  double min_overestimate_factor_ = 1.03;
  double max_overestimate_factor_ = 2.0;
  double risk_threshold_risk_based_speedup_ = 0.5;
  double default_speed_ = 1.0;
  double max_speed_ = 3.0;
  int max_iterations_ = 2000;
  bool goal_must_be_free_ = true;
  bool use_current_yaw_ = true;
  bool use_risk_heuristics_ = true;
  bool use_speedup_heuristics_ = true;
  bool use_risk_based_speedup_ = true;
  double clicked_goal_alt_ = 3.5;
  double clicked_goal_radius_ = 1.0;
  int simplify_iterations_ = 1;
  double simplify_margin_ = 1.01;
  double CELL_SCALE = 1.0;
  double SPEEDNODE_RADIUS = 5.0;
  std::string default_node_type_ = "SpeedNode";
  static GlobalPlannerNodeConfig __getDefault__() { return GlobalPlannerNodeConfig(); }
};
}
