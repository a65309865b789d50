#pragma once
#include "ros_stub.h"
// fields as generated by dynamic_reconfigure from safe_landing_planner/cfg/SafeLandingPlannerNode.cfg
namespace safe_landing_planner {
struct SafeLandingPlannerNodeConfig {
  double n_points_threshold = 100.0;
  double std_dev_threshold = 0.2;
  int smoothing_size = 5;
  double mean_diff_thr = 0.1;
  int max_n_mean_diff_cells = 70;
  int min_n_land_cells = 70;
  double grid_size = 10.0;
  double cell_size = 0.25;
  double alpha = 0.9;
  double timeout_critical = 0.5;
  double timeout_termination = 15;
  static SafeLandingPlannerNodeConfig __getDefault__() { return SafeLandingPlannerNodeConfig(); }
};
}
