#pragma once
#include "ros_stub.h"
// fields as generated by dynamic_reconfigure from safe_landing_planner/cfg/WaypointGeneratorNode.cfg
namespace safe_landing_planner {
struct WaypointGeneratorNodeConfig {
  double can_land_thr = 0.4;
  double loiter_height = 8.0;
  int smoothing_land_cell = 6;
  double beta = 0.9;
  double vertical_range_error = 0.5;
  double spiral_width = 2.0;
  static WaypointGeneratorNodeConfig __getDefault__() { return WaypointGeneratorNodeConfig(); }
};
}
