#pragma once
#include "ros_stub.h"
namespace global_planner {
struct PathWithRiskMsg { std_msgs::Header header; std::vector<geometry_msgs::PoseStamped> poses; std::vector<double> risks; STUB_MSG(PathWithRiskMsg) };
}
