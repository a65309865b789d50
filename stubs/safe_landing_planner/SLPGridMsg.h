#pragma once
#include "ros_stub.h"
namespace safe_landing_planner {
struct SLPGridMsg { std_msgs::Header header; std_msgs::Float64MultiArray mean, std_dev; std_msgs::Int64MultiArray counter, land; double grid_size = 0, cell_size = 0; geometry_msgs::Vector3 curr_pos_index; STUB_MSG(SLPGridMsg) };
}
