//! src=slp/nodes/safe_landing_planner_node.cpp,slp/nodes/safe_landing_planner.cpp,slp/nodes/safe_landing_planner_visualization.cpp,slp/nodes/waypoint_generator_node.cpp,slp/nodes/waypoint_generator.cpp,avoidance/common.cpp
//# grids of 1, 3 and 4 cells per side with any heights, deviations, counts and flags, any vehicle position within 1000 m and any sequence number; the receiver holding a grid of the same or another size; messages sent directly from publisher to receiver
//# detector cycle: one cloud of one point anywhere in the footprint, a second cycle afterwards; replay of the published message by the detector itself
//# deviations are compared in real-number arithmetic (tolerance 1e-3)
#include "safe_landing_planner/safe_landing_planner_node.hpp"
#include "safe_landing_planner/waypoint_generator_node.hpp"
#include "sym.h"
#include <cmath>
using namespace avoidance;
namespace avoidance { void SafeLandingPlannerVisualization::visualizeSafeLandingPlanner(const SafeLandingPlanner&, const geometry_msgs::Point&, const geometry_msgs::Point&, safe_landing_planner::SafeLandingPlannerNodeConfig&) {} }  // drawing is left out
typedef safe_landing_planner::SLPGridMsg Msg;
static char nm[256][12];
static const char* nam(const char* b, int k) { static int c = 0; char* s = nm[c++ % 256]; int i = 0; while (b[i]) { s[i] = b[i]; i++; } if (k > 9) s[i++] = '0' + k / 10; s[i++] = '0' + k % 10; s[i] = 0; return s; }
struct Det : SafeLandingPlannerNode { Det() : SafeLandingPlannerNode(ros::NodeHandle("")) { transformed_cloud_mutex_.reset(new std::mutex); cloud_msg_mutex_.reset(new std::mutex); cloud_ready_cv_.reset(new std::condition_variable); } };
static bool layout(const std_msgs::MultiArrayLayout& l, int n) { return (l.dim.size() == 2) && (l.dim[0].size == n) && (l.dim[1].size == n) && (l.dim[1].stride == n) && (l.dim[0].stride == n * n) && (l.data_offset == 0); }
static void trip(int n, float cell, bool other) {
  Det d; SafeLandingPlanner& p = *d.safe_landing_planner_; Grid& g = p.previous_grid_; g.resize(n * cell, cell); p.grid_.resize(n * cell, cell); p.grid_.mean_.fill(77.f); float m[16], v[16]; int c[16], l[16];
  for (int i = 0; i < n * n; i++) { Eigen::Vector2i x(i / n, i % n); m[i] = sym_f32(nam("m", i), -1000.f, 1000.f); float sd = sym_f32(nam("s", i), 0.f, 30.f); v[i] = sd; c[i] = sym_i32(nam("c", i), 0, 100000); l[i] = sym_i32(nam("l", i), 0, 1); g.setMean(x, m[i]); g.setVariance(x, sd * sd); g.setCounter(x, c[i]); g.land_(i / n, i % n) = l[i]; }
  p.pos_index_ = Eigen::Vector2i(sym_i32("pi", 0, 3), sym_i32("pj", 0, 3)); stub::published<Msg>().clear(); d.publishSerialGrid(); sym_assert(stub::publishedOn<Msg>("grid_slp") == 1, "one grid message"); Msg msg = stub::published<Msg>().back().second;
  sym_assert(msg.header.frame_id == "local_origin" && msg.grid_size == (double)(n * cell) && msg.cell_size == (double)cell, "with the grid's extent"); sym_assert(layout(msg.mean.layout, n) && layout(msg.land.layout, n) && layout(msg.std_dev.layout, n) && layout(msg.counter.layout, n), "and layout"); sym_assert(msg.mean.data.size() == n * n && msg.land.data.size() == n * n && msg.std_dev.data.size() == n * n && msg.counter.data.size() == n * n, "one value per cell");
  for (int i = 0; i < n * n; i++) { sym_assert((msg.mean.data[i] == (double)m[i]) & (msg.counter.data[i] == c[i]) & (msg.land.data[i] == l[i]), "height, count and flag of each cell"); sym_assert(std::fabs(msg.std_dev.data[i] - (double)v[i]) < 1e-3, "and deviation"); }
  WaypointGeneratorNode w((ros::NodeHandle(""))); WaypointGenerator& r = w.waypointGenerator_; if (!other) r.grid_slp_.resize(n * cell, cell); else r.grid_slp_.resize(6.f, 3.f); r.grid_slp_.land_.fill(1); msg.header.seq = sym_i32("seq", 0, 1000000); float px = sym_f32("px", -1000.f, 1000.f), py = sym_f32("py", -1000.f, 1000.f); r.position_ = Eigen::Vector3f(px, py, 3.f); w.gridCallback(msg);
  Grid& h = r.grid_slp_; sym_assert((h.getRowColSize() == n) && h.land_.rows() == n && h.mean_.cols() == n && (h.getGridSize() == n * cell) && (h.getCellSize() == cell), "the receiver rebuilds a grid of the same extent"); for (int i = 0; i < n * n; i++) sym_assert((h.mean_(i / n, i % n) == m[i]) & (h.land_(i / n, i % n) == l[i]), "with the same cells");
  sym_assert((r.pos_index_.x() == p.pos_index_.x()) & (r.pos_index_.y() == p.pos_index_.y()), "the vehicle's cell"); sym_assert((r.grid_slp_seq_ == (int)msg.header.seq) & w.grid_received_, "and its sequence number"); Eigen::Vector2f lo, hi; h.getGridLimits(lo, hi); sym_assert((std::fabs(lo.x() - (px - n * cell / 2.f)) < 1e-3f) & (std::fabs(hi.y() - (py + n * cell / 2.f)) < 1e-3f), "centred on the vehicle");
  d.publishSerialGrid(); sym_assert(stub::published<Msg>()[1].second.header.seq == stub::published<Msg>()[0].second.header.seq + 1, "messages are numbered"); 
  SafeLandingPlanner q; q.play_rosbag_ = true; q.raw_grid_ = msg; q.position_ = Eigen::Vector3f(px, py, 3.f); q.processRawGrid(); for (int i = 0; i < n * n; i++) { Eigen::Vector2i x(i / n, i % n); sym_assert((q.grid_.getMean(x) == m[i]) & (q.grid_.getCounter(x) == c[i]), "a recorded message gives the detector the same cells"); sym_assert(std::fabs(q.grid_.getVariance(x) - v[i] * v[i]) < 0.1f, "and variances"); }
  if (n % 2) { q.grid_size_ = 10.f; q.cell_size_ = 0.1f; q.alpha_ = 0.f; q.n_lines_padding_ = 0; q.n_points_thr_ = 1e6f; q.runSafeLandingPlanner(); sym_assert((q.getPositionIndex().x() == n / 2) & (q.getPositionIndex().y() == n / 2), "the vehicle's cell is that of the replayed grid"); sym_assert(q.grid_.getRowColSize() == n, "whatever is configured"); }
  sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C28_trip3() { trip(3, 0.5f, sym_fork(sym_bool("other"))); }
//@ time=200 args=--reals
HARNESS C28_trip4() { trip(4, 0.25f, true); }
//@ time=100 args=--reals
HARNESS C28_trip1() { trip(1, 2.f, sym_fork(sym_bool("other"))); }
//@ time=200 args=--reals
HARNESS C28_cycle() {  // cloud -> detector -> message -> receiver
  Det d; SafeLandingPlanner& p = *d.safe_landing_planner_; p.grid_.resize(3.f, 1.f); p.previous_grid_.resize(3.f, 1.f); p.grid_size_ = 3.f; p.cell_size_ = 1.f; p.n_lines_padding_ = p.smoothing_size_ = 0; p.alpha_ = 0.f; p.n_points_thr_ = 1.f; float px = sym_f32("px", -1000.f, 1000.f), py = 40.f, z = sym_f32("z", -100.f, 100.f), dx = sym_f32("dx", 0.01f, 0.99f); int i = sym_concretize(sym_i32("i", 0, 2)), j = sym_concretize(sym_i32("j", 0, 2));
  geometry_msgs::PoseStamped pose; pose.pose.position.x = px; pose.pose.position.y = py; pose.pose.orientation.w = 1.; d.positionCallback(pose); p.cloud_.push_back(pcl::PointXYZ(px - 1.5f + i + dx, py - 1.5f + j + 0.5f, z)); d.cloud_transformed_ = true; stub::published<Msg>().clear(); d.cmdLoopCallback(ros::TimerEvent()); sym_assert(!d.cloud_transformed_, "a cloud is used once"); p.cloud_.clear(); d.cloud_transformed_ = true; d.cmdLoopCallback(ros::TimerEvent());
  sym_assert(stub::published<Msg>().size() == 2, "one message per cycle"); Msg msg = stub::published<Msg>()[1].second; WaypointGeneratorNode w((ros::NodeHandle(""))); w.positionCallback(pose); w.gridCallback(msg); WaypointGenerator& r = w.waypointGenerator_; for (int k = 0; k < 9; k++) { bool at = k == 3 * i + j; sym_assert((r.grid_slp_.land_(k / 3, k % 3) == (at ? 1 : 0)) & (r.grid_slp_.mean_(k / 3, k % 3) == (at ? z : 0.f)), "the cell with the point is landable at its height"); } sym_assert((r.pos_index_.x() == 1) & (r.pos_index_.y() == 1), "the vehicle is in the cell it is in"); sym_cover("end");
}
