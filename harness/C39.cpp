//! src=lp/nodes/local_planner_nodelet.cpp,lp/nodes/local_planner_visualization.cpp,lp/nodes/waypoint_generator.cpp,lp/nodes/local_planner.cpp,lp/nodes/planner_functions.cpp,lp/nodes/star_planner.cpp,lp/nodes/tree_node.cpp,avoidance/avoidance_node.cpp,avoidance/common.cpp,avoidance/histogram.cpp,avoidance/transform_buffer.cpp,gp/library/cell.cpp,gp/library/node.cpp,gp/library/global_planner.cpp,gp/nodes/global_planner_node.cpp,slp/nodes/safe_landing_planner_node.cpp,slp/nodes/safe_landing_planner.cpp,slp/nodes/safe_landing_planner_visualization.cpp cflags=-fwrapv
//# every parameter with any value (every double bit pattern unless it is used in the same step: then in its configured range), every combination of changed groups, two updates in a row
//# the level announced is the union of the groups changed (every bit at start); parameters of groups that are not announced are unchanged, as the middleware guarantees
//# detector: grids of 1..4 cells per side, smoothing -1..3 for the update carried out at the next evaluation; local planner: eight time-out configurations for the health check
#include "local_planner/local_planner_nodelet.h"
#include "local_planner/local_planner.h"
#include "local_planner/star_planner.h"
#include "local_planner/waypoint_generator.h"
#include "global_planner/global_planner_node.h"
#include "safe_landing_planner/safe_landing_planner_node.hpp"
#include "sym.h"
#include <cmath>
static bool eqd(double a, double b) { return (a == b) | ((a != a) & (b != b)); }
static bool eqf(float a, float b) { return (a == b) | ((a != a) & (b != b)); }
static char nm[512][12];
static const char* nam(const char* b, int k) { static int c = 0; char* s = nm[c++ % 512]; int i = 0; while (b[i]) { s[i] = b[i]; i++; } if (k > 9) s[i++] = '0' + k / 10; s[i++] = '0' + k % 10; s[i] = 0; return s; }
static int nd, ni, nb;
static double dd() { return sym_f64_any(nam("d", nd++)); }
static int ii() { return sym_i32(nam("i", ni++), -1000000, 1000000); }
static bool bb() { return sym_bool(nam("b", nb++)); }
namespace gp = global_planner;
static void globalAny(gp::GlobalPlannerNodeConfig& c, int groups) {
  c.min_altitude_ = ii(); c.max_altitude_ = ii(); c.max_cell_risk_ = dd(); c.smooth_factor_ = dd(); c.vert_to_hor_cost_ = dd(); c.risk_factor_ = dd(); c.neighbor_risk_flow_ = dd(); c.explore_penalty_ = dd(); c.up_cost_ = dd(); c.down_cost_ = dd(); c.search_time_ = dd(); c.min_overestimate_factor_ = dd(); c.max_overestimate_factor_ = dd(); c.risk_threshold_risk_based_speedup_ = dd(); c.default_speed_ = dd(); c.max_speed_ = dd(); c.max_iterations_ = ii();
  c.goal_must_be_free_ = bb(); c.use_current_yaw_ = bb(); c.use_risk_heuristics_ = bb(); c.use_speedup_heuristics_ = bb(); c.use_risk_based_speedup_ = bb(); c.clicked_goal_alt_ = dd(); c.clicked_goal_radius_ = dd(); c.simplify_iterations_ = ii(); c.simplify_margin_ = dd(); if (groups & 2) c.CELL_SCALE = dd(); if (groups & 4) { c.SPEEDNODE_RADIUS = dd(); static const char* T[3] = {"Node", "NodeWithoutSmooth", "SpeedNode"}; c.default_node_type_ = T[sym_concretize(sym_i32(nam("type", nd), 0, 2))]; }
}
static void globalIs(gp::GlobalPlannerNode& n, const gp::GlobalPlannerNodeConfig& c) {
  gp::GlobalPlanner& g = n.global_planner_;
  sym_assert((g.min_altitude_ == c.min_altitude_) & (g.max_altitude_ == c.max_altitude_) & eqd(g.max_cell_risk_, c.max_cell_risk_), "altitudes and risk limit"); sym_assert(eqd(g.smooth_factor_, c.smooth_factor_) & eqd(g.vert_to_hor_cost_, c.vert_to_hor_cost_) & eqd(g.risk_factor_, c.risk_factor_) & eqd(g.neighbor_risk_flow_, c.neighbor_risk_flow_) & eqd(g.explore_penalty_, c.explore_penalty_) & eqd(g.up_cost_, c.up_cost_) & eqd(g.down_cost_, c.down_cost_), "costs");
  sym_assert(eqd(g.search_time_, c.search_time_) & eqd(g.min_overestimate_factor_, c.min_overestimate_factor_) & eqd(g.max_overestimate_factor_, c.max_overestimate_factor_) & (g.max_iterations_ == c.max_iterations_), "search budget"); sym_assert(eqd(g.risk_threshold_risk_based_speedup_, c.risk_threshold_risk_based_speedup_) & eqd(g.default_speed_, c.default_speed_) & eqd(g.max_speed_, c.max_speed_), "speeds");
  sym_assert((g.goal_must_be_free_ == c.goal_must_be_free_) & (g.use_current_yaw_ == c.use_current_yaw_) & (g.use_risk_heuristics_ == c.use_risk_heuristics_) & (g.use_speedup_heuristics_ == c.use_speedup_heuristics_) & (g.use_risk_based_speedup_ == c.use_risk_based_speedup_), "switches"); sym_assert(eqd(n.clicked_goal_alt_, c.clicked_goal_alt_) & eqd(n.clicked_goal_radius_, c.clicked_goal_radius_) & (n.simplify_iterations_ == c.simplify_iterations_) & eqd(n.simplify_margin_, c.simplify_margin_), "goals and simplification");
  sym_assert(eqd(gp::CELL_SCALE, c.CELL_SCALE) & eqd(gp::SPEEDNODE_RADIUS, c.SPEEDNODE_RADIUS), "cell size and edge length"); sym_assert(g.default_node_type_ == c.default_node_type_, "and the search mode take effect whatever else changes");
}
//@ time=120
HARNESS C39_global_start() { nd = ni = nb = 0; gp::GlobalPlannerNode* n = new gp::GlobalPlannerNode(ros::NodeHandle(), ros::NodeHandle()); auto c = gp::GlobalPlannerNodeConfig::__getDefault__(); globalAny(c, 7); n->dynamicReconfigureCallback(c, ~0u); globalIs(*n, c); sym_cover("end"); }
//@ time=200
HARNESS C39_global_updates() {
  sym_merge(0); nd = ni = nb = 0; gp::GlobalPlannerNode* n = new gp::GlobalPlannerNode(ros::NodeHandle(), ros::NodeHandle()); auto c = gp::GlobalPlannerNodeConfig::__getDefault__(); n->dynamicReconfigureCallback(c, ~0u);
  for (int k = 0; k < 2; k++) { int g = sym_concretize(sym_i32(nam("groups", k), 0, 3)) * 2; globalAny(c, g); n->dynamicReconfigureCallback(c, g); globalIs(*n, c); } sym_cover("end");
}
using namespace avoidance;
static void localAny(LocalPlannerNodeConfig& c) {
  c.max_sensor_range_ = dd(); c.min_sensor_range_ = dd(); c.pitch_cost_param_ = dd(); c.yaw_cost_param_ = dd(); c.velocity_cost_param_ = dd(); c.obstacle_cost_param_ = dd(); c.tree_heuristic_weight_ = dd(); c.goal_z_param = sym_f64(nam("goal_z", nd), -20., 20.); c.timeout_startup_ = dd(); c.timeout_critical_ = dd(); c.timeout_termination_ = dd(); c.max_point_age_s_ = dd(); c.min_num_points_per_cell_ = ii(); c.smoothing_speed_xy_ = dd(); c.smoothing_speed_z_ = dd(); c.smoothing_margin_degrees_ = dd(); c.children_per_node_ = ii(); c.n_expanded_nodes_ = ii(); c.tree_node_distance_ = dd();
}
static LocalPlannerNodelet& local() { stub::now() = ros::Time(1000, 0); LocalPlannerNodelet* n = new LocalPlannerNodelet; n->InitializeNodelet(); return *n; }
//@ time=120
HARNESS C39_local() {
  nd = ni = nb = 0; LocalPlannerNodelet& n = local(); LocalPlanner& p = *n.local_planner_; StarPlanner& s = *p.star_planner_; p.setGoal(Eigen::Vector3f(11.f, -12.f, 2.f)); auto c = LocalPlannerNodeConfig::__getDefault__();
  for (int k = 0; k < 2; k++) {
    localAny(c); n.dynamicReconfigureCallback(c, k ? 0 : ~0u);
    sym_assert(eqf(p.max_sensor_range_, (float)c.max_sensor_range_) & eqf(p.min_sensor_range_, (float)c.min_sensor_range_) & eqf(s.max_sensor_range_, (float)c.max_sensor_range_) & eqf(s.min_sensor_range_, (float)c.min_sensor_range_) & eqf(s.max_path_length_, (float)c.max_sensor_range_), "sensor range");
    sym_assert(eqf(p.cost_params_.pitch_cost_param, (float)c.pitch_cost_param_) & eqf(p.cost_params_.yaw_cost_param, (float)c.yaw_cost_param_) & eqf(p.cost_params_.velocity_cost_param, (float)c.velocity_cost_param_) & eqf(p.cost_params_.obstacle_cost_param, (float)c.obstacle_cost_param_), "costs");
    sym_assert(eqf(s.tree_heuristic_weight_, (float)c.tree_heuristic_weight_) & (s.children_per_node_ == c.children_per_node_) & (s.n_expanded_nodes_ == c.n_expanded_nodes_) & eqf(s.tree_node_distance_, (float)c.tree_node_distance_) & eqf(s.smoothing_margin_degrees_, (float)c.smoothing_margin_degrees_), "search tree"); sym_assert((p.children_per_node_ == c.children_per_node_) & (p.n_expanded_nodes_ == c.n_expanded_nodes_) & eqf(p.smoothing_margin_degrees_, (float)c.smoothing_margin_degrees_), "smoothing");
    sym_assert(eqf(p.max_point_age_s_, (float)c.max_point_age_s_) & (p.min_num_points_per_cell_ == c.min_num_points_per_cell_), "remembered points"); sym_assert(eqf(n.wp_generator_->smoothing_speed_xy_, (float)c.smoothing_speed_xy_) & eqf(n.wp_generator_->smoothing_speed_z_, (float)c.smoothing_speed_z_), "response speed"); sym_assert(eqd(p.timeout_startup_, c.timeout_startup_) & eqd(p.timeout_critical_, c.timeout_critical_) & eqd(p.timeout_termination_, c.timeout_termination_), "time-outs");
    Eigen::Vector3f g = p.getGoal(), h = s.goal_; sym_assert((g.z() == (float)c.goal_z_param) & (g.x() == 11.f) & (g.y() == -12.f), "the goal's height"); sym_assert((h.x() == g.x()) & (h.y() == g.y()) & (h.z() == g.z()), "also for the search");
  } sym_cover("end");
}
//@ time=200
HARNESS C39_local_health() {  // the time-outs configured are those of the health check
  LocalPlannerNodelet& n = local(); auto c = LocalPlannerNodeConfig::__getDefault__(); static const double S[8] = {5., 0., 20., 5., 1., 60., 0.5, 10.}, C[8] = {0.5, 0.25, 3., 10., 0., 0.5, 2., 0.125}, T[8] = {15., 1., 2., 30., 0.5, 100., 1000., 0.}; int k = sym_concretize(sym_i32("timeouts", 0, 7)); c.timeout_startup_ = S[k]; c.timeout_critical_ = C[k]; c.timeout_termination_ = T[k]; n.dynamicReconfigureCallback(c, 0);
  ros::Duration cloud(sym_i32("cloud_s", 0, 120), sym_i32("cloud_ns", 0, 999999999)), start(sym_i32("start_s", 0, 120), sym_i32("start_ns", 0, 999999999)); n.avoidance_node_->setSystemStatus(MAV_STATE::MAV_STATE_ACTIVE); bool hover = false; n.position_received_ = true; n.checkFailsafe(cloud, start, hover); bool term = (cloud > ros::Duration(T[k])) & (start > ros::Duration(T[k])), crit = (cloud > ros::Duration(C[k])) & (start > ros::Duration(S[k]));
  MAV_STATE m = n.getSystemStatus(); sym_assert((m == MAV_STATE::MAV_STATE_FLIGHT_TERMINATION) == term, "flight termination follows the configured time-out"); sym_assert(term | ((m == MAV_STATE::MAV_STATE_ACTIVE) == !crit), "and so does the critical state"); sym_cover("end");
}
//@ time=120
HARNESS C39_detector() {
  nd = ni = nb = 0; SafeLandingPlannerNode n((ros::NodeHandle(""))); SafeLandingPlanner& p = *n.safe_landing_planner_; auto c = safe_landing_planner::SafeLandingPlannerNodeConfig::__getDefault__();
  for (int k = 0; k < 2; k++) {
    c.n_points_threshold = dd(); c.std_dev_threshold = dd(); c.smoothing_size = ii(); c.mean_diff_thr = dd(); c.max_n_mean_diff_cells = ii(); c.min_n_land_cells = ii(); c.grid_size = dd(); c.cell_size = dd(); c.alpha = dd(); c.timeout_critical = dd(); c.timeout_termination = dd(); n.dynamicReconfigureCallback(c, k ? 0 : ~0u);
    sym_assert(eqf(p.n_points_thr_, (float)c.n_points_threshold) & eqf(p.std_dev_thr_, (float)c.std_dev_threshold) & eqf(p.mean_diff_thr_, (float)c.mean_diff_thr), "thresholds"); sym_assert((p.smoothing_size_ == c.smoothing_size) & (p.max_n_mean_diff_cells_ == c.max_n_mean_diff_cells) & (p.min_n_land_cells_ == c.min_n_land_cells), "neighbourhood"); sym_assert(eqf(p.grid_size_, (float)c.grid_size) & eqf(p.cell_size_, (float)c.cell_size) & eqf(p.alpha_, (float)c.alpha), "grid"); sym_assert(eqd(p.timeout_critical_, c.timeout_critical) & eqd(p.timeout_termination_, c.timeout_termination), "time-outs");
    bool differs = (p.grid_.getGridSize() != p.grid_size_) | (p.grid_.getCellSize() != p.cell_size_) | (p.n_lines_padding_ != p.smoothing_size_); sym_assert(p.size_update_ == differs, "and the grid is rebuilt when it does not match"); auto& q = n.rqt_param_config_; sym_assert(eqd(q.n_points_threshold, c.n_points_threshold) & eqd(q.grid_size, c.grid_size) & eqd(q.cell_size, c.cell_size) & (q.smoothing_size == c.smoothing_size) & eqd(q.mean_diff_thr, c.mean_diff_thr), "the visualisation follows");
  } sym_cover("end");
}
//@ time=200
HARNESS C39_detector_resize() {
  sym_merge(0); SafeLandingPlannerNode n((ros::NodeHandle(""))); SafeLandingPlanner& p = *n.safe_landing_planner_; auto c = safe_landing_planner::SafeLandingPlannerNodeConfig::__getDefault__(); p.cell_size_ = 1.f; p.grid_.resize(3.f, 1.f); p.previous_grid_.resize(3.f, 1.f); p.n_lines_padding_ = 1;
  for (int k = 0; k < 3; k++) { int s = sym_concretize(sym_i32(nam("cells", k), 1, k < 2 ? 4 : 2)), w = sym_concretize(sym_i32(nam("smoothing", k), -1, k < 2 ? 3 : 0)); c.grid_size = s * 0.5; c.cell_size = 0.5; c.smoothing_size = w; n.dynamicReconfigureCallback(c, 0); bool run = k == 2 || sym_fork(sym_bool(nam("run", k))); if (!run) continue; p.cloud_.clear(); p.runSafeLandingPlanner(); sym_assert((p.grid_.getRowColSize() == s) & (p.previous_grid_.getRowColSize() == s) & (p.grid_.getCellSize() == 0.5f) & (p.grid_.getGridSize() == (float)c.grid_size), "the next evaluation uses the configured grid"); sym_assert((p.n_lines_padding_ == w) & !p.size_update_, "and smoothing"); }
  sym_cover("end");
}
