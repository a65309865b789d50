//! src=lp/nodes/local_planner.cpp,lp/nodes/planner_functions.cpp,lp/nodes/star_planner.cpp,lp/nodes/tree_node.cpp,avoidance/common.cpp,avoidance/histogram.cpp
//# speed: any sensor range 0.5..40 m, horizontal acceleration 0.5..15 m/s2 and cruise/mission speeds 0..30 m/s, jerk one of 6 values 1..100 m/s3; mission speed known or not
//# planning decision: empty cloud, one point at 5 places; goals along 4 directions at any distance, vehicle anywhere within 60 m; the tree search and the cost matrix themselves are replaced by recorders (C17-C19 decide them)
//# real-number arithmetic, tolerance 1e-3
#include "local_planner/local_planner.h"
#include "local_planner/planner_functions.h"
#include "local_planner/star_planner.h"
#include "local_planner/tree_node.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;
static int built = 0, costed = 0; static size_t sSize; static float sX; static costParameters sCost; static Eigen::Vector3f sClosest, sGoal, sPos, sVel;  // what the search was started with
static Eigen::Vector3f cClosest, cGoal, cPos, cVel;
namespace avoidance {
void StarPlanner::buildLookAheadTree() { built++; sClosest = closest_pt_; sGoal = goal_; sPos = position_; sVel = velocity_; sSize = cloud_.size(); sX = sSize ? cloud_[0].x : NAN; sCost = cost_params_; }
void getCostMatrix(const Histogram& h, const Eigen::Vector3f& goal, const Eigen::Vector3f& position, const Eigen::Vector3f& velocity, const costParameters& cp, float sm, const Eigen::Vector3f& cl, const float mx, const float mn, Eigen::MatrixXf& m, std::vector<uint8_t>& img) { costed++; cClosest = cl; cGoal = goal; cPos = position; cVel = velocity; m.resize(GRID_LENGTH_E, GRID_LENGTH_Z); m.fill(1.f); img.assign(3 * GRID_LENGTH_E * GRID_LENGTH_Z, 0); }
}
static void config(LocalPlanner& p, float range) { avoidance::LocalPlannerNodeConfig c = avoidance::LocalPlannerNodeConfig::__getDefault__(); c.max_sensor_range_ = range; c.min_sensor_range_ = 0.2; p.dynamicReconfigureSetParams(c, 0); }
//@ time=200 args=--reals
HARNESS C23_speed() {
  LocalPlanner p; float R = sym_f32("range", 0.5f, 40.f), a = sym_f32("acc", 0.5f, 15.f), cruise = sym_f32("cruise", 0.f, 30.f), mission = sym_f32("mission", 0.f, 30.f); static const float J[6] = {1.f, 2.f, 8.f, 20.f, 50.f, 100.f}; float j = J[sym_concretize(sym_i32("jerk", 0, 5))];
  config(p, R); p.px4_.param_mpc_acc_hor = a; p.px4_.param_mpc_jerk_max = j; p.px4_.param_mpc_xy_cruise = cruise; bool m = sym_fork(sym_bool("mission_known")); p.mission_item_speed_ = m ? mission : NAN;
  p.last_path_time_ = ros::Time(77, 5); p.star_planner_->path_node_positions_.push_back(Eigen::Vector3f(1.f, 2.f, 3.f)); p.star_planner_->path_node_positions_.push_back(Eigen::Vector3f(4.f, 5.f, 6.f));
  avoidanceOutput o = p.getAvoidanceOutput(); float u = o.cruise_velocity, want = m ? mission : cruise;
  sym_assert(std::isfinite(u) & (u >= 0.f), "the speed is finite and not negative"); sym_assert(u <= want, "never above the mission speed, or the configured one without it");
  sym_assert(u * u / (2.f * a) + u * a / j <= R + 1e-3f, "the vehicle can stop within its sensor range");
  sym_assert((u == want) | (u * u / (2.f * a) + u * a / j >= R - 1e-3f), "and the speed is not limited needlessly");
  sym_assert((o.last_path_time.sec == 77) & (o.last_path_time.nsec == 5), "the time the path was planned"); sym_assert((o.path_node_positions.size() == 2) && (o.path_node_positions[0] == Eigen::Vector3f(1.f, 2.f, 3.f)) && (o.path_node_positions[1] == Eigen::Vector3f(4.f, 5.f, 6.f)), "the planned path");
  sym_cover("end");
}
//@ time=60
HARNESS C23_unknown() {  // before the autopilot's parameters are known
  LocalPlanner p; config(p, 12.f); p.px4_ = ModelParameters(); p.px4_.param_mpc_xy_cruise = 4.f; p.mission_item_speed_ = sym_f32("mission", 0.f, 30.f);
  sym_assert(p.getAvoidanceOutput().cruise_velocity == p.mission_item_speed_, "the mission speed alone"); p.mission_item_speed_ = NAN; sym_assert(p.getAvoidanceOutput().cruise_velocity == 4.f, "the configured speed alone");
  p.setDefaultPx4Parameters(); const ModelParameters& q = p.px4_; sym_assert((q.param_mpc_xy_cruise > 0.f) & (q.param_mpc_acc_hor > 0.f) & (q.param_mpc_jerk_max > q.param_mpc_jerk_min) & (q.param_mpc_jerk_min > 0.f) & (q.param_mpc_z_vel_max_up > 0.f) & (q.param_mpc_z_vel_max_dn > 0.f) & (q.param_mpc_tko_speed > 0.f) & (q.param_mpc_land_speed > 0.f) & (q.param_mpc_acc_up_max > 0.f) & (q.param_mpc_acc_down_max > 0.f), "the default parameters are usable");
  float u = p.getAvoidanceOutput().cruise_velocity; sym_assert((u > 0.f) & (u <= q.param_mpc_xy_cruise), "and give a speed"); sym_cover("end");
}
static void plan(bool obstacle) {
  LocalPlanner p; config(p, 12.f); built = costed = 0; stub::now() = ros::Time(500, 7); p.last_path_time_ = ros::Time(77, 5); p.px4_.param_cp_dist = -1.f; p.px4_.param_mpc_xy_cruise = 3.f;
  static const float D[4][2] = {{1.f, 0.f}, {0.f, -1.f}, {0.6f, 0.8f}, {-0.8f, 0.6f}}; int k = sym_concretize(sym_i32("dir", 0, 3)); Eigen::Vector3f prev(3.f, -4.f, 2.f), goal = prev; bool same = sym_fork(sym_bool("same"));
  float len = same ? 0.f : sym_f32("len", 0.5f, 200.f); goal.x() += len * D[k][0]; goal.y() += len * D[k][1]; goal.z() = 9.f; float along = sym_f32("along", -60.f, 60.f), off = sym_f32("off", -60.f, 60.f); sym_assume((off < 2.99f) | (off > 3.01f)); sym_assume((off < -3.01f) | (off > -2.99f));
  Eigen::Vector3f pos(prev.x() + along * D[k][0] - off * D[k][1], prev.y() + along * D[k][1] + off * D[k][0], 5.f), vel(1.f, 2.f, 0.f); p.setState(pos, vel, Eigen::Quaternionf(1.f, 0.f, 0.f, 0.f)); p.setGoal(goal); p.setPreviousGoal(prev); p.cost_image_data_.push_back(7);
  p.star_planner_->path_node_positions_.push_back(goal);
  if (obstacle) { p.final_cloud_.resize(1); p.final_cloud_[0].x = pos.x() + 2.f; p.final_cloud_[0].y = pos.y() + 1.f; p.final_cloud_[0].z = pos.z() + 0.1f; p.final_cloud_[0].intensity = 0.f; }
  p.determineStrategy();
  sym_assert(built == (obstacle ? 1 : 0), "a path is planned exactly when the latest cloud shows an obstacle"); sym_assert(costed == built, "with costs for the situation"); avoidanceOutput o = p.getAvoidanceOutput();
  sym_assert(obstacle ? (o.last_path_time.sec == 500) & (o.last_path_time.nsec == 7) : (o.last_path_time.sec == 77) & (o.last_path_time.nsec == 5), "the output's time is that of the last planning"); sym_assert(o.path_node_positions.size() == 1, "the output carries the search's path");
  Eigen::Vector3f want(prev.x() + along * D[k][0], prev.y() + along * D[k][1], goal.z()); if (same || std::fabs(off) < 3.f) want = goal;
  Eigen::Vector3f c = p.closest_pt_; sym_assert((std::fabs(c.x() - want.x()) < 5e-3f) & (std::fabs(c.y() - want.y()) < 5e-3f) & (c.z() == want.z()), "the plan is drawn to the line between the goals when far off it, else to the goal");
  if (obstacle) { sym_assert((cClosest == c) & (cGoal == goal) & (cPos == pos) & (cVel == vel), "the costs are those of the current situation"); sym_assert((sClosest == c) & (sGoal == goal) & (sPos == pos) & (sVel == vel), "the search starts from the current situation"); sym_assert((sSize == 1) && (sX == p.final_cloud_[0].x), "with the latest cloud"); sym_assert((sCost.obstacle_cost_param == p.cost_params_.obstacle_cost_param) & (sCost.yaw_cost_param == p.cost_params_.yaw_cost_param) & (sCost.pitch_cost_param == p.cost_params_.pitch_cost_param) & (sCost.velocity_cost_param == p.cost_params_.velocity_cost_param), "and the configured costs"); }
  sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C23_plan_obstacle() { plan(true); }
//@ time=200 args=--reals
HARNESS C23_plan_free() { plan(false); }
//@ time=60
HARNESS C23_config() {  // the configuration reaches the planner and its search
  LocalPlanner p; avoidance::LocalPlannerNodeConfig c = avoidance::LocalPlannerNodeConfig::__getDefault__(); c.max_sensor_range_ = 17.5; c.min_sensor_range_ = 0.25; c.pitch_cost_param_ = sym_f64("pitch", 0., 30.); c.yaw_cost_param_ = sym_f64("yaw", 0., 20.); c.velocity_cost_param_ = sym_f64("vel", 0., 50000.); c.obstacle_cost_param_ = sym_f64("obs", 0., 30.); c.max_point_age_s_ = 33.; c.min_num_points_per_cell_ = sym_i32("cell", 1, 100); c.timeout_startup_ = 4.; c.timeout_critical_ = 0.75; c.timeout_termination_ = 12.;
  c.children_per_node_ = sym_i32("children", 0, 100); c.n_expanded_nodes_ = sym_i32("expand", 0, 200); c.tree_node_distance_ = 1.5; c.smoothing_margin_degrees_ = 25.; c.tree_heuristic_weight_ = 11.; c.goal_z_param = sym_f64("goal_z", -20., 20.); p.setGoal(Eigen::Vector3f(1.f, 2.f, 3.f)); p.dynamicReconfigureSetParams(c, 0); StarPlanner& s = *p.star_planner_;
  sym_assert((p.cost_params_.pitch_cost_param == (float)c.pitch_cost_param_) & (p.cost_params_.yaw_cost_param == (float)c.yaw_cost_param_) & (p.cost_params_.velocity_cost_param == (float)c.velocity_cost_param_) & (p.cost_params_.obstacle_cost_param == (float)c.obstacle_cost_param_), "cost parameters");
  sym_assert((p.max_sensor_range_ == 17.5f) & (p.getSensorRange() == 17.5f) & (p.min_sensor_range_ == 0.25f) & (p.max_point_age_s_ == 33.f) & (p.min_num_points_per_cell_ == c.min_num_points_per_cell_) & (p.timeout_startup_ == 4.) & (p.timeout_critical_ == 0.75) & (p.timeout_termination_ == 12.) & (p.smoothing_margin_degrees_ == 25.f), "planner parameters");
  sym_assert((s.children_per_node_ == c.children_per_node_) & (s.n_expanded_nodes_ == c.n_expanded_nodes_) & (s.tree_node_distance_ == 1.5f) & (s.max_path_length_ == 17.5f) & (s.smoothing_margin_degrees_ == 25.f) & (s.tree_heuristic_weight_ == 11.f) & (s.max_sensor_range_ == 17.5f) & (s.min_sensor_range_ == 0.25f), "search parameters");
  sym_assert((p.getGoal().x() == 1.f) & (p.getGoal().y() == 2.f) & (p.getGoal().z() == (float)c.goal_z_param) & (s.goal_ == p.getGoal()), "a changed goal altitude moves the goal"); sym_cover("end");
}
