//! src=lp/nodes/local_planner_nodelet.cpp,lp/nodes/local_planner_visualization.cpp,lp/nodes/waypoint_generator.cpp,lp/nodes/local_planner.cpp,lp/nodes/planner_functions.cpp,lp/nodes/star_planner.cpp,lp/nodes/tree_node.cpp,avoidance/avoidance_node.cpp,avoidance/common.cpp,avoidance/histogram.cpp,avoidance/transform_buffer.cpp
//# callbacks: messages with every double/float bit pattern, any content of the planner inputs before; all 8 mode names plus 5 that are none of them; goal messages with any two validity flags, any 16-bit commands; two goal messages in a row
//# control cycle: any time since start and since the last planning result (0..40 s, nanoseconds), every status before, position present or arriving after 1-3 waits of any length up to 10 s; the way-point computation (C20-C22) is replaced by one that returns an arbitrary way point and records its inputs
//# threads: one pass of the planning thread, the cloud thread and the transform thread with 1 or 2 cameras; transforms are translations (the transform arithmetic is tf's), the transform buffer (C10) answers arbitrarily, planning (C14-C23) is replaced by a recorder
//# outside the claim: lock order and data races between the threads
#include "local_planner/local_planner_nodelet.h"
#include "local_planner/local_planner.h"
#include "local_planner/star_planner.h"
#include "local_planner/waypoint_generator.h"
#include "sym.h"
#include <cmath>
#include <ctime>
using namespace avoidance;
static bool eqd(double a, double b) { return (a == b) | ((a != a) & (b != b)); }
static bool eqf(float a, float b) { return (a == b) | ((a != a) & (b != b)); }
static bool eq3(const Eigen::Vector3f& a, const Eigen::Vector3f& b) { return eqf(a.x(), b.x()) & eqf(a.y(), b.y()) & eqf(a.z(), b.z()); }
template <class M> static bool is3(const Eigen::Vector3f& a, const M& b) { return eqf(a.x(), (float)b.x) & eqf(a.y(), (float)b.y) & eqf(a.z(), (float)b.z); }
static char nm[256][12];
static const char* nam(const char* b, int k) { static int c = 0; char* s = nm[c++ % 256]; int i = 0; while (b[i]) { s[i] = b[i]; i++; } s[i++] = '0' + k; s[i] = 0; return s; }
template <class P> static void any3(P& p, const char* b, int k) { p.x = sym_f64_any(nam(b, 3 * k)); p.y = sym_f64_any(nam(b, 3 * k + 1)); p.z = sym_f64_any(nam(b, 3 * k + 2)); }
static Eigen::Vector3f vec(const char* b) { return Eigen::Vector3f(sym_f32(nam(b, 0), -500.f, 500.f), sym_f32(nam(b, 1), -500.f, 500.f), sym_f32(nam(b, 2), -500.f, 500.f)); }
// stand-ins
static waypointResult WP; static int calls = 0; static Eigen::Vector3f uPos, uGoal, uPrev, uVel, uDes; static bool uHover, uAir, uLand, uTk; static NavigationState uNav; static Eigen::Quaternionf uQ;
static LocalPlannerNodelet* N; static int planned = 0; static Eigen::Vector3f pPos, pGoal; static size_t pClouds; static float pX; static ros::Time tick(9, 9);
static int tfCalls = 0; static bool tfLocal, tfFcu; static std::string tfSrc; static ros::Time tfTime; static bool tfNames;
namespace avoidance {
waypointResult WaypointGenerator::getWaypoints() { calls++; return WP; }
void WaypointGenerator::updateState(const Eigen::Vector3f& p, const Eigen::Quaternionf& q, const Eigen::Vector3f& g, const Eigen::Vector3f& pg, const Eigen::Vector3f& v, bool h, bool a, const NavigationState& n, const bool l, const bool t, const Eigen::Vector3f& d) { uPos = p; uQ = q; uGoal = g; uPrev = pg; uVel = v; uHover = h; uAir = a; uNav = n; uLand = l; uTk = t; uDes = d; }
void LocalPlanner::runPlanner() { planned++; pPos = position_; pGoal = goal_; pClouds = original_cloud_vector_.size(); pX = pClouds && original_cloud_vector_[0].size() ? original_cloud_vector_[0][0].x : NAN; stub::now() = tick; N->should_exit_ = true; }
namespace tf_buffer {
bool TransformBuffer::getTransform(const std::string& s, const std::string& t, const ros::Time& at, tf::StampedTransform& tr) const {
  tfCalls++; N->should_exit_ = true; if (s != tfSrc || !(at == tfTime)) tfNames = false; tr.setIdentity();
  if (t == "local_origin") { tr.setOrigin(tf::Vector3(10., 20., 30.)); return tfLocal; } if (t == "fcu") { tr.setOrigin(tf::Vector3(0., 0., 0.)); return tfFcu; } tfNames = false; return false;
}
}
}
extern "C" int nanosleep(const struct timespec*, struct timespec*) { if (N) N->should_exit_ = true; return 0; }
struct Nod : LocalPlannerNodelet { Nod() { N = this; stub::now() = ros::Time(1000, 0); InitializeNodelet(); } };
static void seed(LocalPlannerNodelet& n) {
  n.newest_position_ = vec("np"); n.goal_position_ = vec("g"); n.prev_goal_position_ = Eigen::Vector3f(4.f, 5.f, 6.f); n.velocity_ = Eigen::Vector3f(0.5f, 0.25f, 0.f); n.desired_velocity_ = Eigen::Vector3f(7.f, 8.f, 9.f); n.last_position_ = Eigen::Vector3f(0.f, 0.f, 0.f); n.new_goal_ = false;
  n.is_land_waypoint_ = sym_bool("land0"); n.is_takeoff_waypoint_ = sym_bool("tk0"); n.newest_orientation_ = Eigen::Quaternionf(1.f, 0.f, 0.f, 0.f); n.newest_waypoint_position_ = Eigen::Vector3f(1.f, 1.f, 1.f); n.newest_adapted_waypoint_position_ = Eigen::Vector3f(2.f, 2.f, 2.f); n.last_waypoint_position_ = n.last_adapted_waypoint_position_ = Eigen::Vector3f(3.f, 3.f, 3.f);
}
//@ time=120
HARNESS C24_pose_velocity() {
  Nod n; seed(n); Eigen::Vector3f before = n.newest_position_, goal = n.goal_position_, vel = n.velocity_; geometry_msgs::PoseStamped m; any3(m.pose.position, "p", 0); any3(m.pose.orientation, "o", 0); m.pose.orientation.w = sym_f64_any("ow"); n.position_received_ = false; n.positionCallback(m);
  sym_assert(is3(n.newest_position_, m.pose.position) & eq3(n.last_position_, before) & n.position_received_, "the vehicle's position is the message's"); sym_assert(eqf(n.newest_orientation_.x(), (float)m.pose.orientation.x) & eqf(n.newest_orientation_.y(), (float)m.pose.orientation.y) & eqf(n.newest_orientation_.z(), (float)m.pose.orientation.z) & eqf(n.newest_orientation_.w(), (float)m.pose.orientation.w), "and its orientation");
  sym_assert(eq3(n.goal_position_, goal) & eq3(n.velocity_, vel) & !n.new_goal_, "nothing else changes");
  geometry_msgs::TwistStamped t; any3(t.twist.linear, "v", 0); any3(t.twist.angular, "w", 0); Eigen::Vector3f pos = n.newest_position_; n.velocityCallback(t); sym_assert(is3(n.velocity_, t.twist.linear) & eq3(n.newest_position_, pos) & eq3(n.goal_position_, goal), "the velocity is the message's");
  mavros_msgs::Altitude a0, a; a0.bottom_clearance = 3.f; n.distanceSensorCallback(a0); a.bottom_clearance = sym_f32_any("clearance"); n.distanceSensorCallback(a); sym_assert(n.ground_distance_msg_.bottom_clearance == (std::isnan(a.bottom_clearance) ? 3.f : a.bottom_clearance), "a valid ground distance is kept"); sym_cover("end");
}
//@ time=120
HARNESS C24_state() {
  Nod n; seed(n); static const char* MODES[] = {"AUTO.MISSION", "AUTO.TAKEOFF", "AUTO.LAND", "AUTO.RTL", "AUTO.RTGS", "AUTO.LOITER", "OFFBOARD", "MANUAL", "", "AUTO.LANDED", "AUTO", "auto.mission", "POSCTL"};
  static const NavigationState W[] = {NavigationState::mission, NavigationState::auto_takeoff, NavigationState::auto_land, NavigationState::auto_rtl, NavigationState::auto_rtgs, NavigationState::auto_loiter, NavigationState::offboard};
  mavros_msgs::State m; int k = sym_concretize(sym_i32("mode", 0, 12)); m.mode = MODES[k]; m.armed = sym_bool("armed"); n.nav_state_ = (NavigationState)sym_i32("nav", 0, 7); n.armed_ = sym_bool("armed0"); Eigen::Vector3f goal = n.goal_position_; bool l = n.is_land_waypoint_; n.stateCallback(m);
  sym_assert(n.nav_state_ == (k < 7 ? W[k] : NavigationState::none), "the mode is the message's"); sym_assert(n.armed_ == (m.armed != 0), "and the arming state"); sym_assert(eq3(n.goal_position_, goal) & (n.is_land_waypoint_ == l), "nothing else changes"); sym_cover("end");
}
//@ time=300
HARNESS C24_fcu_goal() {
  Nod n; seed(n); n.goal_mission_item_msg_.pose.position.x = 3.; n.goal_mission_item_msg_.pose.position.y = -4.; n.goal_mission_item_msg_.pose.position.z = 12.; int bad = sym_concretize(sym_i32("goal_nan", 0, 3)); if (bad & 1) n.goal_position_.x() = NAN; if (bad & 2) n.goal_position_.y() = INFINITY;
  mavros_msgs::Trajectory m; any3(m.point_1.position, "p", 0); any3(m.point_1.velocity, "v", 0); int which = sym_concretize(sym_i32("item", 0, 3)); m.point_2.position = n.goal_mission_item_msg_.pose.position;
  double d = sym_f64("d", -400., 400.); sym_assume((d < 0.0099) | (d > 0.0101)); sym_assume((d < -0.0101) | (d > -0.0099)); if (which == 0) m.point_2.position.x += d; if (which == 1) m.point_2.position.y += d; if (which == 2) m.point_2.position.z += d; if (which == 3) m.point_2.position.x = m.point_2.position.y = m.point_2.position.z = NAN;
  m.point_2.yaw = sym_f32_any("yaw"); m.point_2.yaw_rate = sym_f32_any("yawrate"); bool v1 = sym_fork(sym_bool("valid1")), v2 = sym_fork(sym_bool("valid2")); m.point_valid = {v1, v2, false, false, false}; uint16_t c0 = (uint16_t)sym_i32("cmd0", 0, 65535), c1 = (uint16_t)sym_i32("cmd1", 0, 65535); m.command = {c0, c1, 0, 0, 0};
  Eigen::Vector3f goal = n.goal_position_, prev = n.prev_goal_position_, des = n.desired_velocity_; bool l = n.is_land_waypoint_, t = n.is_takeoff_waypoint_; auto item = n.goal_mission_item_msg_.pose.position; n.desired_yaw_setpoint_ = 0.5f; n.desired_yaw_speed_setpoint_ = 0.25f; n.fcuInputGoalCallback(m);
  bool take = v1 & ((bad != 0) | ((which != 3) & (std::fabs(d) > 0.01))), direct = v2 & (c1 == 65535);
  sym_assert(n.new_goal_ == take, "a goal is taken over exactly when valid and different from the current one"); sym_assert(eq3(n.prev_goal_position_, take ? goal : prev), "the previous goal is the one replaced");
  sym_assert(direct ? is3(n.goal_position_, m.point_2.position) : take ? is3(n.goal_position_, m.point_1.position) : eq3(n.goal_position_, goal), "the goal is the requested one"); sym_assert(direct ? (std::isnan(n.desired_velocity_.x()) & std::isnan(n.desired_velocity_.y()) & std::isnan(n.desired_velocity_.z())) : take ? is3(n.desired_velocity_, m.point_1.velocity) : eq3(n.desired_velocity_, des), "and the desired velocity");
  sym_assert(n.is_land_waypoint_ == (take ? c0 == 21 : l), "land item"); sym_assert(n.is_takeoff_waypoint_ == (take ? c0 == 22 : t), "take-off item");
  auto& it = n.goal_mission_item_msg_.pose.position; sym_assert(v2 ? eqd(it.x, m.point_2.position.x) & eqd(it.y, m.point_2.position.y) & eqd(it.z, m.point_2.position.z) : (it.x == item.x) & (it.y == item.y) & (it.z == item.z), "the item being flown"); sym_assert(eqf(n.desired_yaw_setpoint_, v2 ? m.point_2.yaw : 0.5f) & eqf(n.desired_yaw_speed_setpoint_, v2 ? m.point_2.yaw_rate : 0.25f), "the yaw asked for");
  if (v1 && v2) { n.new_goal_ = false; Eigen::Vector3f g = n.goal_position_, p = n.prev_goal_position_; sym_assume(std::isfinite(g.x()) & std::isfinite(g.y())); n.fcuInputGoalCallback(m); sym_assert(!n.new_goal_ & eq3(n.goal_position_, g) & eq3(n.prev_goal_position_, p), "repeating the same goal changes nothing"); }
  sym_cover("end");
}
//@ time=120
HARNESS C24_other_goals() {
  Nod n; seed(n); Eigen::Vector3f goal = n.goal_position_, prev = n.prev_goal_position_; visualization_msgs::MarkerArray a; int c = sym_concretize(sym_i32("markers", 0, 2)); a.markers.resize(c); for (int i = 0; i < c; i++) any3(a.markers[i].pose.position, "m", i); n.accept_goal_input_topic_ = sym_fork(sym_bool("accept")); n.updateGoalCallback(a); bool take = n.accept_goal_input_topic_ && c > 0;
  sym_assert(n.new_goal_ == take, "a goal from the topic is taken exactly when enabled"); sym_assert(eq3(n.prev_goal_position_, take ? goal : prev) && (take ? is3(n.goal_position_, a.markers[0].pose.position) : eq3(n.goal_position_, goal)), "it is the first one given");
  n.new_goal_ = false; goal = n.goal_position_; n.local_planner_->setGoal(Eigen::Vector3f(1.f, 2.f, 7.5f)); geometry_msgs::PoseStamped m; any3(m.pose.position, "p", 0); n.clickedGoalCallback(m);
  sym_assert(n.new_goal_ & eq3(n.prev_goal_position_, goal) & eqf(n.goal_position_.x(), (float)m.pose.position.x) & eqf(n.goal_position_.y(), (float)m.pose.position.y) & (n.goal_position_.z() == 7.5f), "a clicked goal keeps the configured altitude"); sym_cover("end");
}
//@ time=120
HARNESS C24_planner_info() {  // what the planner gets
  Nod n; seed(n); n.cameras_.resize(2); for (int i = 0; i < 2; i++) { auto& c = n.cameras_[i]; c.camera_mutex_.reset(new std::mutex); c.camera_cv_.reset(new std::condition_variable); c.received_ = c.transformed_ = true; c.transformed_cloud_.points.push_back(pcl::PointXYZ(sym_f32_any(nam("cx", i)), 1.f + i, 2.f)); c.fov_fcu_frame_ = FOV(10.f + i, 20.f + i, 30.f + i, 40.f + i); }
  n.armed_ = sym_fork(sym_bool("armed")); n.new_goal_ = sym_fork(sym_bool("new")); n.avoidance_node_->px4_.param_mpc_xy_cruise = sym_f32_any("cruise"); n.avoidance_node_->px4_.param_cp_dist = 5.f; n.avoidance_node_->mission_item_speed_ = sym_f32_any("speed"); n.velocity_ = vec("v"); Eigen::Vector3f g0(9.f, 8.f, 7.f); n.local_planner_->setGoal(g0); n.local_planner_->setPreviousGoal(g0); n.newest_waypoint_position_ = vec("wp"); bool fresh = n.new_goal_; float x0 = n.cameras_[0].transformed_cloud_[0].x, x1 = n.cameras_[1].transformed_cloud_[0].x; Eigen::Vector3f goal = n.goal_position_;
  n.updatePlannerInfo(); LocalPlanner& p = *n.local_planner_;
  sym_assert(eq3(p.position_, n.newest_position_) & eq3(p.velocity_, n.velocity_) & (p.currently_armed_ == n.armed_), "the planner works with the latest state"); sym_assert(eq3(p.getGoal(), fresh ? goal : g0) & !n.new_goal_ & eq3(p.prev_goal_, fresh ? n.prev_goal_position_ : g0), "a new goal is handed over once"); sym_assert(eq3(p.last_sent_waypoint_, n.newest_waypoint_position_), "with the last way point sent");
  sym_assert(eqf(p.px4_.param_mpc_xy_cruise, n.avoidance_node_->px4_.param_mpc_xy_cruise) & (p.px4_.param_cp_dist == 5.f) & eqf(p.mission_item_speed_, n.avoidance_node_->mission_item_speed_), "and the autopilot's parameters");
  sym_assert((p.original_cloud_vector_.size() == 2) && (p.original_cloud_vector_[0].size() == 1) && (p.original_cloud_vector_[1].size() == 1), "every camera's cloud"); sym_assert(eqf(p.original_cloud_vector_[0][0].x, x0) & eqf(p.original_cloud_vector_[1][0].x, x1) & (p.original_cloud_vector_[1][0].y == 2.f), "unchanged");
  for (int i = 0; i < 2; i++) sym_assert(n.cameras_[i].transformed_cloud_.empty() & !n.cameras_[i].transformed_ & (p.fov_fcu_frame_[i].yaw_deg == 10.f + i) & (n.wp_generator_->fov_fcu_frame_[i].h_fov_deg == 30.f + i), "each cloud is used once, with its camera's field of view");
  sym_cover("end");
}
static void cycle(bool waits) {
  Nod n; seed(n); calls = 0; MAV_STATE before = (MAV_STATE)sym_concretize(sym_i32("status", 0, 8)); n.avoidance_node_->setSystemStatus(before); n.hover_ = sym_bool("hover0"); n.armed_ = sym_fork(sym_bool("armed")); n.nav_state_ = (NavigationState)sym_concretize(sym_i32("nav", 0, 7)); n.position_received_ = !waits;
  n.local_planner_->timeout_termination_ = 12.; uint32_t s0 = sym_i32("t_start", 960, 1000), s1 = sym_i32("t_wp", 960, 1000), ns = sym_i32("ns", 0, 999999999); n.start_time_ = ros::Time(s0, 0); n.last_wp_time_ = ros::Time(s1, ns); sym_assume(n.last_wp_time_ <= ros::Time(1000, 0));
  int need = waits ? sym_concretize(sym_i32("spins", 1, 3)) : 0, spins = 0; bool late = false; geometry_msgs::PoseStamped pm; any3(pm.pose.position, "p", 0); pm.pose.orientation.w = 1.; MAV_STATE during[4]; bool lateAt[4];
  std::function<void()> f = [&] { during[spins] = n.getSystemStatus(); lateAt[spins] = late; spins++; stub::now() += ros::Duration(sym_i32(nam("wait", spins), 0, 10), sym_i32(nam("waitns", spins), 0, 999999999)); if (stub::now() - ros::Time(1000, 0) > ros::Duration(12.0)) late = true; if (spins == need) n.positionCallback(pm); }; stub::onSpin() = &f;
  WP.position_wp = vec("wp"); WP.orientation_wp = Eigen::Quaternionf(1.f, 0.f, 0.f, 0.f); WP.linear_velocity_wp = vec("lv"); WP.angular_velocity_wp = Eigen::Vector3f(0.f, 0.f, 0.125f); WP.goto_position = WP.adapted_goto_position = Eigen::Vector3f(5.f, 5.f, 5.f); WP.smoothed_goto_position = Eigen::Vector3f(6.f, 7.f, 8.f); WP.waypoint_type = PlannerState::TRY_PATH;
  stub::published<geometry_msgs::PoseStamped>().clear(); stub::published<mavros_msgs::Trajectory>().clear(); n.cmdLoopCallback(ros::TimerEvent()); stub::onSpin() = nullptr;
  ros::Duration sinceWp = stub::now() - n.last_wp_time_, sinceStart = stub::now() - n.start_time_;
  MAV_STATE now = n.getSystemStatus(); bool term = (sinceWp > ros::Duration(15.0)) & (sinceStart > ros::Duration(15.0)), crit = (sinceWp > ros::Duration(0.5)) & (sinceStart > ros::Duration(5.0)), active = !term & !crit;
  sym_assert(now == (term ? MAV_STATE::MAV_STATE_FLIGHT_TERMINATION : crit ? MAV_STATE::MAV_STATE_CRITICAL : MAV_STATE::MAV_STATE_ACTIVE), "the status follows the age of the last planning result"); sym_assert(spins == need, "it waits for a position"); for (int i = 0; i < spins; i++) sym_assert(!lateAt[i] | (during[i] == MAV_STATE::MAV_STATE_FLIGHT_TERMINATION), "a position missing for too long is reported");
  int np = stub::publishedOn<geometry_msgs::PoseStamped>("mavros/setpoint_position/local"), nt = stub::publishedOn<mavros_msgs::Trajectory>("mavros/trajectory/generated");
  sym_assert((np == (active ? 1 : 0)) & (nt == np) & (calls == np), "a setpoint is published exactly while active"); sym_assert(!n.position_received_, "the next cycle needs a new position");
  if (np == 1) {
    const geometry_msgs::PoseStamped* q = nullptr; for (auto& m : stub::published<geometry_msgs::PoseStamped>()) if (m.first == "mavros/setpoint_position/local") q = &m.second; const mavros_msgs::Trajectory& t = stub::published<mavros_msgs::Trajectory>().back().second;
    sym_assert((q->pose.position.x == (double)WP.position_wp.x()) & (q->pose.position.y == (double)WP.position_wp.y()) & (q->pose.position.z == (double)WP.position_wp.z()) & (q->pose.orientation.w == 1.), "the position setpoint is the way point"); sym_assert((t.point_1.position.x == (double)WP.position_wp.x()) & (t.point_1.position.z == (double)WP.position_wp.z()) & (t.point_1.velocity.x == (double)WP.linear_velocity_wp.x()) & (t.point_1.velocity.y == (double)WP.linear_velocity_wp.y()) & (t.point_1.velocity.z == (double)WP.linear_velocity_wp.z()), "the trajectory carries it");
    sym_assert(eq3(uPos, n.newest_position_) & (!waits || is3(uPos, pm.pose.position)) & eq3(uGoal, n.goal_position_) & eq3(uPrev, n.prev_goal_position_) & eq3(uVel, n.velocity_) & eq3(uDes, n.desired_velocity_), "computed from the newest state"); sym_assert((uNav == n.nav_state_) & (uAir == (n.armed_ && n.nav_state_ != NavigationState::none)) & (uLand == n.is_land_waypoint_) & (uTk == n.is_takeoff_waypoint_) & !uHover, "and mode"); sym_assert(eq3(n.newest_waypoint_position_, WP.smoothed_goto_position), "the way point sent is remembered");
  }
  sym_cover("end");
}
//@ time=300
HARNESS C24_cycle() { cycle(false); }
//@ time=300
HARNESS C24_cycle_waiting() { cycle(true); }
//@ time=120
HARNESS C24_range() {
  Nod n; sensor_msgs::LaserScan& d = n.local_planner_->distance_data_; d.angle_increment = sym_f32_any("increment"); d.ranges.assign(4, 2.5f); d.ranges[1] = sym_f32_any("range"); n.local_planner_->px4_.param_cp_dist = sym_f32_any("cp_dist"); stub::published<sensor_msgs::LaserScan>().clear(); n.publishLaserScan(); bool cp = n.local_planner_->px4_.param_cp_dist < 0.f, want = !cp & (d.angle_increment > 0.f); int k = stub::publishedOn<sensor_msgs::LaserScan>("mavros/obstacle/send");
  sym_assert((k == (want ? 1 : 0)) & (stub::published<sensor_msgs::LaserScan>().size() == (size_t)k), "a range message is sent exactly when the autopilot avoids collisions and there is data"); if (k) { auto& m = stub::published<sensor_msgs::LaserScan>()[0].second; sym_assert((m.ranges.size() == 4) && (eqf(m.ranges[1], d.ranges[1]) & (m.ranges[3] == 2.5f) & (m.angle_increment == d.angle_increment)), "it is the planner's"); } sym_cover("end");
}
static void camera(LocalPlannerNodelet& n, int i) { auto& c = n.cameras_[i]; c.camera_mutex_.reset(new std::mutex); c.camera_cv_.reset(new std::condition_variable); c.received_ = c.transformed_ = false; }
static std::shared_ptr<sensor_msgs::PointCloud2> cloud(double base, uint32_t s, uint32_t us, const char* frame) { std::shared_ptr<sensor_msgs::PointCloud2> m(new sensor_msgs::PointCloud2); m->header.frame_id = frame; m->header.stamp = ros::Time(s, us * 1000u); for (int k = 0; k < 6; k++) m->stub_xyz.push_back((float)(base + k)); m->width = 2; m->height = 1; return m; }
//@ time=120
HARNESS C24_cloud_in() {
  Nod n; n.cameras_.resize(2); camera(n, 0); camera(n, 1); n.pointCloudCallback(cloud(1., 500, 0, "cam0"), 0); auto& c = n.cameras_[0];
  sym_assert((c.received_) & (c.untransformed_cloud_.size() == 2) & !n.cameras_[1].received_, "a cloud is kept for its camera"); sym_assert((c.untransformed_cloud_[1].x == 4.f) & (c.untransformed_cloud_[0].z == 3.f) & (c.untransformed_cloud_.header.frame_id == "cam0"), "unchanged");
  sym_assert(n.buffered_transforms_.size() == 2 && n.buffered_transforms_[0] == std::make_pair(std::string("cam0"), std::string("local_origin")) && n.buffered_transforms_[1] == std::make_pair(std::string("cam0"), std::string("fcu")), "its transforms are asked for");
  uint32_t us = sym_i32("us", 0, 900000); c.received_ = sym_fork(sym_bool("pending")); bool drop = c.received_ & (us < 300000); n.pointCloudCallback(cloud(7., 500, us, "cam0"), 0); sym_assert(c.untransformed_cloud_[0].x == (drop ? 1.f : 7.f), "a cloud waiting to be transformed is replaced once it is 0.3 s old"); sym_assert(c.received_ & (n.buffered_transforms_.size() == 2), "and transforms are asked for once");
  n.pointCloudCallback(cloud(20., 500, 5, "cam1"), 1); sym_assert(n.buffered_transforms_.size() == 4 && n.buffered_transforms_[2].first == "cam1" && n.buffered_transforms_[3].second == "fcu" && n.cameras_[1].untransformed_cloud_[0].x == 20.f, "each camera has its own"); sym_cover("end");
}
//@ time=120 args=--reals
HARNESS C24_cloud_transform() {
  Nod n; n.cameras_.resize(2); camera(n, 0); camera(n, 1); int i = sym_concretize(sym_i32("camera", 0, 1)); auto& c = n.cameras_[i]; float x = sym_f32("x", 1.f, 30.f), y = sym_f32("y", -30.f, 30.f); c.untransformed_cloud_.points.push_back(pcl::PointXYZ(x, y, 2.f)); c.untransformed_cloud_.points.push_back(pcl::PointXYZ(NAN, 1.f, 1.f)); c.untransformed_cloud_.header.frame_id = "cam"; c.untransformed_cloud_.header.stamp = 500000123ull; c.received_ = sym_fork(sym_bool("received"));
  tfSrc = "cam"; tfTime = ros::Time(500, 123000); tfNames = true; tfCalls = 0; tfLocal = sym_fork(sym_bool("tf_local")); tfFcu = sym_fork(sym_bool("tf_fcu")); bool r = c.received_, go = r && tfLocal && tfFcu; if (!r) sym_exit();
  n.pointCloudTransformThread(i); sym_assert(tfNames & (tfCalls > 0), "the camera's transforms at the cloud's time"); sym_assert((c.transformed_ == go) & (c.received_ == !go) & !n.cameras_[1 - i].transformed_, "a cloud is transformed as soon as both transforms are known, else kept");
  if (go) { sym_assert((c.transformed_cloud_.size() == 1) && ((std::fabs(c.transformed_cloud_[0].x - x - 10.f) < 1e-3f) & (std::fabs(c.transformed_cloud_[0].y - y - 20.f) < 1e-3f) & (c.transformed_cloud_[0].z == 32.f)), "into the planner's frame"); sym_assert((c.transformed_cloud_.header.frame_id == "local_origin") & (c.transformed_cloud_.header.stamp == 500000123ull), "with its time"); sym_assert(n.numTransformedClouds() == 1, "and counted"); }
  else sym_assert(c.transformed_cloud_.empty() & (c.untransformed_cloud_.size() == 2) & (n.numTransformedClouds() == 0), "untouched");
  sym_cover("end");
}
//@ time=120
HARNESS C24_plan_thread() {
  Nod n; seed(n); n.cameras_.resize(1); camera(n, 0); n.cameras_[0].transformed_ = true; float cx = sym_f32_any("cx"); n.cameras_[0].transformed_cloud_.points.push_back(pcl::PointXYZ(cx, 2.f, 3.f)); n.new_goal_ = true; planned = 0; tick = ros::Time(1000, sym_i32("took", 0, 999999999)); n.local_planner_->px4_.param_cp_dist = -1.f; n.avoidance_node_->px4_.param_cp_dist = sym_fork(sym_bool("cp")) ? 2.f : -1.f; n.local_planner_->distance_data_.angle_increment = 0.1f; stub::published<sensor_msgs::LaserScan>().clear();
  n.local_planner_->last_path_time_ = ros::Time(999, 7); n.local_planner_->star_planner_->path_node_positions_.push_back(Eigen::Vector3f(1.f, 2.f, 3.f)); n.local_planner_->star_planner_->path_node_positions_.push_back(Eigen::Vector3f(2.f, 2.f, 3.f)); Eigen::Vector3f goal = n.goal_position_; n.threadFunction();
  sym_assert(planned == 1, "one planning pass per set of clouds"); sym_assert(eq3(pPos, n.newest_position_) & eq3(pGoal, goal) & (pClouds == 1) & eqf(pX, cx), "with the newest inputs"); sym_assert(n.last_wp_time_ == tick, "its time is noted when it is done"); avoidanceOutput& o = n.wp_generator_->planner_info_; sym_assert((o.path_node_positions.size() == 2) & (o.last_path_time == ros::Time(999, 7)), "and its result handed on"); sym_assert(stub::publishedOn<sensor_msgs::LaserScan>("mavros/obstacle/send") == (n.avoidance_node_->px4_.param_cp_dist > 0.f ? 1 : 0), "with the ranges if wanted"); sym_assert(!n.cameras_[0].transformed_, "the cloud is used up"); sym_cover("end");
}
//@ time=60
HARNESS C24_tf_thread() {
  Nod n; n.buffered_transforms_.push_back({"cam0", "local_origin"}); n.buffered_transforms_.push_back({"cam0", "fcu"}); n.tf_listener_->can = sym_fork(sym_bool("can")); n.tf_listener_->fail = sym_fork(sym_bool("fail")); n.tf_listener_->t.stamp_ = ros::Time(990, 5); n.transformBufferThread(); bool got = n.tf_listener_->can && !n.tf_listener_->fail; ros::Time t;
  auto& b = n.tf_buffer_.buffer_; int k = 0; for (auto& e : b) k += e.second.size(); sym_assert(k == (got ? 2 : 0), "every transform available is buffered, and no other"); for (auto& e : b) for (auto& s : e.second) sym_assert(s.stamp_ == ros::Time(990, 5), "as received"); sym_cover("end");
}
//@ time=60
HARNESS C24_config() {
  Nod n; avoidance::LocalPlannerNodeConfig c = avoidance::LocalPlannerNodeConfig::__getDefault__(); c.smoothing_speed_xy_ = sym_f64("xy", 0., 30.); c.smoothing_speed_z_ = sym_f64("z", 0., 30.); c.max_sensor_range_ = 17.5; n.dynamicReconfigureCallback(c, 0); sym_assert((n.wp_generator_->smoothing_speed_xy_ == (float)c.smoothing_speed_xy_) & (n.wp_generator_->smoothing_speed_z_ == (float)c.smoothing_speed_z_) & (n.local_planner_->max_sensor_range_ == 17.5f), "the configuration reaches planner and way-point generator");
  sym_assert((n.getSystemStatus() == MAV_STATE::MAV_STATE_BOOT) & !n.armed_ & !n.hover_ & (n.nav_state_ == NavigationState::none), "at start nothing is assumed"); sym_cover("end");
}
