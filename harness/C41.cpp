//! src=lp/nodes/local_planner_nodelet.cpp,lp/nodes/local_planner_visualization.cpp,lp/nodes/waypoint_generator.cpp,lp/nodes/local_planner.cpp,lp/nodes/planner_functions.cpp,lp/nodes/star_planner.cpp,lp/nodes/tree_node.cpp,avoidance/avoidance_node.cpp,avoidance/common.cpp,avoidance/histogram.cpp,avoidance/transform_buffer.cpp
//# start: launch goal with every double bit pattern per axis or absent, goal input accepted, refused or not configured, 0..3 cameras; node and private parameters are told apart
//# inputs: one message per documented topic with every float/double bit pattern in its fields, delivered through the subscriptions the node made (topic name and message type must match); the callbacks' own behaviour is C24 and C12
//# loops: the timers the node made are fired by hand once for each; ages of the last cloud and start 0..40 s; threads are recorded and each run for one pass
//# the middleware is a model: names resolve by concatenation, one callback queue per spinner; outside the claim: remapping, queue sizes, latching
#include "local_planner/local_planner_nodelet.h"
#include "local_planner/local_planner.h"
#include "local_planner/waypoint_generator.h"
#include "sym.h"
#include <cmath>
#include <ctime>
#include <pthread.h>
using namespace avoidance;
static bool eqd(double a, double b) { return (a == b) | ((a != a) & (b != b)); }
static bool eqf(float a, float b) { return (a == b) | ((a != a) & (b != b)); }
template <class M> static bool is3(const Eigen::Vector3f& a, const M& b) { return eqf(a.x(), (float)b.x) & eqf(a.y(), (float)b.y) & eqf(a.z(), (float)b.z); }
static char nm[256][12];
static const char* nam(const char* b, int k) { static int c = 0; char* s = nm[c++ % 256]; int i = 0; while (b[i]) { s[i] = b[i]; i++; } s[i++] = '0' + k; s[i] = 0; return s; }
template <class P> static void any3(P& p, const char* b) { p.x = sym_f64_any(nam(b, 0)); p.y = sym_f64_any(nam(b, 1)); p.z = sym_f64_any(nam(b, 2)); }
// threads are recorded; waiting and sleeping end the node
static LocalPlannerNodelet* N = nullptr; static std::vector<std::thread::_State*> threads; static const void* waitedOn = nullptr; static int waits = 0, sleeps = 0, looked = 0, asked = 0;
namespace std {
void thread::_M_start_thread(_State_ptr s, void (*)()) { threads.push_back(s.release()); }
void condition_variable::wait(unique_lock<mutex>&) { waitedOn = native_handle(); waits++; if (N) N->should_exit_ = true; }
namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(); } } }
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t*, clockid_t, const struct timespec*) { waitedOn = c; waits++; if (N) N->should_exit_ = true; return 0; }
extern "C" int nanosleep(const struct timespec*, struct timespec*) { sleeps++; if (N) { N->should_exit_ = true; N->avoidance_node_->should_exit_ = true; } return 0; }
static waypointResult WP; static int calls = 0;
namespace avoidance {
waypointResult WaypointGenerator::getWaypoints() { calls++; return WP; }
}
static const char* CAM[3] = {"/camera_front/depth/points", "/camera_left/depth/points", "/camera_right/depth/points"};
static LocalPlannerNodelet& node(int cams, bool start = true) {
  stub::now() = ros::Time(1000, 0); std::vector<std::string> t; for (int i = 0; i < cams; i++) t.push_back(CAM[i]); stub::params<std::vector<std::string>>()["~nodelet/pointcloud_topics"] = t;
  N = new LocalPlannerNodelet; if (start) N->onInit(); else { N->InitializeNodelet(); } return *N;
}
static ros::TimerOptions* timer(int ms) { ros::TimerOptions* r = nullptr; for (auto& t : stub::timers()) { bool is = t.period == ros::Duration(0, ms * 1000000); if (is) r = &t; } return r; }
static bool servedOnce(ros::CallbackQueue* q) { int n = 0; for (auto* s : stub::served()) n += s == q; return q && n == 1; }
template <class M> static bool one(const char* topic, const M& m) { int n = 0; for (auto& s : stub::subs()) n += s.topic == topic; return n == 1 && stub::deliver<M>(topic, m) == 1; }
//@ time=120
HARNESS C41_launch() {
  double g[3]; int set = sym_concretize(sym_i32("configured", 0, 7)); static const char* P[3] = {"~goal_x_param", "~goal_y_param", "~goal_z_param"}; static const char* O[3] = {"goal_x_param", "goal_y_param", "goal_z_param"};
  for (int i = 0; i < 3; i++) { g[i] = sym_f64_any(nam("g", i)); if (set >> i & 1) stub::params<double>()[P[i]] = g[i]; stub::params<double>()[O[i]] = 77.; }
  int acc = sym_concretize(sym_i32("accept", 0, 2)); if (acc < 2) stub::params<bool>()["~accept_goal_input_topic"] = acc == 1;
  LocalPlannerNodelet& n = node(sym_concretize(sym_i32("cameras", 0, 1)));
  for (int i = 0; i < 3; i++) sym_assert(eqf(n.goal_position_(i), (set >> i & 1) ? (float)g[i] : 0.f), "the first goal is the one configured at launch");
  sym_assert(n.new_goal_, "and is given to the planner"); sym_assert(n.accept_goal_input_topic_ == (acc == 1), "other goals are accepted only when configured"); sym_assert(!n.armed_ & !n.hover_ & !n.position_received_, "the node starts disarmed, without a position");
  sym_assert(n.start_time_ == ros::Time(1000, 0), "the start is noted"); sym_assert(n.getSystemStatus() == MAV_STATE::MAV_STATE_BOOT, "the status starts as booting"); n.updatePlannerInfo(); Eigen::Vector3f t = n.local_planner_->getGoal(); sym_assert(eqf(t.x(), n.goal_position_.x()) & eqf(t.y(), n.goal_position_.y()) & eqf(t.z(), n.goal_position_.z()), "the planner flies to it"); sym_assert(!n.new_goal_, "once"); sym_cover("end");
}
//@ time=120
HARNESS C41_vehicle_inputs() {
  LocalPlannerNodelet& n = node(1); geometry_msgs::PoseStamped p; any3(p.pose.position, "p"); p.pose.orientation.w = sym_f64_any("w"); sym_assert(one("mavros/local_position/pose", p), "the vehicle's pose is received once"); sym_assert(is3(n.newest_position_, p.pose.position) & eqf(n.newest_orientation_.w(), (float)p.pose.orientation.w) & n.position_received_, "as the position"); sym_assert(std::isnan(n.ground_distance_msg_.bottom_clearance) | (n.ground_distance_msg_.bottom_clearance == 0.f), "and nothing else");
  geometry_msgs::TwistStamped v; any3(v.twist.linear, "v"); int a = 0, b = 0; for (auto& s : stub::subs()) { a += s.topic == "mavros/local_position/velocity_local"; b += s.topic == "mavros/local_position/velocity"; } sym_assert(a + b == 1, "the velocity is received once"); stub::deliver<geometry_msgs::TwistStamped>(a ? "mavros/local_position/velocity_local" : "mavros/local_position/velocity", v); sym_assert(is3(n.velocity_, v.twist.linear) & is3(n.newest_position_, p.pose.position), "as the velocity");
  mavros_msgs::State s; s.armed = sym_bool("armed"); s.mode = "AUTO.RTL"; sym_assert(one("mavros/state", s), "the autopilot's state is received once"); sym_assert((n.armed_ == (s.armed != 0)) & (n.nav_state_ == NavigationState::auto_rtl), "as the state");
  mavros_msgs::Altitude h; h.bottom_clearance = sym_f32("clearance", 0.f, 100.f); sym_assert(one("mavros/altitude", h), "the altitude is received once"); sym_assert(n.ground_distance_msg_.bottom_clearance == h.bottom_clearance, "as the ground distance");
  mavros_msgs::Param q; q.param_id = "MPC_XY_CRUISE"; q.value.real = sym_f32_any("cruise"); sym_assert(one("mavros/param/param_value", q), "parameters of the autopilot are received once"); sym_assert(eqf(n.avoidance_node_->getPX4Parameters().param_mpc_xy_cruise, q.value.real), "and used");
  mavros_msgs::WaypointList w; w.waypoints.resize(2); w.waypoints[0].command = 178; w.waypoints[0].param1 = 1.f; w.waypoints[0].param2 = sym_f32("speed", 0.5f, 20.f); w.waypoints[1].is_current = true; w.waypoints[1].command = 16; sym_assert(one("mavros/mission/waypoints", w), "the mission is received once"); sym_assert(n.avoidance_node_->getMissionItemSpeed() == w.waypoints[0].param2, "for its speed");
  n.updatePlannerInfo(); sym_assert(eqf(n.local_planner_->px4_.param_mpc_xy_cruise, q.value.real) & (n.local_planner_->mission_item_speed_ == w.waypoints[0].param2) & (n.local_planner_->currently_armed_ == (s.armed != 0)), "all of it reaches the planner"); sym_cover("end");
}
//@ time=120
HARNESS C41_goal_inputs() {
  bool acc = sym_fork(sym_bool("accept")); stub::params<bool>()["~accept_goal_input_topic"] = acc; stub::params<double>()["~goal_z_param"] = 4.; LocalPlannerNodelet& n = node(1); n.updatePlannerInfo();
  visualization_msgs::MarkerArray m; m.markers.resize(1); any3(m.markers[0].pose.position, "m"); sym_assert(one("input/goal_position", m), "goals given as markers are received once"); sym_assert(n.new_goal_ == acc, "and used when accepted"); if (acc) sym_assert(is3(n.goal_position_, m.markers[0].pose.position), "as the goal"); n.goal_position_ = Eigen::Vector3f(0.f, 0.f, 0.f); n.new_goal_ = false;
  geometry_msgs::PoseStamped c; any3(c.pose.position, "c"); sym_assert(one("move_base_simple/goal", c), "goals clicked on the map are received once"); sym_assert(n.new_goal_ & eqf(n.goal_position_.x(), (float)c.pose.position.x) & eqf(n.goal_position_.y(), (float)c.pose.position.y) & (n.goal_position_.z() == 4.f), "as the goal at its altitude"); n.new_goal_ = false; n.goal_position_ = Eigen::Vector3f(1.f, 2.f, 3.f);
  mavros_msgs::Trajectory t; t.point_valid = {true, false, false, false, false}; t.command = {16, 16, 0, 0, 0}; any3(t.point_1.position, "t"); t.point_2.position.x = 30.; sym_assert(one("mavros/trajectory/desired", t), "the mission's trajectory is received once"); sym_assert(n.new_goal_ & is3(n.goal_position_, t.point_1.position), "as the goal"); n.new_goal_ = false;
  geometry_msgs::PointStamped k; k.point.x = 3.; k.point.y = 4.; sym_assert(one("clicked_point", k), "clicked points are received once"); sym_assert(!n.new_goal_, "without becoming goals"); sym_cover("end");
}
//@ time=120
HARNESS C41_cameras() {
  int c = sym_concretize(sym_i32("cameras", 0, 3)); LocalPlannerNodelet& n = node(c); sym_assert(n.cameras_.size() == (size_t)c, "one camera per configured topic");
  for (int i = 0; i < 3; i++) { int k = 0; for (auto& s : stub::subs()) k += s.topic == CAM[i]; sym_assert(k == (i < c), "each configured topic, and no other, is subscribed to once"); }
  for (int i = 0; i < c; i++) sym_assert(!n.cameras_[i].received_ & !n.cameras_[i].transformed_, "cameras start without clouds"); if (c == 0) sym_exit();
  int who = sym_concretize(sym_i32("sender", 0, 2)); if (who >= c) sym_exit(); sensor_msgs::PointCloud2 m; m.header.frame_id = "cam"; m.header.stamp = ros::Time(900, 0); float x = sym_f32("x", -30.f, 30.f); m.stub_xyz = {x, 2.f, 3.f}; m.width = m.height = 1; sym_assert(stub::deliver<sensor_msgs::PointCloud2>(CAM[who], m) == 1, "a cloud is received once");
  for (int i = 0; i < c; i++) { sym_assert(n.cameras_[i].received_ == (i == who), "by its own camera"); if (i == who) sym_assert((n.cameras_[i].untransformed_cloud_.size() == 1) && (n.cameras_[i].untransformed_cloud_[0].x == x), "with its points"); } sym_cover("end");
}
//@ time=120
HARNESS C41_threads() {
  int c = sym_concretize(sym_i32("cameras", 0, 3)); LocalPlannerNodelet& n = node(c); sym_assert(threads.size() == (size_t)(c + 3), "one thread per camera, one planning, one following the transforms, one reading the parameters of the autopilot"); std::vector<int> own(c, 0); int plan = 0, follow = 0, read = 0;
  std::function<bool(mavros_msgs::ParamGet&)> srv = [&](mavros_msgs::ParamGet& r) { asked++; r.response.success = true; r.response.value.real = 1.f; return true; }; stub::onCall<mavros_msgs::ParamGet>() = &srv;
  for (auto* t : threads) { waitedOn = nullptr; waits = sleeps = 0; asked = 0; n.should_exit_ = false; n.avoidance_node_->should_exit_ = false; t->_M_run();
    if (asked) { read++; sym_assert(stub::calledService() == "mavros/param/get", "parameters are asked of mavros"); continue; } if (waits == 0) { sym_assert(sleeps == 1, "follows until asked to stop"); follow++; continue; }
    if (waitedOn == (const void*)n.transformed_cloud_cv_.native_handle()) { plan++; continue; } for (int i = 0; i < c; i++) own[i] += waitedOn == (const void*)n.cameras_[i].camera_cv_->native_handle(); }
  sym_assert((plan == 1) & (follow == 1) & (read == 1), "each of them"); for (int i = 0; i < c; i++) sym_assert(own[i] == 1, "and every camera has its own"); sym_cover("end");
}
//@ time=120
HARNESS C41_loops() {
  LocalPlannerNodelet& n = node(1); for (auto& t : stub::timers()) { sym_assert(t.autostart & !t.oneshot & servedOnce(t.callback_queue), "every timer runs repeatedly on a queue of its own that is served"); for (auto& o : stub::timers()) sym_assert((&o == &t) || (o.callback_queue != t.callback_queue), "and does not hold up another"); }
  n.local_planner_->timeout_termination_ = 15.; n.start_time_ = ros::Time(1000 - sym_concretize(sym_i32("start", 0, 40)), 0); n.last_wp_time_ = ros::Time(1000 - sym_i32("cloud", 0, 40), 0); bool lost = (ros::Time(1000, 0) - n.last_wp_time_ > ros::Duration(15.)) & (ros::Time(1000, 0) - n.start_time_ > ros::Duration(15.));
  n.position_received_ = true; WP.position_wp = Eigen::Vector3f(1.f, 2.f, sym_f32("z", 0.f, 50.f)); WP.orientation_wp = Eigen::Quaternionf(1.f, 0.f, 0.f, 0.f); WP.linear_velocity_wp = WP.angular_velocity_wp = WP.goto_position = WP.adapted_goto_position = WP.smoothed_goto_position = Eigen::Vector3f(0.f, 0.f, 0.f);
  stub::published<mavros_msgs::CompanionProcessStatus>().clear(); stub::published<mavros_msgs::Trajectory>().clear(); int ran = 0, beats = 0; for (auto& t : stub::timers()) { n.position_received_ = true; size_t was = stub::published<mavros_msgs::CompanionProcessStatus>().size(); t.callback(ros::TimerEvent()); if (!n.position_received_) { ran++; sym_assert(t.period == ros::Duration(0.1), "the cycle runs at 10 Hz"); } if (stub::published<mavros_msgs::CompanionProcessStatus>().size() == was + 1) { beats++; sym_assert(t.period == ros::Duration(0.2), "the heartbeat at 5 Hz"); } }
  sym_assert((ran == 1) & (beats == 1), "one cycle and one heartbeat"); sym_assert((n.getSystemStatus() == MAV_STATE::MAV_STATE_FLIGHT_TERMINATION) == lost, "a cycle checks for lost data"); sym_assert(stub::publishedOn<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status") == 1, "the heartbeat goes to the autopilot");
  if (n.getSystemStatus() == MAV_STATE::MAV_STATE_ACTIVE) { auto& o = stub::published<mavros_msgs::Trajectory>(); sym_assert(stub::publishedOn<geometry_msgs::PoseStamped>("mavros/setpoint_position/local") == 1, "setpoints for offboard"); sym_assert((stub::publishedOn<mavros_msgs::Trajectory>("mavros/trajectory/generated") == 1) && (o.back().second.point_1.position.z == WP.position_wp.z()), "and for missions"); sym_cover("active"); } sym_cover("end");
}
//@ time=120
HARNESS C41_distances() {
  LocalPlannerNodelet& n = node(1); n.local_planner_->px4_.param_cp_dist = sym_f32_any("cp"); bool want = !(n.local_planner_->px4_.param_cp_dist < 0); n.local_planner_->distance_data_.angle_increment = 0.1f; n.local_planner_->distance_data_.ranges = {sym_f32_any("range")}; stub::published<sensor_msgs::LaserScan>().clear(); n.publishLaserScan(); auto& o = stub::published<sensor_msgs::LaserScan>(); sym_assert(o.size() == (size_t)want, "obstacle distances are sent unless switched off"); if (want) sym_assert((o[0].first == "mavros/obstacle/send") && (o[0].second.ranges.size() == 1) && eqf(o[0].second.ranges[0], n.local_planner_->distance_data_.ranges[0]), "to the autopilot"); sym_cover("end");
}
//@ time=120
HARNESS C41_reconfigure() {
  LocalPlannerNodelet& n = node(1); auto& f = stub::reconfigure<avoidance::LocalPlannerNodeConfig>(); sym_assert((bool)f, "the node can be reconfigured"); avoidance::LocalPlannerNodeConfig c = avoidance::LocalPlannerNodeConfig::__getDefault__(); c.timeout_critical_ = sym_f64("critical", 0., 10.); c.timeout_termination_ = sym_f64("termination", 0., 1000.); f(c, 0xffffffff); sym_assert(eqd(n.local_planner_->timeout_termination_, c.timeout_termination_) & eqd(n.avoidance_node_->timeout_critical_, c.timeout_critical_), "and follows the configuration"); sym_cover("end");
}
