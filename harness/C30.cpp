//! src=slp/nodes/waypoint_generator_node.cpp,slp/nodes/waypoint_generator.cpp,slp/nodes/safe_landing_planner.cpp,avoidance/common.cpp
//# publishing: every float bit pattern on every axis of position, velocity, yaw and yaw rate (NaN and infinities included)
//# the setpoint of every landing state: any vehicle position, goal, velocity and headings; freshly entered or not; 3x3 cells of one height
//# real-number arithmetic for the descent direction (a millimetre from the loiter height)
#include "safe_landing_planner/waypoint_generator_node.hpp"
#include "sym.h"
#include <cmath>
using namespace avoidance;
typedef SLPState S;
static bool eqf(float a, float b) { return (a == b) | ((a != a) & (b != b)); }
static bool same(double a, float b) { return (a == (double)b) | ((a != a) & (b != b)); }
static bool nan3(const Eigen::Vector3f& v) { return std::isnan(v.x()) & std::isnan(v.y()) & std::isnan(v.z()); }
static bool eq3(const Eigen::Vector3f& a, const Eigen::Vector3f& b) { return eqf(a.x(), b.x()) & eqf(a.y(), b.y()) & eqf(a.z(), b.z()); }
template <class P> static bool unused(const P& p) { return (p.position.x != p.position.x) & (p.position.y != p.position.y) & (p.position.z != p.position.z) & (p.velocity.x != p.velocity.x) & (p.velocity.y != p.velocity.y) & (p.velocity.z != p.velocity.z) & (p.acceleration_or_force.x != p.acceleration_or_force.x) & (p.acceleration_or_force.y != p.acceleration_or_force.y) & (p.acceleration_or_force.z != p.acceleration_or_force.z) & (p.yaw != p.yaw) & (p.yaw_rate != p.yaw_rate); }
static void publish(bool viaState) {
  WaypointGeneratorNode n((ros::NodeHandle(""))); Eigen::Vector3f p(sym_f32_any("px"), sym_f32_any("py"), sym_f32_any("pz")), v(sym_f32_any("vx"), sym_f32_any("vy"), sym_f32_any("vz")); float yaw = sym_f32_any("yaw"), rate = sym_f32_any("rate"); stub::published<mavros_msgs::Trajectory>().clear(); stub::now() = ros::Time(12, 34);
  if (viaState) n.waypointGenerator_.publishTrajectorySetpoints_(p, v, yaw, rate); else n.publishTrajectorySetpoints(p, v, yaw, rate);
  sym_assert(stub::published<mavros_msgs::Trajectory>().size() == 1 && stub::publishedOn<mavros_msgs::Trajectory>("mavros/trajectory/generated") == 1, "one setpoint"); const mavros_msgs::Trajectory& t = stub::published<mavros_msgs::Trajectory>()[0].second; sym_assert((t.header.stamp == ros::Time(12, 34)) && t.header.frame_id == "local_origin" && t.type == 0, "a stamped way point");
  sym_assert(same(t.point_1.position.x, p.x()) & same(t.point_1.position.y, p.y()) & same(t.point_1.position.z, p.z()), "the requested position"); sym_assert(same(t.point_1.velocity.x, v.x()) & same(t.point_1.velocity.y, v.y()) & same(t.point_1.velocity.z, v.z()), "the requested velocity"); sym_assert(eqf(t.point_1.yaw, yaw) & eqf(t.point_1.yaw_rate, rate), "the requested heading"); sym_assert((t.point_1.acceleration_or_force.x != t.point_1.acceleration_or_force.x) & (t.point_1.acceleration_or_force.y != t.point_1.acceleration_or_force.y) & (t.point_1.acceleration_or_force.z != t.point_1.acceleration_or_force.z), "no acceleration");
  sym_assert(unused(t.point_2) & unused(t.point_3) & unused(t.point_4) & unused(t.point_5), "no other point"); bool horizon = true; for (int i = 0; i < 5; i++) horizon = horizon & (t.time_horizon[i] != t.time_horizon[i]); sym_assert(horizon, "no horizon");
  bool xy = (std::isfinite(p.x()) & std::isfinite(p.y())) | (std::isfinite(v.x()) & std::isfinite(v.y())), z = std::isfinite(p.z()) | std::isfinite(v.z()); sym_assert((t.point_valid[0] != 0) == (xy & z), "valid exactly when every axis is commanded"); sym_assert(!t.point_valid[1] & !t.point_valid[2] & !t.point_valid[3] & !t.point_valid[4], "and nothing else is"); sym_cover("end");
}
//@ time=60
HARNESS C30_publish() { publish(false); }
//@ time=60
HARNESS C30_connected() { publish(true); }
static int pub = 0; static Eigen::Vector3f spP, spV; static float spY, spR;
static void prepare(WaypointGenerator& w, S s) { w.smoothing_land_cell_ = 1; w.update_smoothing_size_ = true; w.grid_slp_.resize(3.f, 1.f); w.grid_slp_.setFilterLimits(Eigen::Vector3f(0.f, 0.f, 0.f)); w.m_currentState = s; w.is_land_waypoint_ = true; pub = 0; w.publishTrajectorySetpoints_ = [](const Eigen::Vector3f& p, const Eigen::Vector3f& v, float y, float r) { pub++; spP = p; spV = v; spY = y; spR = r; }; }
static float num(const char* n) { return sym_f32(n, -200.f, 200.f); }
//@ time=100 args=--reals
HARNESS C30_goto() {
  WaypointGenerator w; prepare(w, S::GOTO); w.goal_ = Eigen::Vector3f(num("gx"), num("gy"), num("gz")); w.velocity_setpoint_ = Eigen::Vector3f(num("vx"), sym_fork(sym_bool("vnan")) ? NAN : num("vy"), NAN); w.yaw_setpoint_ = num("yaw"); w.yaw_speed_setpoint_ = num("rate"); w.position_ = Eigen::Vector3f(num("x"), num("y"), num("z")); Eigen::Vector3f g = w.goal_, v = w.velocity_setpoint_; float y = w.yaw_setpoint_; w.calculateWaypoint(); sym_assert(pub == 1 && eq3(spP, g) && eq3(spV, v) && spY == y && spR == w.yaw_speed_setpoint_, "going to the site: the goal at the requested speed and heading"); sym_cover("end");
}
//@ time=100 args=--reals
HARNESS C30_explore() {
  WaypointGenerator w; prepare(w, S::GOTO); w.explorarion_is_active_ = true; w.position_ = Eigen::Vector3f(num("x"), 4.f, num("z")); static const float D[4][2] = {{10.f, 0.f}, {0.f, 10.f}, {-10.f, 0.f}, {0.f, -10.f}}, Y[4] = {0.f, 1.5707964f, 3.1415927f, -1.5707964f}; int k = sym_concretize(sym_i32("dir", 0, 3)); w.goal_ = w.position_ + Eigen::Vector3f(D[k][0], D[k][1], 1.f); Eigen::Vector3f g = w.goal_; w.calculateWaypoint(); sym_assert(pub == 1 && eq3(spP, g) && nan3(spV), "exploring: the next site"); float d = std::fabs(spY - Y[k]); sym_assert((d < 1e-3f) | (std::fabs(d - 6.2831853f) < 1e-3f), "facing it"); sym_cover("end");
}
//@ time=100 args=--reals
HARNESS C30_altitude() {
  WaypointGenerator w; prepare(w, S::ALTITUDE_CHANGE); w.state_changed_ = sym_fork(sym_bool("fresh")); float ground = sym_f32("ground", -50.f, 50.f), z = sym_f32("z", -50.f, 100.f), lh = sym_f32("loiter_height", 1.f, 12.f); w.grid_slp_.mean_.fill(ground); w.loiter_height_ = lh; w.yaw_ = 1.f; w.loiter_yaw_ = 0.5f; w.goal_ = Eigen::Vector3f(num("gx"), num("gy"), 15.f); w.velocity_setpoint_ = Eigen::Vector3f(NAN, NAN, NAN); w.yaw_speed_setpoint_ = NAN; w.position_ = Eigen::Vector3f(3.f, 4.f, z); float h = std::fabs(z - ground); sym_assume((h > lh + 1e-3f) | (h < lh - 1e-3f)); bool fresh = w.state_changed_; Eigen::Vector3f g = w.goal_; w.calculateWaypoint();
  sym_assert(pub == 1 && spP.x() == g.x() && spP.y() == g.y() && std::isnan(spP.z()), "changing altitude: the position is held horizontally"); sym_assert(std::isnan(spV.x()) && std::isnan(spV.y()), "only the vertical speed is commanded"); sym_assert(spV.z() == (h < lh ? 0.7f : -0.7f), "towards the loiter height above the ground"); sym_assert(spY == (fresh ? 1.f : 0.5f), "keeping the heading"); sym_cover("end");
}
static void hold(S s) {
  WaypointGenerator w; prepare(w, s); w.state_changed_ = sym_fork(sym_bool("fresh")); Eigen::Vector3f pos(num("x"), num("y"), num("z")), held(num("hx"), num("hy"), num("hz")); w.position_ = pos; w.goal_ = pos; w.loiter_position_ = held; w.loiter_yaw_ = 0.5f; w.yaw_ = 1.f; w.velocity_setpoint_ = Eigen::Vector3f(1.f, 1.f, 1.f); w.grid_slp_seq_ = sym_fork(sym_bool("long")) ? 50 : 3; bool fresh = w.state_changed_; w.calculateWaypoint(); Eigen::Vector3f want = s != S::EVALUATE_GRID && fresh ? pos : held; sym_assert(pub == 1, "one setpoint");
  if (s == S::LAND) { sym_assert(spP.x() == want.x() && spP.y() == want.y() && std::isnan(spP.z()), "landing: straight down"); sym_assert(std::isnan(spV.x()) && std::isnan(spV.y()) && spV.z() == -0.7f, "at the landing speed"); sym_assert(spY == (fresh ? 1.f : 0.5f) && std::isnan(spR), "keeping the heading"); }
  else { sym_assert(eq3(spP, want), "the position is held"); sym_assert(nan3(spV) && spY == 0.5f && std::isnan(spR), "and nothing else is commanded"); if (s == S::LOITER) sym_assert(eq3(w.goal_, fresh ? pos : w.position_), "it becomes the landing site"); }
  sym_cover("end");
}
//@ time=100 args=--reals
HARNESS C30_loiter() { hold(S::LOITER); }
//@ time=100 args=--reals
HARNESS C30_evaluate() { hold(S::EVALUATE_GRID); }
//@ time=100 args=--reals
HARNESS C30_land() { hold(S::LAND); }
//@ time=100 args=--reals
HARNESS C30_goto_land() {
  WaypointGenerator w; prepare(w, S::GOTO_LAND); w.position_ = Eigen::Vector3f(num("x"), 4.f, num("z")); w.goal_ = w.position_ + Eigen::Vector3f(0.f, 7.f, 0.f); w.velocity_setpoint_ = Eigen::Vector3f(NAN, num("vy"), NAN); Eigen::Vector3f g = w.goal_, v = w.velocity_setpoint_; w.calculateWaypoint(); sym_assert(pub == 1 && eq3(spP, g) && eq3(spV, v) && std::fabs(spY - 1.5707964f) < 1e-3f, "flying over the accepted site, facing it"); sym_cover("end");
}
//@ time=60
HARNESS C30_node() {  // one cycle per grid
  WaypointGeneratorNode n((ros::NodeHandle(""))); WaypointGenerator& w = n.waypointGenerator_; w.smoothing_land_cell_ = 6; w.update_smoothing_size_ = true; w.grid_slp_.resize(40.f, 1.f); w.grid_slp_.setFilterLimits(Eigen::Vector3f(0.f, 0.f, 0.f)); geometry_msgs::PoseStamped m; m.pose.position.x = sym_f64("x", -500., 500.); m.pose.position.y = 2.; m.pose.position.z = sym_f64("z", -500., 500.); m.pose.orientation.w = 1.; n.positionCallback(m); sym_assert((w.position_.x() == (float)m.pose.position.x) & (w.position_.y() == 2.f) & (w.position_.z() == (float)m.pose.position.z) & (w.yaw_ == 0.f), "the vehicle's pose"); w.goal_ = Eigen::Vector3f(1.f, 2.f, 3.f); stub::published<mavros_msgs::Trajectory>().clear();
  n.grid_received_ = sym_fork(sym_bool("grid")); int spins = 0; std::function<void()> f = [&] { spins++; n.grid_received_ = true; }; stub::onSpin() = &f; bool had = n.grid_received_; n.cmdLoopCallback(ros::TimerEvent()); stub::onSpin() = nullptr; sym_assert((spins == (had ? 0 : 1)) & !n.grid_received_ && stub::published<mavros_msgs::Trajectory>().size() == 1, "one setpoint per grid"); const mavros_msgs::Trajectory& t = stub::published<mavros_msgs::Trajectory>()[0].second; sym_assert((t.point_1.position.x == 1.) & (t.point_1.position.z == 3.) & (t.point_valid[0] != 0), "towards the goal"); sym_cover("end");
}
//@ time=60
HARNESS C30_config() {
  WaypointGeneratorNode n((ros::NodeHandle(""))); WaypointGenerator& w = n.waypointGenerator_; safe_landing_planner::WaypointGeneratorNodeConfig c = safe_landing_planner::WaypointGeneratorNodeConfig::__getDefault__(); c.beta = sym_f64("beta", 0., 1.); c.can_land_thr = sym_f64("thr", 0., 1.); c.loiter_height = sym_f64("lh", 1., 12.); c.smoothing_land_cell = sym_i32("s", 0, 100); c.vertical_range_error = sym_f64("v", 0., 4.); c.spiral_width = sym_f64("w", 1., 10.); n.dynamicReconfigureCallback(c, 0); sym_assert((w.beta_ == (float)c.beta) & (w.can_land_thr_ == (float)c.can_land_thr) & (w.loiter_height_ == (float)c.loiter_height) & (w.smoothing_land_cell_ == c.smoothing_land_cell) & (w.vertical_range_error_ == (float)c.vertical_range_error) & (w.spiral_width_ == (float)c.spiral_width), "the configuration is used"); sym_cover("end");
}
