//! src=gp/nodes/global_planner_node_main.cpp,gp/library/cell.cpp,gp/library/node.cpp,gp/library/global_planner.cpp,gp/nodes/global_planner_node.cpp,avoidance/avoidance_node.cpp,avoidance/common.cpp cflags=-fwrapv
//# start: the real main with start position, frames, robot radius and 0..3 cameras configured or not, any start position within 200 m; parameters of other nodes with the same names present
//# inputs: one message per documented topic with any pose and velocity (500 m), delivered through the subscriptions the node made (topic name and message type must match); the callbacks' own behaviour is C36
//# loops: the timers are fired by hand, planning itself replaced by one that records; the middleware is a model: names resolve by concatenation, one callback queue per spinner; outside the claim: remapping, queue sizes, latching
#include "global_planner/global_planner_node.h"
#include "sym.h"
#include <cmath>
#include <pthread.h>
using namespace global_planner;
int repo_node_main_(int, char**);
static bool eqd(double a, double b) { return (a == b) | ((a != a) & (b != b)); }
static char nm[256][12];
static const char* nam(const char* b, int k) { static int c = 0; char* s = nm[c++ % 256]; int i = 0; while (b[i]) { s[i] = b[i]; i++; } s[i++] = '0' + k; s[i] = 0; return s; }
static int planned = 0; static std::vector<std::thread::_State*> threads; static const octomap::AbstractOcTree* map_ = nullptr; static int maps = 0;
namespace global_planner { bool GlobalPlanner::getGlobalPath() { planned++; return false; } }
namespace std { void thread::_M_start_thread(_State_ptr s, void (*)()) { threads.push_back(s.release()); } }
extern "C" int nanosleep(const struct timespec*, struct timespec*) { sym_exit(); return 0; }
static const char* CAM[3] = {"/camera_front/depth/points", "/camera_left/depth/points", "/camera_right/depth/points"};
static bool servedOnce(ros::CallbackQueue* q) { int n = 0; for (auto* s : stub::served()) n += s == q; return q && n == 1; }
static int takers(const std::string& t) { int n = 0; for (auto& s : stub::subs()) n += s.topic == t; return n; }
template <class M> static bool one(const char* topic, const M& m) { return takers(topic) == 1 && stub::deliver<M>(topic, m) == 1; }
static void cameras(int c) { std::vector<std::string> t; for (int i = 0; i < c; i++) t.push_back(CAM[i]); stub::params<std::vector<std::string>>()["~pointcloud_topics"] = t; }
struct Nod : GlobalPlannerNode { Nod() : GlobalPlannerNode(ros::NodeHandle(""), ros::NodeHandle("~")) { simplify_iterations_ = 0; simplify_margin_ = 1.; clicked_goal_alt_ = 4.5; clicked_goal_radius_ = 2.; global_planner_.curr_vel_.x = global_planner_.curr_vel_.y = global_planner_.curr_vel_.z = 0; global_planner_.curr_yaw_ = 0; } };
static Nod& node(int cams = 1) { stub::now() = ros::Time(1000, 0); cameras(cams); return *new Nod; }
static geometry_msgs::PoseStamped pose(double x, double y, double z) { geometry_msgs::PoseStamped p; p.header.frame_id = "local_origin"; p.pose.position.x = x; p.pose.position.y = y; p.pose.position.z = z; p.pose.orientation.w = 1.; return p; }
static std::function<void()> body; static void run(std::function<void()> f) { stub::now() = ros::Time(1000, 0); body = f; stub::onMain() = &body; char name[] = "node"; char* argv[] = {name, nullptr}; repo_node_main_(1, argv); }
typedef std::vector<std::pair<std::string, geometry_msgs::PoseStamped>> Poses;
static bool ran = false;
//@ time=120 args=--reals
HARNESS C42_main() {
  double s[3]; static const char* P[3] = {"start_pos_x", "start_pos_y", "start_pos_z"}; bool set = sym_fork(sym_bool("configured")); for (int i = 0; i < 3; i++) { s[i] = set ? sym_f64(P[i], -200., 200.) : i == 2 ? 3.5 : 0.5; if (set) stub::params<double>()[std::string("~") + P[i]] = s[i]; stub::params<double>()[P[i]] = 55.; }
  cameras(2); if (set) stub::params<std::string>()["~frame_id"] = "map"; stub::params<std::string>()["frame_id"] = "other"; double dx = sym_f64("dx", -0.5, 0.5);
  run([&] {
    ran = true; static const char* IN[] = {"octomap_full", "mavros/local_position/pose", "clicked_point", "move_base_simple/goal", "mavros/trajectory/desired", "mavros/param/param_value", "mavros/mission/waypoints", CAM[0], CAM[1]}; for (const char* t : IN) sym_assert(takers(t) == 1, "the node listens to its documented topics"); sym_assert(takers("mavros/local_position/velocity") + takers("mavros/local_position/velocity_local") == 1, "and to the velocity"); sym_assert(takers(CAM[2]) == 0, "but to no other camera");
    geometry_msgs::PoseStamped p = pose(s[0] + dx, s[1], s[2]); stub::deliver("mavros/local_position/pose", p); auto& sp = stub::published<geometry_msgs::PoseStamped>(); sp.clear(); auto& path = stub::published<nav_msgs::Path>(); sym_assert(!path.empty() && path.back().first == "actual_path" && path.back().second.header.frame_id == (set ? "map" : "local_origin"), "paths are in the configured frame");
    for (auto& t : stub::timers()) { sym_assert(t.autostart & !t.oneshot & servedOnce(t.callback_queue), "every timer runs repeatedly on a queue that is served"); if (t.period == ros::Duration(0.1)) t.callback(ros::TimerEvent()); }
    int out = 0; for (auto& m : sp) if (m.first == "mavros/setpoint_position/local") { out++; sym_assert((std::fabs(m.second.pose.position.x - s[0]) <= 1e-4) & (std::fabs(m.second.pose.position.y - s[1]) <= 1e-4) & (std::fabs(m.second.pose.position.z - s[2]) <= 1e-4), "the vehicle is first sent to the configured start"); } sym_assert(out == 1, "setpoints go to the autopilot"); sym_assert(stub::publishedOn<mavros_msgs::Trajectory>("mavros/trajectory/generated") == 1, "also in missions"); sym_cover("run");
  });
  sym_assert(ran, "the node runs until it is shut down"); sym_cover("end");
}
//@ time=120
HARNESS C42_launch() {
  int set = sym_concretize(sym_i32("configured", 0, 15)); double s[3], r = 0.5; static const char* P[3] = {"start_pos_x", "start_pos_y", "start_pos_z"}; for (int i = 0; i < 3; i++) { s[i] = set & 1 ? (double)sym_f32(P[i], -200.f, 200.f) : i == 2 ? 3.5 : 0.5; if (set & 1) stub::params<double>()[std::string("~") + P[i]] = s[i]; stub::params<double>()[P[i]] = 55.; }
  if (set & 2) stub::params<double>()["~robot_radius"] = r = sym_f64("radius", 0.1, 5.); if (set & 4) stub::params<std::string>()["~frame_id"] = "map"; if (set & 8) stub::params<std::string>()["~camera_frame_id"] = "depth_link"; stub::params<double>()["robot_radius"] = 9.; stub::params<std::string>()["frame_id"] = stub::params<std::string>()["camera_frame_id"] = "other"; std::string frame = set & 4 ? "map" : "local_origin";
  Nod& n = node(); GlobalPlanner& g = n.global_planner_; Cell c(s[0], s[1], s[2]); sym_assert(g.goal_pos_ == c, "planning starts with the start position as its goal"); sym_assert(eqd(g.robot_radius_, r), "for the configured size of the vehicle"); sym_assert(g.frame_id_ == frame, "in the configured frame"); sym_assert(eqd(n.current_goal_.pose.position.x, s[0]) & eqd(n.current_goal_.pose.position.y, s[1]) & eqd(n.current_goal_.pose.position.z, s[2]), "and the vehicle goes there"); sym_assert(n.current_goal_.header.frame_id == frame, "in that frame"); sym_assert(n.start_time_ == ros::Time(1000, 0), "the start is noted"); sym_assert(n.avoidance_node_.getSystemStatus() == avoidance::MAV_STATE::MAV_STATE_BOOT, "the status starts as booting");
  sensor_msgs::PointCloud2 m; m.header.frame_id = "x"; m.stub_xyz = {1.5f, 2.5f, 3.5f}; m.width = m.height = 1; n.listener_.t.setIdentity(); stub::published<sensor_msgs::PointCloud2>().clear(); sym_assert(one(CAM[0], m), "clouds are received once"); sym_assert(tf::lookedUp().first == frame && tf::lookedUp().second == (set & 8 ? "depth_link" : "camera_link"), "and read in the configured camera frame, camera_link by default"); sym_assert(stub::publishedOn<sensor_msgs::PointCloud2>("cloud_in") == 1, "and passed on to the mapping"); sym_assert(g.occupied_.size() == 1, "as obstacles"); sym_cover("end");
}
//@ time=120
HARNESS C42_inputs() {
  Nod& n = node(2); GlobalPlanner& g = n.global_planner_; geometry_msgs::PoseStamped p = pose(sym_f64("px", -500., 500.), sym_f64("py", -500., 500.), sym_f64("pz", -500., 500.)); sym_assert(one("mavros/local_position/pose", p), "the vehicle's pose is received once"); sym_assert(eqd(g.curr_pos_.x, p.pose.position.x) & eqd(g.curr_pos_.y, p.pose.position.y) & eqd(g.curr_pos_.z, p.pose.position.z), "as the position");
  geometry_msgs::TwistStamped v; v.twist.linear.x = sym_f64_any("vx"); v.twist.linear.y = sym_f64_any("vy"); v.twist.linear.z = sym_f64_any("vz"); bool local = takers("mavros/local_position/velocity_local") == 1; sym_assert(takers("mavros/local_position/velocity") == !local, "the velocity is received once"); stub::deliver(local ? "mavros/local_position/velocity_local" : "mavros/local_position/velocity", v); sym_assert(eqd(g.curr_vel_.x, v.twist.linear.x) & eqd(g.curr_vel_.y, v.twist.linear.y) & eqd(g.curr_vel_.z, v.twist.linear.z), "as the velocity");
  geometry_msgs::PointStamped k; k.point.x = 12.; Cell goal = g.goal_pos_; sym_assert(one("clicked_point", k), "clicked points are received once"); sym_assert((n.last_clicked_points.size() >= 1) && (g.goal_pos_ == goal), "without becoming goals");
  int gx = sym_i32("gx", -30, 30); geometry_msgs::PoseStamped c = pose(gx + 0.5, 7.5, 99.); sym_assert(one("move_base_simple/goal", c), "goals clicked on the map are received once"); sym_assert(g.goal_pos_ == Cell(gx + 0.5, 7.5, 4.5), "as the goal"); int mx = sym_i32("mx", 40, 60);
  mavros_msgs::Trajectory t; t.point_valid = {false, true, false, false, false}; t.command = {0, 0, 0, 0, 0}; t.point_2.position.x = mx + 0.5; t.point_2.position.y = 1.5; t.point_2.position.z = 2.5; sym_assert(one("mavros/trajectory/desired", t), "the mission's trajectory is received once"); sym_assert(g.goal_pos_ == Cell(mx + 0.5, 1.5, 2.5), "as the goal");
  octomap_msgs::Octomap bad; bad.stub_tree = sym_concretize(sym_i32("bad", 0, 1)) ? new octomap::AbstractOcTree : nullptr; sym_assert(one("octomap_full", bad), "a map that cannot be read"); sym_assert(g.octree_ == nullptr, "is ignored"); sym_assert(one("clicked_point", k), "points are clicked without a map"); n.last_wp_time_ = ros::Time(900, 0);
  octomap_msgs::Octomap o; o.stub_tree = new octomap::OcTree(1.0); sym_assert(one("octomap_full", o), "maps are received once"); sym_assert((octomap::AbstractOcTree*)g.octree_ == o.stub_tree, "and used"); sym_assert(n.last_wp_time_ == ros::Time(1000, 0), "and noted"); n.last_wp_time_ = ros::Time(900, 0); bad.stub_tree = sym_concretize(sym_i32("bad2", 0, 1)) ? new octomap::AbstractOcTree : nullptr; stub::deliver("octomap_full", bad); sym_assert((octomap::AbstractOcTree*)g.octree_ == o.stub_tree, "until a newer one can be read");
  mavros_msgs::Param q; q.param_id = "MPC_XY_CRUISE"; q.value.real = 3.f; sym_assert(one("mavros/param/param_value", q), "parameters of the autopilot are received once"); sym_cover("end");
}
//@ time=120
HARNESS C42_cameras() {
  int c = sym_concretize(sym_i32("cameras", 0, 3)); Nod& n = node(c); for (int i = 0; i < 3; i++) sym_assert(takers(CAM[i]) == (i < c), "each configured camera, and no other, is subscribed to once"); if (!c) sym_exit();
  n.listener_.t.setIdentity(); int who = sym_concretize(sym_i32("sender", 0, 2)); if (who >= c) sym_exit(); sensor_msgs::PointCloud2 m; m.stub_xyz = {1.5f, 2.5f, 3.5f, -4.5f, 5.5f, 6.5f}; m.width = 2; m.height = 1; stub::published<sensor_msgs::PointCloud2>().clear(); sym_assert(stub::deliver(CAM[who], m) == 1, "a cloud is received once"); sym_assert((n.global_planner_.occupied_.size() == 2) && n.global_planner_.occupied_.count(Cell(1.5, 2.5, 3.5)) == 1, "as obstacles, whichever camera saw them"); sym_assert(stub::publishedOn<sensor_msgs::PointCloud2>("cloud_in") == 1, "and passed on to the mapping"); sym_cover("end");
}
//@ time=120
HARNESS C42_loops() {
  Nod& n = node(); for (auto& t : stub::timers()) { sym_assert(t.autostart & !t.oneshot & servedOnce(t.callback_queue), "every timer runs repeatedly on a queue of its own that is served"); for (auto& o : stub::timers()) sym_assert((&o == &t) || (o.callback_queue != t.callback_queue), "and does not hold up another"); }
  geometry_msgs::PoseStamped p = pose(0.5, 0.5, sym_f64("z", 2.6, 4.4)); stub::deliver("mavros/local_position/pose", p); n.start_time_ = ros::Time(1000 - sym_concretize(sym_i32("start", 0, 40)), 0); n.last_wp_time_ = ros::Time(1000 - sym_i32("map", 0, 40), 0); n.avoidance_node_.setFailsafeTimeouts(5., 0.5, 15.); bool lost = (ros::Time(1000, 0) - n.last_wp_time_ > ros::Duration(15.)) & (ros::Time(1000, 0) - n.start_time_ > ros::Duration(15.));
  auto& sp = stub::published<geometry_msgs::PoseStamped>(); auto& hb = stub::published<mavros_msgs::CompanionProcessStatus>(); sp.clear(); hb.clear(); int cycles = 0, beats = 0, plans = 0;
  for (auto& t : stub::timers()) { int was = stub::publishedOn<geometry_msgs::PoseStamped>("mavros/setpoint_position/local"), pl = planned; size_t b = hb.size(); t.callback(ros::TimerEvent()); if (stub::publishedOn<geometry_msgs::PoseStamped>("mavros/setpoint_position/local") > was) { cycles++; sym_assert(t.period == ros::Duration(0.1), "setpoints are sent at 10 Hz"); } if (planned > pl) { plans++; sym_assert(t.period == ros::Duration(1.0), "plans are made every second"); } if (hb.size() > b) { beats++; sym_assert(t.period == ros::Duration(0.2), "the heartbeat is sent at 5 Hz"); } }
  sym_assert((cycles == 1) & (beats == 1) & (plans == 1), "one of each"); sym_assert(stub::publishedOn<mavros_msgs::Trajectory>("mavros/trajectory/generated") == 1, "missions get them as well"); sym_assert((n.avoidance_node_.getSystemStatus() == avoidance::MAV_STATE::MAV_STATE_FLIGHT_TERMINATION) == lost, "a cycle checks for lost data"); sym_assert(stub::publishedOn<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status") == 1, "the heartbeat goes to the autopilot"); sym_cover("end");
}
//@ time=120
HARNESS C42_others() {
  Nod& n = node(); sym_assert(threads.size() == 1, "a thread reads the parameters of the autopilot"); int asked = 0; std::function<bool(mavros_msgs::ParamGet&)> srv = [&](mavros_msgs::ParamGet& r) { asked++; n.avoidance_node_.should_exit_ = true; return false; }; stub::onCall<mavros_msgs::ParamGet>() = &srv; auto& f = stub::reconfigure<GlobalPlannerNodeConfig>(); sym_assert((bool)f, "the node can be reconfigured"); GlobalPlannerNodeConfig c = GlobalPlannerNodeConfig::__getDefault__(); c.max_altitude_ = sym_i32("alt", 1, 50); f(c, 0); sym_assert(n.global_planner_.max_altitude_ == c.max_altitude_, "and follows the configuration"); sym_cover("reconfigured"); threads[0]->_M_run();
}
