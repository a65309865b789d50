//! src=slp/nodes/safe_landing_planner_node_main.cpp,slp/nodes/waypoint_generator_node.cpp,slp/nodes/waypoint_generator.cpp,slp/nodes/safe_landing_planner_node.cpp,slp/nodes/safe_landing_planner.cpp,slp/nodes/safe_landing_planner_visualization.cpp,avoidance/common.cpp
//# start: both real mains; camera topic configured, recording replayed or not, parameters of other nodes with the same names present
//# inputs: one message per documented topic with any pose (500 m), goal and state, delivered through the subscriptions the nodes made (topic name and message type must match); the callbacks' own behaviour is C28, C29 and C37
//# loops: the timers are fired by hand and the cloud thread is run; the evaluation (C25-C27) is replaced by one that records; grids of 1 cell; the middleware is a model: names resolve by concatenation, one callback queue per spinner; outside the claim: remapping, queue sizes, latching
#include "safe_landing_planner/safe_landing_planner_node.hpp"
#include "safe_landing_planner/waypoint_generator_node.hpp"
#include "sym.h"
#include <cmath>
using namespace avoidance;
typedef safe_landing_planner::SLPGridMsg Grd;
int repo_node_main_(int, char**); int repo_main_(int, char**);
static bool eqf(float a, float b) { return (a == b) | ((a != a) & (b != b)); }
static std::vector<std::thread::_State*> threads; static int ran = 0, waits = 0; static Eigen::Vector3f rPos; static size_t rN; static float rX; static std::function<void()> onWait, body; static bool joined = false;
namespace avoidance {
void SafeLandingPlannerVisualization::visualizeSafeLandingPlanner(const SafeLandingPlanner&, const geometry_msgs::Point&, const geometry_msgs::Point&, safe_landing_planner::SafeLandingPlannerNodeConfig&) {}
void SafeLandingPlanner::runSafeLandingPlanner() { ran++; rPos = position_; rN = cloud_.points.size(); rX = rN ? cloud_.points[0].x : -1.f; pos_index_ = Eigen::Vector2i(0, 0); }
}
namespace std {
void condition_variable::wait(unique_lock<mutex>& l) { waits++; l.unlock(); if (onWait) onWait(); l.lock(); }
void thread::_M_start_thread(_State_ptr s, void (*)()) { threads.push_back(s.release()); }
void thread::join() { joined = true; if (body) body(); }
}
static bool servedOnce(ros::CallbackQueue* q) { int n = 0; for (auto* s : stub::served()) n += s == q; return q && n == 1; }
static int takers(const std::string& t) { int n = 0; for (auto& s : stub::subs()) n += s.topic == t; return n; }
template <class M> static bool one(const char* topic, const M& m) { return takers(topic) == 1 && stub::deliver<M>(topic, m) == 1; }
static const char* CAM = "/camera/depth/points";
static void configure(bool bag) { stub::now() = ros::Time(1000, 0); auto& s = stub::params<std::string>(); s["~pointcloud_topics"] = CAM; s["pointcloud_topics"] = "/other"; if (bag) stub::params<bool>()["~play_rosbag"] = true; stub::params<bool>()["play_rosbag"] = !bag; }
static char arg0[] = "node"; static char* ARGV[] = {arg0, nullptr};
static geometry_msgs::PoseStamped anypose() { geometry_msgs::PoseStamped p; p.pose.position.x = sym_f64("px", -500., 500.); p.pose.position.y = sym_f64("py", -500., 500.); p.pose.position.z = sym_f64("pz", -500., 500.); p.pose.orientation.w = 1.; return p; }
static Grd grid1(int land, int seq = 3) { Grd g; g.header.seq = seq; g.grid_size = 1.f; g.cell_size = 1.f; for (auto* l : {&g.mean.layout, &g.land.layout, &g.std_dev.layout, &g.counter.layout}) { l->dim.resize(2); l->dim[0].size = l->dim[1].size = 1; l->dim[0].stride = l->dim[1].stride = 1; } g.mean.data = {0.f}; g.land.data = {land}; g.std_dev.data = {0.f}; g.counter.data = {10}; return g; }
static ros::TimerOptions& cycleTimer() { sym_assert(stub::timers().size() == 1, "one cycle"); auto& t = stub::timers()[0]; sym_assert((t.period == ros::Duration(0.1)) & t.autostart & !t.oneshot, "which runs at 10 Hz"); sym_assert(servedOnce(t.callback_queue), "on a queue that is served"); return t; }
//@ time=120
HARNESS C43_detector_main() {
  bool bag = sym_fork(sym_bool("recording")); configure(bag);
  body = [bag] {
    sym_assert(takers("mavros/local_position/pose") == 1, "the detector listens to the vehicle's pose"); sym_assert((takers(CAM) == !bag) & (takers("/other") == 0), "to the camera configured, unless a recording is replayed"); sym_assert(takers("/raw_grid_slp") == bag, "and then to the grids recorded"); sym_assert(threads.size() == 1, "clouds are transformed in a thread of their own"); auto& t = cycleTimer();
    geometry_msgs::PoseStamped p = anypose(); stub::deliver("mavros/local_position/pose", p); float x = sym_f32("x", -100.f, 100.f); auto& g = stub::published<Grd>(); auto& st = stub::published<mavros_msgs::CompanionProcessStatus>(); g.clear(); st.clear();
    auto after = [p, &g, &st] { sym_assert(ran == 1, "a cycle evaluates it"); sym_assert(eqf(rPos.x(), (float)p.pose.position.x) & eqf(rPos.y(), (float)p.pose.position.y) & eqf(rPos.z(), (float)p.pose.position.z), "at the vehicle's position"); sym_assert(stub::publishedOn<Grd>("grid_slp") == 1, "the grid goes to the waypoint generator"); sym_assert(stub::publishedOn<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status") == 1, "the heartbeat to the autopilot"); };
    if (bag) { sym_assert(stub::deliver("/raw_grid_slp", grid1(1)) == 1, "a recorded grid is received once"); t.callback(ros::TimerEvent()); after(); sym_cover("recording"); sym_exit(); }
    onWait = [=, &t] { if (waits == 1) { sensor_msgs::PointCloud2 m; m.header.frame_id = "cam"; m.stub_xyz = {x, 2.f, 3.f}; m.width = m.height = 1; sym_assert(stub::deliver(CAM, m) == 1, "a cloud is received once"); return; } t.callback(ros::TimerEvent()); after(); sym_assert((rN == 1) & (rX == x), "with its points"); sym_cover("cloud"); sym_exit(); };
    threads[0]->_M_run(); sym_assert(false, "the thread runs until it is asked to stop");
  };
  repo_node_main_(1, ARGV); sym_assert(joined, "the detector runs until it is shut down");
}
//@ time=120
HARNESS C43_detector_reconfigure() {
  configure(false); stub::params<bool>().clear(); SafeLandingPlannerNode* n = new SafeLandingPlannerNode(ros::NodeHandle("")); sym_assert(!n->safe_landing_planner_->play_rosbag_, "recordings are replayed only when configured"); sym_assert(n->start_time_ == ros::Time(1000, 0), "the start is noted"); auto& f = stub::reconfigure<safe_landing_planner::SafeLandingPlannerNodeConfig>(); sym_assert((bool)f, "the node can be reconfigured"); auto c = safe_landing_planner::SafeLandingPlannerNodeConfig::__getDefault__(); c.timeout_critical = sym_f64("critical", 0., 10.); f(c, 0xffffffff); sym_assert(n->safe_landing_planner_->timeout_critical_ == c.timeout_critical, "and follows the configuration"); sym_cover("end");
}
//@ time=120
HARNESS C43_generator_main() {
  stub::now() = ros::Time(1000, 0); int turns = 0; std::function<void()> slept = [&] {
    if (turns++) { stub::rosOk() = 0; return; } for (const char* t : {"mavros/local_position/pose", "mavros/trajectory/desired", "mavros/state", "grid_slp"}) sym_assert(takers(t) == 1, "the generator listens to its documented topics"); auto& t = cycleTimer();
    mavros_msgs::State s; s.mode = "AUTO.MISSION"; s.armed = true; sym_assert(stub::deliver("mavros/state", s) == 1, "the state is received once"); geometry_msgs::PoseStamped p = anypose(); sym_assert(stub::deliver("mavros/local_position/pose", p) == 1, "the pose is received once");
    mavros_msgs::Trajectory m; m.point_valid = {true, true, false, false, false}; m.command = {16, 16, 0, 0, 0}; m.point_1.position.x = sym_f64("gx", -500., 500.); m.point_1.position.y = sym_f64("gy", -500., 500.); m.point_1.position.z = sym_f64("gz", -500., 500.); m.point_2 = m.point_1; m.point_1.velocity.x = m.point_1.velocity.y = m.point_1.velocity.z = NAN; m.point_2.yaw = sym_f32("yaw", -3.f, 3.f); sym_assert(stub::deliver("mavros/trajectory/desired", m) == 1, "the mission is received once"); sym_assert(stub::deliver("grid_slp", grid1(1)) == 1, "the detector's grid is received once");
    auto& o = stub::published<mavros_msgs::Trajectory>(); o.clear(); t.callback(ros::TimerEvent()); sym_assert(stub::publishedOn<mavros_msgs::Trajectory>("mavros/trajectory/generated") == 1, "a cycle sends a setpoint to the autopilot"); sym_assert(eqf((float)o[0].second.point_1.position.x, (float)m.point_1.position.x) & eqf((float)o[0].second.point_1.position.y, (float)m.point_1.position.y) & eqf((float)o[0].second.point_1.position.z, (float)m.point_1.position.z), "to the mission's goal"); sym_cover("run");
  };
  stub::onSleep() = &slept; repo_main_(1, ARGV); sym_assert(turns >= 1, "the generator runs until it is shut down"); sym_cover("end");
}
//@ time=120
HARNESS C43_generator_inputs() {
  stub::now() = ros::Time(1000, 0); WaypointGeneratorNode& n = *new WaypointGeneratorNode(ros::NodeHandle("")); auto& w = n.waypointGenerator_; geometry_msgs::PoseStamped p = anypose(); sym_assert(one("mavros/local_position/pose", p), "the pose is received once"); sym_assert(eqf(w.position_.x(), (float)p.pose.position.x) & eqf(w.position_.y(), (float)p.pose.position.y) & eqf(w.position_.z(), (float)p.pose.position.z), "as the position");
  static const char* MODES[3] = {"AUTO.LAND", "AUTO.MISSION", "MANUAL"}; int k = sym_concretize(sym_i32("mode", 0, 2)); mavros_msgs::State s; s.mode = MODES[k]; s.armed = sym_bool("armed"); bool before = w.is_land_waypoint_ = sym_bool("land"); sym_assert(one("mavros/state", s), "the state is received once"); sym_assert(w.is_land_waypoint_ == ((s.armed != 0) & (k == 0 || (k == 1 && before))), "as the state");
  int land = sym_i32("usable", 0, 1); int seq = sym_i32("seq", 0, 1000); sym_assert(one("grid_slp", grid1(land, seq)), "the detector's grid is received once"); sym_assert((w.grid_slp_.land_(0, 0) == land) & (w.grid_slp_seq_ == seq) & n.grid_received_, "as the grid"); auto& f = stub::reconfigure<safe_landing_planner::WaypointGeneratorNodeConfig>(); sym_assert((bool)f, "the node can be reconfigured"); auto c = safe_landing_planner::WaypointGeneratorNodeConfig::__getDefault__(); c.loiter_height = sym_f64("loiter", 0., 30.); f(c, 0xffffffff); sym_assert(w.loiter_height_ == (float)c.loiter_height, "and follows the configuration"); sym_cover("end");
}
