//! src=gp/library/cell.cpp,gp/library/node.cpp,gp/library/global_planner.cpp,gp/nodes/global_planner_node.cpp,avoidance/avoidance_node.cpp,avoidance/common.cpp cflags=-fwrapv
//# goal histories: 4 (thorough 6) planning cycles with up to 3 queued goals, every outcome of planning (failed and blocked, found, found but provisional, short or long path), vehicle in or near any of 4 cells, new goals from either source in between; planning itself (C33) is replaced by one that returns an arbitrary outcome
//# setpoints: vehicle anywhere within 1000 m, current point in 6 directions at any distance up to 100 m and anywhere within 1 m, any risk in [0,9], any speeds and threshold in their configured ranges, tolerance 1e-6, real-number arithmetic
//# path following: paths of 0..5 poses, sequences of 4 position messages, any speed; yaw differences a millionth away from exactly half a turn
#include "global_planner/global_planner_node.h"
#include "sym.h"
#include <cmath>
using namespace global_planner;
static char nm[512][12];
static const char* nam(const char* b, int k) { static int c = 0; char* s = nm[c++ % 512]; int i = 0; while (b[i]) { s[i] = b[i]; i++; } if (k > 9) s[i++] = '0' + k / 10; s[i++] = '0' + k % 10; s[i] = 0; return s; }
static Cell mk(int x, int y, int z) { return Cell(std::tuple<int, int, int>(x, y, z)); }
// stand-ins: the outcome of planning and the risk of the vehicle's cell
static int outcome, planned; static Cell riskCell; static double RISK;
namespace global_planner {
static std::vector<Cell> longpath(int n, int y) { std::vector<Cell> p; for (int i = 0; i < n; i++) p.push_back(Cell(std::tuple<int, int, int>(i, y, 3))); return p; }
bool GlobalPlanner::getGlobalPath() { planned++; overestimate_factor_ = 1.03; if (outcome == 0) { goal_is_blocked_ = true; return false; } if (outcome == 1) return false; curr_path_ = longpath(outcome == 2 || outcome == 3 ? 13 : 10, 7); if (outcome == 3 || outcome == 4) overestimate_factor_ = 1.25; return true; }
double GlobalPlanner::getRisk(const Cell& c) { riskCell = c; return RISK; }
}
struct Nod : GlobalPlannerNode { Nod() : GlobalPlannerNode(ros::NodeHandle(), ros::NodeHandle()) {} };
static Nod& node() { stub::now() = ros::Time(1000, 0); Nod* n = new Nod; n->simplify_iterations_ = 0; n->simplify_margin_ = 1.; n->clicked_goal_alt_ = 4.5; n->clicked_goal_radius_ = 2.; n->global_planner_.curr_vel_.x = n->global_planner_.curr_vel_.y = n->global_planner_.curr_vel_.z = 0; n->global_planner_.curr_yaw_ = 0; return *n; }
static geometry_msgs::PoseStamped pose(double x, double y, double z, double yaw = 0.) { geometry_msgs::PoseStamped p; p.header.frame_id = "map"; p.pose.position.x = x; p.pose.position.y = y; p.pose.position.z = z; p.pose.orientation = tf::createQuaternionMsgFromYaw(yaw); return p; }
static int goals(const char* topic) { int c = 0; for (auto& p : stub::published<geometry_msgs::PointStamped>()) c += p.first == topic; return c; }
static bool at(const geometry_msgs::Point& p, const Cell& c) { return p.x == c.xPos() && p.y == c.yPos() && p.z == c.zPos(); }
struct Goal { Cell c; double r; bool temp; };
static void history(int steps) {
  Nod& n = node(); GlobalPlanner& g = n.global_planner_; std::vector<Goal> W; int q = sym_concretize(sym_i32("queued", 0, 2)); for (int i = 0; i < q; i++) { Goal w = {mk(i + 1, 0, 3), i ? 0.25 : 1.5, false}; W.push_back(w); n.waypoints_.push_back(GoalCell(w.c, w.r)); }
  Goal G = {mk(0, 0, 3), 1., false}; n.setNewGoal(GoalCell(G.c)); bool blocked = false; double pos = 0.;
  for (int k = 0; k < steps; k++) {
    int what = sym_concretize(sym_i32(nam("event", k), 0, 4)); double x = what == 4 ? 3.5 : G.c.xPos();
    if (what == 1) { geometry_msgs::PoseStamped m = pose(2.25, 1.75, 99.); n.moveBaseSimpleCallback(m); G = {Cell(2.25, 1.75, 4.5), 2., false}; blocked = false; }
    if (what > 1) { mavros_msgs::Trajectory t; t.point_valid[1] = what > 2; t.point_valid[0] = !t.point_valid[1]; t.point_2.position.x = x; t.point_2.position.y = 0.5; t.point_2.position.z = 3.5; bool diff = x != G.c.xPos() || G.c.yPos() != 0.5; n.fcuInputGoalCallback(t); if (what > 2 && diff) { G = {Cell(x, 0.5, 3.5), 1., false}; blocked = false; } }
    int c = sym_concretize(sym_i32(nam("vehicle", k), 0, 2)); pos = c == 0 ? 0.75 : c == 1 ? 1.75 : 40.5; n.positionCallback(pose(pos, 0.5, 3.5)); bool in = G.c.manhattanDist(pos, 0.5, 3.5) < G.r; outcome = sym_concretize(sym_i32(nam("outcome", k), 0, 4)); int before = planned; stub::published<geometry_msgs::PointStamped>().clear();
    n.plannerLoopCallback(ros::TimerEvent()); int set = 0, final = 0;
    if ((in || blocked) && !W.empty()) { G = W[0]; W.erase(W.begin()); blocked = false; set++; final += !G.temp; } else if (blocked) { G = {Cell(pos, 0.5, 3.5), 1., false}; blocked = false; }
    if (outcome == 0) blocked = true; if (outcome == 3) { W.insert(W.begin(), G); G = {mk(6, 7, 3), 3., true}; blocked = false; set++; }
    sym_assert(planned == before + 1, "planned once per cycle"); sym_assert(g.goal_pos_ == G.c && g.goal_pos_.radius_ == G.r && g.goal_pos_.is_temporary_ == G.temp, "the goal is served until reached or blocked, then the next one"); sym_assert(g.goal_is_blocked_ == blocked, "a new goal counts as reachable until planning failed"); bool same = n.waypoints_.size() == W.size(); for (size_t j = 0; same && j < W.size(); j++) same = n.waypoints_[j] == W[j].c && n.waypoints_[j].radius_ == W[j].r; sym_assert(same, "the remaining goals stay in order");
    sym_assert(goals("global_temp_goal") == set, "every new goal is announced"); sym_assert(goals("global_goal") == final, "final goals as such"); if (set) sym_assert(at(stub::published<geometry_msgs::PointStamped>().back().second.point, G.c), "with its position");
  }
  sym_cover("end");
}
//@ time=300
HARNESS C36_history() { history(2); }
//@ time=850 tier=thorough
HARNESS C36_history_long() { history(3); }
static const double DIR[6][3] = {{1, 0, 0}, {0.6, -0.8, 0}, {0, 0, -1}, {2. / 3, 2. / 3, 1. / 3}, {-0.48, 0.6, 0.64}, {0, -1, 0}};
static bool near(double a, double b) { return std::fabs(a - b) < 1e-6; }
static void sent(Nod& n, double x, double y, double z, double yaw) {
  auto& P = stub::published<geometry_msgs::PoseStamped>(); auto& T = stub::published<mavros_msgs::Trajectory>(); int a = 0, b = 0; bool ok = true; for (auto& p : P) { a += p.first == "mavros/setpoint_position/local"; b += p.first == "current_setpoint"; const auto& o = p.second.pose; ok = ok & near(o.position.x, x) & near(o.position.y, y) & near(o.position.z, z) & near(o.orientation.z, std::sin(yaw / 2)) & near(o.orientation.w, std::cos(yaw / 2)); } sym_assert(a == 1 && b == 1 && T.size() == 1, "one setpoint"); sym_assert(ok, "towards the current point, at the planned speed or up to it, with its heading"); if (T.size() != 1) return; const auto& t = T[0].second; sym_assert(near(t.point_1.position.x, x) & near(t.point_1.position.y, y) & near(t.point_1.position.z, z) & near(t.point_1.yaw, yaw), "the same to the autopilot"); sym_assert((t.point_1.velocity.x != t.point_1.velocity.x) & t.point_valid[0] & !t.point_valid[1], "as one position without velocity");
}
//@ time=300 args=--reals
HARNESS C36_setpoint() {
  Nod& n = node(); GlobalPlanner& g = n.global_planner_; int d = sym_concretize(sym_i32("dir", 0, 5)), yi = sym_concretize(sym_i32("yaw", 0, 2)); sym_merge(0); double len = sym_f64("dist", 0., 100.); sym_assume(std::fabs(len - 1.) > 1e-6); double px = sym_f64("px", -1000., 1000.), yaw = yi * 1.25 - 1.; g.use_risk_based_speedup_ = false; g.use_speedup_heuristics_ = sym_concretize(sym_i32("heuristics", 0, 1)); double v = g.default_speed_ = sym_f64("speed", 0.1, 10.); g.max_speed_ = sym_f64("max", 1., 10.); RISK = 0.04; n.last_pos_ = pose(px, -3., 5.); n.current_goal_ = pose(px + DIR[d][0] * len, -3. + DIR[d][1] * len, 5. + DIR[d][2] * len, yaw); stub::published<geometry_msgs::PoseStamped>().clear(); n.publishSetpoint(); double s = len < 1. ? len : v; sym_assert(near(n.speed_, v), "at the default speed unless it depends on the risk"); sent(n, px + DIR[d][0] * s, -3. + DIR[d][1] * s, 5. + DIR[d][2] * s, yaw); sym_cover("end");
}
//@ time=300 args=--reals
HARNESS C36_speed() {  // faster where the risk is low
  Nod& n = node(); GlobalPlanner& g = n.global_planner_; sym_merge(0); g.use_risk_based_speedup_ = true; g.use_speedup_heuristics_ = sym_concretize(sym_i32("heuristics", 0, 1)); double r = sym_f64("root", 0., 3.); RISK = r * r; double v = g.default_speed_ = sym_f64("speed", 0.1, 10.), m = g.max_speed_ = sym_f64("max", 1., 10.), t = g.risk_threshold_risk_based_speedup_ = sym_f64("threshold", 0., 1.); sym_assume(std::fabs(r - t) > 1e-6); n.last_pos_ = pose(4.5, -3.5, 5.25); n.current_goal_ = pose(24.5, -3.5, 5.25, 0.5); stub::published<geometry_msgs::PoseStamped>().clear(); n.publishSetpoint(); double s = r >= t ? v : v + (m - v) * (1 - r); sym_assert(riskCell == mk(4, -4, 5), "the risk is that of the vehicle's cell"); sym_assert(near(n.speed_, s), "the speed"); sent(n, 4.5 + s, -3.5, 5.25, 0.5); sym_cover("end");
}
//@ time=60 args=--reals
HARNESS C36_arrived() { Nod& n = node(); n.global_planner_.use_risk_based_speedup_ = false; RISK = 0.; double x = sym_f64("x", -100., 100.), y = sym_f64("y", -100., 100.); n.last_pos_ = pose(x, y, 5.); n.current_goal_ = pose(x, y, 5., 0.5); stub::published<geometry_msgs::PoseStamped>().clear(); n.publishSetpoint(); sent(n, x, y, 5., 0.5); sym_cover("end"); }
//@ time=200 args=--reals
HARNESS C36_follow() {  // the current point advances when the vehicle is close to it
  Nod& n = node(); n.speed_ = sym_f64("speed", 0.1, 10.); int len = sym_concretize(sym_i32("len", 0, 3)); std::vector<geometry_msgs::PoseStamped> P; for (int i = 0; i < len; i++) P.push_back(pose(10. * (i + 1), 2., 3., 0.25)); n.current_goal_ = pose(0., 2., 3., 0.25); n.last_goal_ = pose(-9., 2., 3.); n.path_ = P; int cur = 0; double last = -9.;
  for (int k = 0; k < 4; k++) { double off = sym_f64(nam("off", k), -20., 20.); double x = 10. * cur + off; sym_assume(std::fabs(std::fabs(off) - n.speed_) > 1e-6); n.positionCallback(pose(x, 2., 3., 1.5)); bool adv = cur < len && std::fabs(off) < n.speed_; if (adv) { last = 10. * cur; cur++; } sym_assert(near(n.current_goal_.pose.position.x, 10. * cur) & near(n.last_goal_.pose.position.x, last), "advances exactly when close"); sym_assert((int)n.path_.size() == len - cur, "one point at a time"); sym_assert(near(n.global_planner_.curr_pos_.x, x) & near(n.last_pos_.pose.position.x, x), "the position is taken over"); sym_assert(near(n.global_planner_.curr_yaw_, 1.5), "and the heading"); sym_assert(n.global_planner_.path_back_.empty() == n.global_planner_.going_back_, "the way back is remembered"); }
  sym_assert(n.actual_path_.poses.size() == 1 && stub::publishedOn<nav_msgs::Path>("actual_path") == 1, "every tenth position is shown"); sym_cover("end");
}
//@ time=100 args=--reals
HARNESS C36_new_path() { Nod& n = node(); int len = sym_concretize(sym_i32("len", 0, 5)); std::vector<geometry_msgs::PoseStamped> P; double x[5]; for (int i = 0; i < len; i++) { x[i] = sym_f64(nam("x", i), -50., 50.); P.push_back(pose(x[i], i, 3., 0.1 * i)); } n.current_goal_ = pose(77., 0., 0.); n.last_goal_ = pose(66., 0., 0.); n.path_.assign(2, pose(55., 0., 0.)); n.setCurrentPath(P); if (len < 2) { sym_assert(n.path_.empty() && n.current_goal_.pose.position.x == 77. && n.last_goal_.pose.position.x == 66., "without a path the current point is kept"); sym_cover("none"); return; } bool ok = n.last_goal_.pose.position.x == x[0] && n.current_goal_.pose.position.x == x[1] && near(n.current_goal_.pose.orientation.z, std::sin(0.05)) && (int)n.path_.size() == len - 2; for (int i = 2; ok && i < len; i++) ok = n.path_[i - 2].pose.position.x == x[i] && n.path_[i - 2].pose.position.y == i; sym_assert(ok, "the whole path in order"); sym_cover("end"); }
//@ time=100 args=--reals
HARNESS C36_path_message() {  // the path as poses: cell centres facing the next one
  Nod& n = node(); GlobalPlanner& g = n.global_planner_; g.curr_yaw_ = 0.75; g.setFrame("world"); static const int M[][3] = {{1, 0, 0}, {0, 1, 0}, {-1, -1, 0}, {0, 0, 1}, {0, -2, 0}}; int len = sym_concretize(sym_i32("len", 0, 4)); std::vector<Cell> p; double yaw[4] = {}; Cell c = mk(2, -3, 4); double last = 0.75; for (int i = 0; i < len; i++) { p.push_back(c); yaw[i] = last; if (i + 1 < len) { const int* m = M[sym_concretize(sym_i32(nam("m", i), 0, 4))]; if (m[0] || m[1]) last = std::atan2(m[1], m[0]); yaw[i] = last; c = c + mk(m[0], m[1], m[2]); } } nav_msgs::Path o = g.getPathMsg(p); bool ok = (int)o.poses.size() == len && o.header.frame_id == "world"; for (int i = 0; ok && i < len; i++) ok = at(o.poses[i].pose.position, p[i]) && near(std::cos(tf::getYaw(o.poses[i].pose.orientation) - yaw[i]), 1.) && o.poses[i].header.frame_id == "world"; sym_assert(ok, "cell centres, heading to the next, the last as the one before"); g.curr_path_ = p; RISK = 0.5; PathWithRiskMsg r = g.getPathWithRiskMsg(); sym_assert((int)r.poses.size() == len && (int)r.risks.size() == len && (len == 0 || r.risks[0] == 0.5), "with a risk per pose"); sym_cover("end");
}
//@ time=100 args=--reals
HARNESS C36_obstacles() {  // obstacle points end up in the planner's cells
  Nod& n = node(); sensor_msgs::PointCloud2 m; int i = 7 + sym_concretize(sym_i32("cell", 0, 5)); float x = sym_f32_grid("x", -3.f, 3.f, 0.03125f), y = 0.5f, z = 2.25f; sym_assume((x + 10.f >= i) & (x + 10.f < i + 1)); m.stub_xyz = {x, y, z, NAN, NAN, NAN}; m.header.frame_id = "camera"; n.listener_.fail = sym_concretize(sym_i32("fail", 0, 1)); n.listener_.t.setIdentity(); n.listener_.t.setOrigin(tf::Vector3(10., 20., 30.)); n.depthCameraCallback(m); auto& o = n.global_planner_.occupied_; int p = stub::publishedOn<sensor_msgs::PointCloud2>("cloud_in"); if (n.listener_.fail) { sym_assert(o.empty() && p == 0, "nothing without a transform"); sym_cover("fail"); return; } sym_assert(o.size() == 1 && (o.begin()->xIndex() == i) & (o.begin()->yIndex() == 20) & (o.begin()->zIndex() == 32), "the cell of each valid point in the planner's frame"); sym_assert(p == 1, "and the cloud is passed on to the map"); sym_cover("end");
}
//@ time=100
HARNESS C36_map() {  // maps are taken over at a bounded rate
  Nod& n = node(); octomap_msgs::Octomap m; octomap::OcTree *a = new octomap::OcTree(0.25), *b = new octomap::OcTree(0.5); m.stub_tree = a; n.last_wp_time_ = ros::Time(1000, 0); int ns = sym_i32("ns", 0, 999999999); sym_assume((ns < 199000000) | (ns > 201000000)); stub::now() = ros::Time(1000, ns); n.octomapFullCallback(m); bool late = ns > 200000000; sym_assert((n.global_planner_.octree_ == a) == late, "once per interval"); if (late) { sym_assert(n.last_wp_time_ == ros::Time(1000, ns), "its time is noted"); sym_assert(n.global_planner_.risk_cache_.empty() && n.global_planner_.octree_resolution_ == 0.25, "with its resolution, forgetting old risks"); m.stub_tree = b; n.octomapFullCallback(m); sym_assert(n.global_planner_.octree_ == a, "not again at once"); stub::now() = ros::Time(1002, 0); n.octomapFullCallback(m); sym_assert(n.global_planner_.octree_ == b, "but later"); sym_cover("late"); } sym_cover("end");
}
//@ time=60
HARNESS C36_velocity() { Nod& n = node(); geometry_msgs::TwistStamped t; t.twist.linear.x = sym_f64_any("x"); t.twist.linear.y = 2.; t.twist.linear.z = 3.; t.twist.angular.z = 9.; n.velocityCallback(t); auto& v = n.global_planner_.curr_vel_; sym_assert(((v.x == t.twist.linear.x) | (v.x != v.x)) & (v.y == 2.) & (v.z == 3.), "velocity"); sym_cover("end"); }
