//! src=lp/nodes/local_planner_nodelet.cpp,lp/nodes/local_planner_visualization.cpp,lp/nodes/waypoint_generator.cpp,lp/nodes/local_planner.cpp,lp/nodes/planner_functions.cpp,lp/nodes/star_planner.cpp,lp/nodes/tree_node.cpp,avoidance/avoidance_node.cpp,avoidance/common.cpp,avoidance/histogram.cpp,avoidance/transform_buffer.cpp,slp/nodes/safe_landing_planner.cpp,slp/nodes/safe_landing_planner_visualization.cpp
//# histogram image: any distance -1..60 m in 4 cells of the 30x60 (the corners and the middle; the rest fixed), any sensor range 1..60 m; cost image: any costs in 3 cells of either matrix up to a largest cost of 0.001, 1, 13.5, 4000 or 1e6 in either
//# marks: 14 directions of way point and adapted way point over the whole sphere at any distance 0.5..100 m, 13 headings with and without tilt, any vehicle position within 500 m; image data of 0, 60, 5399, 5400 and 5403 bytes with any value in the cells checked
//# tree: 5 nodes at any positions with every choice of origins and of up to 4 expanded nodes, paths of 0..4 points; markers for any positions and velocities (every double/float bit pattern where nothing is computed); ids over 3 calls
//# sensor view: 4 choices of 1 or 2 views, any range 0.1..60 m; range scan: 4 readings of any float value (not-a-number included), any sensor limit 1..60 m
//# way-point cycle: the way-point computation (C20-C22) is replaced by one returning any way point; planning thread: planner results of any value
//# landing: grids of 2x2 to 4x4 cells, any means, counts, landing flags, place, cell size 0.25..2 m and square 0..3; spread of a cell 0..6 times the limit in 1/8 steps
//# outside the claim: time stamps, marker sizes and the fixed colours of markers that mean nothing but themselves
#include "local_planner/local_planner_nodelet.h"
#include "local_planner/local_planner.h"
#include "local_planner/star_planner.h"
#include "local_planner/waypoint_generator.h"
#include "local_planner/planner_functions.h"
#include "local_planner/tree_node.h"
#include "safe_landing_planner/safe_landing_planner.hpp"
#include "safe_landing_planner/safe_landing_planner_visualization.hpp"
#include "sym.h"
#include <cmath>
#include <ctime>
using namespace avoidance;
typedef visualization_msgs::Marker Marker; typedef visualization_msgs::MarkerArray Array;
static bool eqd(double a, double b) { return (a == b) | ((a != a) & (b != b)); }
static bool eqf(float a, float b) { return (a == b) | ((a != a) & (b != b)); }
static char nm[512][12];
static const char* nam(const char* b, int k) { static int c = 0; char* s = nm[c++ % 512]; int i = 0; while (b[i]) { s[i] = b[i]; i++; } if (k > 9) s[i++] = '0' + k / 10; s[i++] = '0' + k % 10; s[i] = 0; return s; }
static Eigen::Vector3f vec(const char* b, float m) { return Eigen::Vector3f(sym_f32(nam(b, 0), -m, m), sym_f32(nam(b, 1), -m, m), sym_f32(nam(b, 2), -m, m)); }
static Eigen::Vector3f any(const char* b) { return Eigen::Vector3f(sym_f32_any(nam(b, 0)), sym_f32_any(nam(b, 1)), sym_f32_any(nam(b, 2))); }
static bool at(const geometry_msgs::Point& p, const Eigen::Vector3f& v) { return eqd(p.x, v.x()) & eqd(p.y, v.y()) & eqd(p.z, v.z()); }
static bool near(const geometry_msgs::Point& p, double x, double y, double z, double t) { return (std::fabs(p.x - x) <= t) & (std::fabs(p.y - y) <= t) & (std::fabs(p.z - z) <= t); }
static bool rgb(const std_msgs::ColorRGBA& c, float r, float g, float b) { return (c.r == r) & (c.g == g) & (c.b == b); }
template <class M> static std::vector<const M*> on(const char* topic) { std::vector<const M*> v; for (auto& m : stub::published<M>()) if (m.first == topic) v.push_back(&m.second); return v; }
static const Marker& one(const char* topic, int type, const char* frame = "local_origin") { static Marker none; auto v = on<Marker>(topic); sym_assert(v.size() == 1, "one marker per update"); if (v.size() != 1) return none; sym_assert((v[0]->type == type) & (v[0]->action == 0) & (v[0]->header.frame_id == frame), "of the right kind, in its frame"); sym_assert((v[0]->color.a > 0.f) & (v[0]->scale.x > 0.) & (v[0]->id == 0), "visible, and replacing the one before"); return *v[0]; }
static const Marker& sphere(const char* topic, const Eigen::Vector3f& p) { const Marker& m = one(topic, Marker::SPHERE); sym_assert(at(m.pose.position, p), "the marker is at the position shown"); return m; }
static void line(const char* topic, const Eigen::Vector3f& a, const Eigen::Vector3f& b, int id) { auto v = on<Marker>(topic); if (v.empty()) { sym_assert(false, "path published"); return; } const Marker& m = *v.back(); sym_assert(m.id == id, "a new piece of the path, not a replacement"); sym_assert((m.type == Marker::LINE_STRIP) & (m.action == 0) & (m.header.frame_id == "local_origin") & (m.color.a > 0.f) & (m.scale.x > 0.) & (m.pose.orientation.w == 1.), "a visible line in place"); sym_assert((m.points.size() == 2) && (at(m.points[0], a) & at(m.points[1], b)), "from the last position to the newest"); }
struct Shown { LocalPlannerVisualization v; Shown() { stub::now() = ros::Time(1000, 0); ros::NodeHandle nh; v.initializePublishers(nh); stub::published<Marker>().clear(); stub::published<Array>().clear(); stub::published<sensor_msgs::Image>().clear(); } };
// stand-ins for the way-point computation and the planning run
static waypointResult WP; static Eigen::Vector3f CLOSE, DEG60; static LocalPlannerNodelet* N; static void (*plan)(LocalPlanner&) = nullptr;
namespace avoidance {
waypointResult WaypointGenerator::getWaypoints() { return WP; }
void WaypointGenerator::getOfftrackPointsForVisualization(Eigen::Vector3f& a, Eigen::Vector3f& b) { a = CLOSE; b = DEG60; }
void LocalPlanner::runPlanner() { if (plan) plan(*this); N->should_exit_ = true; }
}
extern "C" int nanosleep(const struct timespec*, struct timespec*) { if (N) N->should_exit_ = true; return 0; }

//@ time=120 args=--reals
HARNESS C40_histogram_image() {
  sym_merge(0); LocalPlanner p; Histogram h(ALPHA_RES); p.max_sensor_range_ = sym_f32("range", 1.f, 60.f); static const int E[4] = {0, 29, 14, 29}, Z[4] = {0, 59, 31, 0}; float d[4]; for (int i = 0; i < 4; i++) { d[i] = sym_f32(nam("d", i), -1.f, 60.f); h.set_dist(E[i], Z[i], d[i]); } h.set_dist(3, 7, 2.f);
  for (int k = 0; k < 2; k++) p.generateHistogramImage(h);
  sym_assert(p.histogram_image_data_.size() == 1800, "one pixel per cell"); if (p.histogram_image_data_.size() != 1800) return; int set = 0;
  for (int r = 0; r < 30; r++) for (int z = 0; z < 60; z++) {
    int e = 29 - r, px = p.histogram_image_data_[r * 60 + z], k = -1; for (int i = 0; i < 4; i++) if (E[i] == e && Z[i] == z) k = i; float dist = k >= 0 ? d[k] : (e == 3 && z == 7) ? 2.f : 0.f; if (k < 0 && dist == 0.f) { set += px != 0; continue; }
    sym_assert((dist > 0.01f) | (px == 0), "black where nothing is seen"); sym_assert((dist < p.max_sensor_range_) | (px == 0), "and at or beyond the sensor range"); double want = 255. - 255. * dist / p.max_sensor_range_; sym_assert((dist <= 0.01f) | (want < 0.) | ((px <= want + 0.01) & (px >= want - 1.01)), "brighter the closer, white at the vehicle, rows from the top down");
  }
  sym_assert(set == 0, "all other cells are black"); sym_cover("end");
}
static void costs(bool dist) {
  sym_merge(0); Eigen::MatrixXf c(30, 60), d(30, 60); c.fill(0.f); d.fill(0.f); static const float M[5] = {0.001f, 1.f, 13.5f, 4000.f, 1e6f}; float mx = M[sym_concretize(sym_i32("largest", 0, 4))]; static const int E[3] = {0, 29, 11}, Z[3] = {59, 0, 23}; float v[3]; for (int i = 0; i < 3; i++) { v[i] = sym_f32(nam("v", i), 0.f, 1.f) * mx; ((i == 1) == dist ? c : d)(E[i], Z[i]) = v[i]; } (dist ? d : c)(24, 6) = mx; c(0, 0) = mx / 4.f;
  std::vector<uint8_t> img(7, 9); generateCostImage(c, d, img); sym_assert(img.size() == 5400, "three bytes per cell"); if (img.size() != 5400) return;
  for (int r = 0; r < 30; r++) for (int z = 0; z < 60; z++) {
    int e = 29 - r, o = (r * 60 + z) * 3; bool sel = false; for (int i = 0; i < 3; i++) sel |= E[i] == e && Z[i] == z; sel |= (r == 5 && z == 6) | (r == 29 && z == 0); if (!sel) continue;
    double w0 = 255. * d(e, z) / mx, w1 = 255. * c(e, z) / mx; sym_assert((img[o] <= w0 + 0.01) & (img[o] >= w0 - 1.01), "red is the distance cost relative to the largest"); sym_assert((img[o + 1] <= w1 + 0.01) & (img[o + 1] >= w1 - 1.01), "green the other costs"); sym_assert(img[o + 2] == 0, "blue is left for the marks");
  }
  sym_cover("end");
}
//@ time=120 args=--reals
HARNESS C40_cost_image() { costs(false); }
//@ time=120 args=--reals
HARNESS C40_cost_image_distance() { costs(true); }
static void dirOf(double e, double z, double* u) { const double R = 0.017453292519943295; u[0] = std::cos(e * R) * std::sin(z * R); u[1] = std::cos(e * R) * std::cos(z * R); u[2] = std::sin(e * R); }
static int cellAt(double e, double z) { double a = z + 180.; a -= 360. * std::floor(a / 360.); return (29 - (int)std::floor((e + 90.) / 6.)) * 60 + (int)std::floor(a / 6.); }  // row from the top
static const double DE[14] = {1., -89., 88., 45., -45., 10., -10., 4., 31., -62., 20., 7., -3., 2.}, DZ[14] = {1., 20., -100., 45., 135., -135., 179., -179., -91., 92., 15., 63., -27., 3.};
static void marks(int group) {
  Shown s; int i = sym_concretize(sym_i32("waypoint", 0, 13)), j = (i * 5 + 3 + group) % 14, hd = (i + group * 3) % 13; double u[3], w[3]; dirOf(DE[i], DZ[i], u); dirOf(DE[j], DZ[j], w); Eigen::Vector3f pos = vec("pos", 500.f); float r1 = sym_f32("r1", 0.5f, 100.f), r2 = sym_f32("r2", 0.5f, 100.f);
  double yaw = -171. + 28. * hd, R = 0.017453292519943295; float tilt = group == 1 ? 0.15f : 0.f; Eigen::Quaternionf q(std::cos(yaw * R / 2) * std::cos(tilt), 0.f, 0.f, std::sin(yaw * R / 2) * std::cos(tilt)); if (group == 1) q = Eigen::Quaternionf(q.w(), -std::sin(yaw * R / 2) * std::sin(tilt), std::cos(yaw * R / 2) * std::sin(tilt), q.z());  // yaw then pitch
  Eigen::Vector3f a(pos.x() + r1 * (float)u[0], pos.y() + r1 * (float)u[1], pos.z() + r1 * (float)u[2]), b(pos.x() + r2 * (float)w[0], pos.y() + r2 * (float)w[1], pos.z() + r2 * (float)w[2]);
  int ch = cellAt(0.5, 90. - yaw), ca = cellAt(DE[i], DZ[i]), cb = cellAt(DE[j], DZ[j]); std::vector<uint8_t> cost(5400), hist(1800, 3); uint8_t probe = sym_i32("probe", 0, 255); for (int k = 0; k < 5400; k++) cost[k] = k % 251; int near_[4] = {0, 5399, ca * 3 >= 3 ? ca * 3 - 1 : 3, ch * 3 + 1}; for (int k = 0; k < 4; k++) cost[near_[k]] = probe; hist[700] = probe;
  s.v.publishDataImages(hist, cost, a, b, pos, q); auto ci = on<sensor_msgs::Image>("cost_image"), hi = on<sensor_msgs::Image>("histogram_image"); sym_assert((ci.size() == 1) & (hi.size() == 1), "both images are published"); if (ci.size() != 1 || hi.size() != 1) return;
  sym_assert((hi[0]->height == 30) & (hi[0]->width == 60) & (hi[0]->step == 60) & (hi[0]->encoding == "mono8") & (hi[0]->step * hi[0]->height == hi[0]->data.size()), "histogram image: 60 pixels of one byte in each of 30 rows"); sym_assert((ci[0]->height == 30) & (ci[0]->width == 60) & (ci[0]->step == 180) & (ci[0]->encoding == "rgb8") & (ci[0]->step * ci[0]->height == ci[0]->data.size()), "cost image: 60 pixels of three bytes in each of 30 rows");
  bool same = true; for (int k = 0; k < 1800; k++) same &= hi[0]->data[k] == hist[k]; sym_assert(same, "the histogram image is the planner's"); cost[ch * 3 + 2] = 255; for (int k = 0; k < 3; k++) cost[ca * 3 + k] = 255; cost[cb * 3 + 1] = cost[cb * 3 + 2] = 255; bool rest = true; for (int k = 0; k < 5400; k++) if (k != ch * 3 + 2 && k / 3 != ca && k / 3 != cb) rest &= ci[0]->data[k] == cost[k];
  sym_assert(ci[0]->data[ch * 3 + 2] == 255, "the heading is marked blue"); sym_assert((ci[0]->data[ca * 3] == 255) & (ci[0]->data[ca * 3 + 1] == 255) & (ci[0]->data[ca * 3 + 2] == 255), "the way point white"); sym_assert((ci[0]->data[cb * 3 + 1] == 255) & (ci[0]->data[cb * 3 + 2] == 255) & (ci[0]->data[cb * 3] == cost[cb * 3]), "the adapted way point light blue"); sym_assert(rest, "and nothing else is changed"); sym_cover("end");
}
//@ time=300 args=--reals
HARNESS C40_marks() { marks(0); }
//@ time=300 args=--reals
HARNESS C40_marks_tilted() { marks(1); }
//@ time=120 args=--reals
HARNESS C40_image_sizes() {
  Shown s; static const int SZ[4] = {0, 60, 5399, 5403}; int n = SZ[sym_concretize(sym_i32("size", 0, 3))]; std::vector<uint8_t> cost(n, 7), hist(n / 3, 5); s.v.publishDataImages(hist, cost, Eigen::Vector3f(1.f, 2.f, 3.f), Eigen::Vector3f(-1.f, 2.f, 3.f), vec("pos", 0.5f), Eigen::Quaternionf(1.f, 0.f, 0.f, 0.f)); auto ci = on<sensor_msgs::Image>("cost_image"), hi = on<sensor_msgs::Image>("histogram_image"); sym_assert((ci.size() == 1) & (hi.size() == 1), "published"); if (ci.size() != 1 || hi.size() != 1) return;
  bool same = (int)ci[0]->data.size() == n; for (int k = 0; k < n && same; k++) same &= ci[0]->data[k] == 7; sym_assert(same, "image data of another size carries no marks"); sym_assert(hi[0]->data.size() == hist.size(), "as it is"); sym_cover("end");
}
//@ time=120
HARNESS C40_tree() {
  Shown s; int nodes = 5, nc = sym_concretize(sym_i32("expanded", 0, 3)), np = sym_concretize(sym_i32("path", 0, 4)); std::vector<TreeNode> t; std::vector<int> closed; std::vector<Eigen::Vector3f> path, pos; static const char* PN[5] = {"na", "nb", "nc", "nd", "ne"}; static const char* QN[4] = {"qa", "qb", "qc", "qd"};
  for (int i = 0; i < nodes; i++) { pos.push_back(any(PN[i])); t.push_back(TreeNode(i == 0 ? 0 : i == 4 ? 3 : sym_concretize(sym_i32(nam("origin", i), 0, i - 1)), pos[i], Eigen::Vector3f(9.f, 9.f, 9.f))); } for (int i = 0; i < nc; i++) closed.push_back(sym_concretize(sym_i32(nam("closed", i), 0, i == 0 ? 4 : 2))); for (int i = 0; i < np; i++) path.push_back(any(QN[i]));
  s.v.publishTree(t, closed, path); const Marker& m = one("complete_tree", Marker::LINE_LIST); sym_assert(m.points.size() == (size_t)(2 * nc), "one edge per expanded node"); for (int i = 0; i < nc && m.points.size() == (size_t)(2 * nc); i++) sym_assert(at(m.points[2 * i], pos[closed[i]]) & at(m.points[2 * i + 1], pos[t[closed[i]].origin_]), "from the node to the one it was reached from");
  const Marker& p = one("tree_path", Marker::LINE_LIST); size_t seg = np > 1 ? np - 1 : 0; sym_assert(p.points.size() == 2 * seg, "one piece per step of the path"); for (size_t i = 0; i < seg && p.points.size() == 2 * seg; i++) sym_assert(at(p.points[2 * i], path[i]) & at(p.points[2 * i + 1], path[i + 1]), "joining its points in order"); sym_assert((m.pose.orientation.w == 1.) & (p.pose.orientation.w == 1.) & (m.pose.position.x == 0.) & (p.pose.position.z == 0.), "in place"); sym_cover("end");
}
//@ time=120
HARNESS C40_waypoints() {
  Shown s; Eigen::Vector3f g = any("g"), a = any("a"), b = any("b"), c = any("c"); geometry_msgs::Point gp; gp.x = sym_f64_any("gx"); gp.y = sym_f64_any("gy"); gp.z = sym_f64_any("gz"); s.v.publishGoal(gp); auto v = on<Array>("goal_position"); sym_assert((v.size() == 1) && (v[0]->markers.size() == 1), "one goal"); if (v.size() == 1 && v[0]->markers.size() == 1) { auto& m = v[0]->markers[0]; sym_assert(eqd(m.pose.position.x, gp.x) & eqd(m.pose.position.y, gp.y) & eqd(m.pose.position.z, gp.z) & (m.header.frame_id == "local_origin") & (m.type == Marker::SPHERE) & (m.action == 0), "at the goal"); }
  s.v.visualizeWaypoints(a, b, c); sphere("original_waypoint", a); sphere("adapted_waypoint", b); sphere("smoothed_waypoint", c); Eigen::Vector3f d = any("d"), e = any("e"), d0 = d, e0 = e; s.v.publishOfftrackPoints(d, e); const Marker &x = sphere("closest_point", d0), &y = sphere("deg60_point", e0); sym_assert(rgb(x.color, 1.f, 0.f, 0.f) & rgb(y.color, 0.f, 0.f, 1.f), "told apart"); sym_cover("end");
}
//@ time=120
HARNESS C40_paths() {
  Shown s; static const char* A[6] = {"a", "b", "c", "d", "e", "f"}; for (int k = 0; k < 3; k++) { Eigen::Vector3f p[6]; for (int i = 0; i < 6; i++) p[i] = any(A[i]); s.v.publishPaths(p[0], p[1], p[2], p[3], p[4], p[5]); line("path_actual", p[0], p[1], k); line("path_waypoint", p[2], p[3], k); line("path_adapted_waypoint", p[4], p[5], k); sym_assert(stub::published<Marker>().size() == (size_t)(3 * k + 3), "one piece of each path"); } sym_cover("end");
}
//@ time=120 args=--reals
HARNESS C40_setpoint() {
  Shown s; Eigen::Vector3f pos = vec("pos", 1000.f); geometry_msgs::Twist t; t.linear.x = sym_f64("vx", -50., 50.); t.linear.y = sym_f64("vy", -50., 50.); t.linear.z = sym_f64("vz", -50., 50.); t.angular.x = t.angular.y = t.angular.z = 77.; static const PlannerState S[4] = {PlannerState::TRY_PATH, PlannerState::ALTITUDE_CHANGE, PlannerState::LOITER, PlannerState::DIRECT}; static const float C[4][3] = {{0, 1, 0}, {1, 0, 1}, {1, 1, 0}, {0, 0, 1}}; int k = sym_concretize(sym_i32("state", 0, 3)); s.v.publishCurrentSetpoint(t, S[k], pos);
  const Marker& m = one("current_setpoint", Marker::ARROW); sym_assert((m.points.size() == 2) && (at(m.points[0], pos) & near(m.points[1], pos.x() + t.linear.x, pos.y() + t.linear.y, pos.z() + t.linear.z, 1e-6)), "an arrow from the vehicle along the velocity"); sym_assert(rgb(m.color, C[k][0], C[k][1], C[k][2]), "in the colour of the planner's state"); sym_cover("end");
}
//@ time=120 args=--reals
HARNESS C40_view() {
  Shown s; float r = sym_f32("range", 0.1f, 60.f); static const FOV F[6] = {FOV(0.f, 0.f, 60.f, 45.f), FOV(90.f, 10.f, 100.f, 60.f), FOV(-120.f, -20.f, 30.f, 20.f), FOV(175.f, 5.f, 40.f, 30.f), FOV(30.f, 40.f, 90.f, 50.f), FOV(-45.f, 0.f, 87.f, 58.f)}; int c = sym_concretize(sym_i32("views", 0, 3)); std::vector<FOV> f; f.push_back(F[c]); if (c & 1) f.push_back(F[c + 2]); s.v.publishFOV(f, r);
  auto v = on<Marker>("fov"); sym_assert(v.size() == f.size(), "one marker per sensor"); const double R = 0.017453292519943295; for (size_t i = 0; i < f.size() && v.size() == f.size(); i++) {
    sym_assert((v[i]->id == (int)i) & (v[i]->header.frame_id == "fcu") & (v[i]->type == Marker::TRIANGLE_LIST) & (v[i]->action == 0) && (v[i]->points.size() == 12), "a pyramid per sensor in the vehicle's frame"); if (v[i]->points.size() != 12) continue; static const int SE[4] = {-1, 1, 1, -1}, SZ[4] = {1, 1, -1, -1}; double q[4][3]; for (int k = 0; k < 4; k++) { double e = (f[i].pitch_deg + SE[k] * f[i].v_fov_deg / 2.) * R, z = (f[i].yaw_deg + SZ[k] * f[i].h_fov_deg / 2.) * R; q[k][0] = r * std::cos(e) * std::cos(z); q[k][1] = r * std::cos(e) * std::sin(z); q[k][2] = r * std::sin(e); }
    for (int k = 0; k < 4; k++) { int n = (k + 1) % 4; sym_assert(near(v[i]->points[3 * k], 0., 0., 0., 1e-9), "with its tip at the vehicle"); sym_assert(near(v[i]->points[3 * k + 1], q[k][0], q[k][1], q[k][2], 2e-4) & near(v[i]->points[3 * k + 2], q[n][0], q[n][1], q[n][2], 2e-4), "and its sides at the borders of the view, as long as the sensor range"); }
  } sym_cover("end");
}
static void scanOf(bool nan) {
  sym_merge(0); Shown s; sensor_msgs::LaserScan m; m.range_max = sym_f32("range_max", 1.f, 60.f); m.range_min = 0.2f; m.angle_increment = 6. * M_PI / 180.; int n = 4; for (int i = 0; i < 60; i++) m.ranges.push_back(i < n ? sym_f32(nam("r", i), 0.f, 70.f) : 3.f); if (nan) m.ranges[1] = NAN; m.ranges[33] = 7.f; Eigen::Vector3f p = vec("pos", 500.f); s.v.publishRangeScan(m, p);
  const Marker& k = one("range_scan", Marker::TRIANGLE_LIST); sym_assert((k.points.size() == 180) & (k.colors.size() == 180), "one sector per reading"); if (k.points.size() != 180 || k.colors.size() != 180) return; const double R = 0.017453292519943295;
  for (int i = 0; i < 60; i++) { if (i >= n && i != 33 && i != 59) continue; double b = (i + 0.5) * 6. * R, a = (i - 0.5) * 6. * R; bool none = m.ranges[i] != m.ranges[i]; double d = none ? (double)m.range_max : std::min((double)m.range_max, (double)m.ranges[i]); sym_assert(at(k.points[3 * i], p), "from the vehicle"); sym_assert(near(k.points[3 * i + 1], p.x() + d * std::sin(b), p.y() + d * std::cos(b), p.z(), 1e-3) & near(k.points[3 * i + 2], p.x() + d * std::sin(a), p.y() + d * std::cos(a), p.z(), 1e-3), "in its direction, as far as it is free");
    for (int j = 0; j < 3; j++) { auto& c = k.colors[3 * i + j]; if (none) sym_assert(rgb(c, 1.f, 0.f, 0.f), "red where nothing is known"); else { bool far = m.ranges[i] > m.range_max; double f = m.ranges[i] / m.range_max; sym_assert(!far | ((c.r == 0.f) & (c.g == 1.f)), "green where free"); sym_assert(far | ((std::fabs(c.g - f) < 1e-4) & (std::fabs(c.r - (1. - f)) < 1e-4)), "redder the closer an obstacle"); sym_assert(c.b == 0.f, "without blue"); } } } sym_cover("end");
}
//@ time=120 args=--reals
HARNESS C40_range_scan() { scanOf(false); }
//@ time=120 args=--reals
HARNESS C40_range_scan_unknown() { scanOf(true); }
static LocalPlannerNodelet& localNode() { stub::now() = ros::Time(1000, 0); LocalPlannerNodelet* n = new LocalPlannerNodelet; N = n; n->InitializeNodelet(); stub::published<Marker>().clear(); stub::published<Array>().clear(); stub::published<sensor_msgs::Image>().clear(); return *n; }
//@ time=120 args=--reals
HARNESS C40_cycle() {
  LocalPlannerNodelet& n = localNode(); n.last_position_ = vec("lp", 500.f); n.newest_position_ = vec("np", 500.f); Eigen::Vector3f w[3] = {Eigen::Vector3f(1.f, 2.f, 3.f)}, a[3] = {Eigen::Vector3f(4.f, 5.f, 6.f)}; n.newest_waypoint_position_ = w[0]; n.newest_adapted_waypoint_position_ = a[0]; n.last_waypoint_position_ = n.last_adapted_waypoint_position_ = Eigen::Vector3f(9.f, 9.f, 9.f);
  for (int k = 0; k < 2; k++) {
    WP.goto_position = vec("goto", 500.f); WP.adapted_goto_position = a[k + 1] = vec("adapted", 500.f); WP.smoothed_goto_position = w[k + 1] = vec("smoothed", 500.f); WP.position_wp = vec("wp", 500.f); WP.orientation_wp = Eigen::Quaternionf(1.f, 0.f, 0.f, 0.f); WP.linear_velocity_wp = vec("lv", 20.f); WP.angular_velocity_wp = Eigen::Vector3f(0.f, 0.f, 3.f); WP.waypoint_type = k ? PlannerState::DIRECT : PlannerState::LOITER; CLOSE = vec("closest", 500.f); DEG60 = vec("deg60", 500.f);
    stub::published<Marker>().clear(); n.calculateWaypoints(false); sphere("original_waypoint", WP.goto_position); sphere("adapted_waypoint", WP.adapted_goto_position); sphere("smoothed_waypoint", WP.smoothed_goto_position); sphere("closest_point", CLOSE); sphere("deg60_point", DEG60); line("path_actual", n.last_position_, n.newest_position_, k); line("path_waypoint", w[k], w[k + 1], k); line("path_adapted_waypoint", a[k], a[k + 1], k);
    const Marker& m = one("current_setpoint", Marker::ARROW); Eigen::Vector3f t = n.newest_position_ + WP.linear_velocity_wp; sym_assert((m.points.size() == 2) && (at(m.points[0], n.newest_position_) & near(m.points[1], t.x(), t.y(), t.z(), 1e-3)), "the velocity commanded is shown"); sym_assert(rgb(m.color, k ? 0.f : 1.f, k ? 0.f : 1.f, k ? 1.f : 0.f), "with the state");
  } sym_cover("end");
}
static Eigen::Vector3f tGoal, tA, tB; static float tX, tR; static uint8_t tPix;
static void fill(LocalPlanner& p) {
  p.goal_ = tGoal; pcl::PointXYZI pt; pt.x = tX; pt.y = 2.f; pt.z = 3.f; p.final_cloud_.clear(); p.final_cloud_.push_back(pt); p.final_cloud_.push_back(pt); StarPlanner& s = *p.star_planner_; s.tree_.clear(); s.tree_.push_back(TreeNode(0, tA, tA)); s.tree_.push_back(TreeNode(0, tB, tA)); s.closed_set_.assign(1, 1); s.path_node_positions_.clear(); s.path_node_positions_.push_back(tB); s.path_node_positions_.push_back(tA); p.histogram_image_data_.assign(1800, 4); p.histogram_image_data_[9] = tPix; p.cost_image_data_.assign(5400, 6); p.cost_image_data_[5] = tPix; p.setFOV(0, FOV(0.f, 0.f, 60.f, 45.f)); p.max_sensor_range_ = tR; p.distance_data_ = sensor_msgs::LaserScan(); p.distance_data_.range_max = tR; p.distance_data_.angle_increment = 0.1f; p.distance_data_.ranges.assign(2, 70.f);
}
//@ time=120 args=--reals
HARNESS C40_planning() {
  LocalPlannerNodelet& n = localNode(); tGoal = vec("goal", 500.f); tA = vec("ta", 500.f); tB = vec("tb", 500.f); tX = sym_f32("cloud", -500.f, 500.f); tR = sym_f32("range", 1.f, 60.f); tPix = sym_i32("pixel", 0, 255); plan = fill; n.newest_position_ = Eigen::Vector3f(5.f, 6.f, 7.f); n.newest_orientation_ = Eigen::Quaternionf(std::cos(0.35f), 0.f, 0.f, std::sin(0.35f)); n.newest_waypoint_position_ = Eigen::Vector3f(5.1f, 16.f, 7.2f); n.newest_adapted_waypoint_position_ = Eigen::Vector3f(4.9f, -6.f, 7.2f); n.cameras_.clear();
  typedef pcl::PointCloud<pcl::PointXYZI> Cloud; stub::published<Cloud>().clear(); stub::published<std_msgs::UInt32>().clear(); n.visualizer_.visualizePlannerData((fill(*n.local_planner_), *n.local_planner_), n.newest_waypoint_position_, n.newest_adapted_waypoint_position_, n.newest_position_, n.newest_orientation_);
  auto cl = on<Cloud>("local_pointcloud"); auto sz = on<std_msgs::UInt32>("pointcloud_size"); sym_assert((cl.size() == 1) && (cl[0]->size() == 2) && ((*cl[0])[0].x == tX) & ((*cl[0])[1].z == 3.f), "the cloud planned with is shown"); sym_assert((sz.size() == 1) && (sz[0]->data == 2), "and its size"); const Marker& t = one("complete_tree", Marker::LINE_LIST); sym_assert((t.points.size() == 2) && (at(t.points[0], tB) & at(t.points[1], tA)), "the tree"); const Marker& q = one("tree_path", Marker::LINE_LIST); sym_assert((q.points.size() == 2) && (at(q.points[0], tB) & at(q.points[1], tA)), "the path");
  auto g = on<Array>("goal_position"); sym_assert((g.size() == 1) && (g[0]->markers.size() == 1) && at(g[0]->markers[0].pose.position, tGoal), "the goal"); auto ci = on<sensor_msgs::Image>("cost_image"), hi = on<sensor_msgs::Image>("histogram_image"); sym_assert((hi.size() == 1) && (hi[0]->data.size() == 1800) && (hi[0]->data[9] == tPix), "the histogram"); sym_assert((ci.size() == 1) && (ci[0]->data.size() == 5400) && (ci[0]->data[5] == tPix) & (ci[0]->data[cellAt(1., 1.) * 3] == 255) & (ci[0]->data[cellAt(1., -179.) * 3 + 1] == 255) & (ci[0]->data[cellAt(1., 179.) * 3 + 1] == 6), "the costs with the way points marked"); sym_assert((ci.size() == 1) && (ci[0]->data.size() == 5400) && (ci[0]->data[cellAt(1., 90. - 0.7 * 57.29578) * 3 + 2] == 255), "and the heading");
  auto f = on<Marker>("fov"); sym_assert((f.size() == 1) && (f[0]->points.size() == 12) && near(f[0]->points[1], tR * 0.8001031451912656, tR * 0.46193976625564337, -tR * 0.3826834323650898, 2e-4), "the sensor's view"); const Marker& r = one("range_scan", Marker::TRIANGLE_LIST); sym_assert((r.points.size() == 6) && (at(r.points[0], n.newest_position_) & near(r.points[1], 5. + tR * std::sin(0.05), 6. + tR * std::cos(0.05), 7., 1e-3)), "and the ranges reported"); sym_cover("end");
}
static void rgbOf(double hue, double* c) { double x = hue / 60.; x -= 6. * std::floor(x / 6.); int i = (int)x; double f = x - i; c[0] = i == 0 || i == 5 ? 1. : i == 1 ? 1. - f : i == 4 ? f : 0.; c[1] = i == 1 || i == 2 ? 1. : i == 0 ? f : i == 3 ? 1. - f : 0.; c[2] = i == 3 || i == 4 ? 1. : i == 2 ? f : i == 5 ? 1. - f : 0.; }
struct Land { SafeLandingPlannerVisualization v; SafeLandingPlanner p; int n; float cell; Eigen::Vector3f pos; Land(int cells) : n(cells) { stub::now() = ros::Time(1000, 0); ros::NodeHandle nh; v.initializePublishers(nh); stub::published<Marker>().clear(); stub::published<Array>().clear(); cell = sym_f32("cell", 0.25f, 2.f); pos = vec("pos", 500.f); p.grid_.resize(n * 0.5f, 0.5f); p.grid_.cell_size_ = cell; p.grid_.grid_size_ = n * cell; p.grid_.setFilterLimits(pos); } 
  const Array* get(const char* t) { auto g = on<Array>(t); sym_assert(g.size() == 1 && g[0]->markers.size() == (size_t)(n * n), "one marker per cell"); return g.size() == 1 && g[0]->markers.size() == (size_t)(n * n) ? g[0] : nullptr; }
  bool place(const Marker& m, int i, int j, double z) { return near(m.pose.position, pos.x() + (i + 0.5 - n / 2.) * cell, pos.y() + (j + 0.5 - n / 2.) * cell, z, 1e-3) & (m.scale.x == (double)cell) & (m.scale.y == (double)cell) & (m.scale.z > 0.) & (m.color.a > 0.f) & (m.pose.orientation.w == 1.) & (m.pose.orientation.x == 0.) & (m.pose.orientation.y == 0.) & (m.pose.orientation.z == 0.) & (m.id == i * n + j) & (m.header.frame_id == "local_origin") & (m.type == Marker::CUBE) & (m.action == 0); } };
//@ time=200 args=--reals
HARNESS C40_landing_cells() {
  sym_merge(0); Land l(sym_concretize(sym_i32("cells", 2, 4))); int s = sym_concretize(sym_i32("square", 0, 3)); l.p.smoothing_size_ = s; int flag[16], off = sym_concretize(sym_i32("which", 0, 3)); for (int i = 0; i < l.n * l.n; i++) { flag[i] = (i + off) % 4 == 0 ? sym_i32(nam("land", i), 0, 1) : i % 3 == 1; l.p.grid_.land_(i / l.n, i % l.n) = flag[i]; }
  geometry_msgs::Point at_; at_.x = l.pos.x(); at_.y = l.pos.y(); l.v.publishGrid(l.p.getGrid(), at_, l.p.getSmoothingSize()); const Array* g = l.get("grid"); if (!g) return;
  for (int i = 0; i < l.n; i++) for (int j = 0; j < l.n; j++) { auto& m = g->markers[i * l.n + j]; sym_assert(l.place(m, i, j, 0.), "each cell is shown where it is"); bool ok = flag[i * l.n + j] != 0; sym_assert((m.color.g == (ok ? 1.f : 0.f)) & (m.color.r == (ok ? 0.f : 1.f)) & (m.color.b == 0.f), "green exactly when it can be landed on, else red"); bool in = i >= l.n / 2 - s && i < l.n / 2 + s && j >= l.n / 2 - s && j < l.n / 2 + s; sym_assert(in ? m.scale.z > 0.5 : m.scale.z < 0.5, "the square below the vehicle stands out"); } sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C40_landing_spread() {
  Land l(2); static const float T[3] = {0.05f, 0.1f, 0.5f}; float thr = T[sym_concretize(sym_i32("limit", 0, 2))]; double ratio[4]; float mean[4]; for (int i = 0; i < 4; i++) { ratio[i] = i == 3 ? 1. : (i == 2 ? 3. : sym_concretize(sym_i32(nam("spread", i), 0, 12)) / (i == 0 ? 12. : 8.) + 0.01); mean[i] = sym_f32(nam("mean", i), -50.f, 50.f); float sd = (float)(ratio[i] * thr * (i == 3 ? 0.999 : 1.)); l.p.grid_.mean_(i / 2, i % 2) = mean[i]; l.p.grid_.variance_(i / 2, i % 2) = sd * sd; }
  l.v.publishMeanStdDev(l.p.getGrid(), thr); const Array* g = l.get("grid_mean_std_dev"); if (!g) return; for (int i = 0; i < 4; i++) { auto& m = g->markers[i]; sym_assert(l.place(m, i / 2, i % 2, mean[i]), "each cell is shown at its mean height"); double r = i == 3 ? 0.999 : ratio[i], c[3]; rgbOf(360. * r, c); if (r > 1.) sym_assert(rgb(m.color, 0.f, 0.f, 0.f), "black above the limit"); else sym_assert((std::fabs(m.color.r - c[0]) < 0.01) & (std::fabs(m.color.g - c[1]) < 0.01) & (std::fabs(m.color.b - c[2]) < 0.01), "else coloured by its spread"); } sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C40_landing_counts() {
  Land l(2); static const int C[10] = {5, 10, 55, 100, 150, 230, 260, 300, 345, 390}; int thr = sym_concretize(sym_i32("limit", 1, 4)); int c[4]; for (int i = 0; i < 4; i++) { c[i] = i == 3 ? thr : C[sym_concretize(sym_i32(nam("count", i), i == 2 ? 8 : 0, i == 1 ? 3 : 9))]; l.p.grid_.counter_(i / 2, i % 2) = c[i]; }
  l.v.publishCounter(l.p.getGrid(), thr); const Array* g = l.get("grid_counter"); if (!g) return; for (int i = 0; i < 4; i++) { auto& m = g->markers[i]; sym_assert(l.place(m, i / 2, i % 2, 0.), "each cell where it is"); double w[3]; rgbOf(360. * (c[i] - thr) / (400. - thr), w); sym_assert((std::fabs(m.color.r - w[0]) < 0.01) & (std::fabs(m.color.g - w[1]) < 0.01) & (std::fabs(m.color.b - w[2]) < 0.01), "coloured by how many points it holds"); } sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C40_landing_all() {
  Land l(2); auto cfg = safe_landing_planner::SafeLandingPlannerNodeConfig::__getDefault__(); cfg.std_dev_threshold = 0.5; cfg.n_points_threshold = 40; typedef pcl::PointCloud<pcl::PointXYZI> Cloud; stub::published<Cloud>().clear(); pcl::PointXYZI pt; pt.x = sym_f32("cloud", -500.f, 500.f); pt.y = 1.f; pt.z = 2.f; pt.intensity = 3.f; l.p.visualization_cloud_.push_back(pt); l.p.smoothing_size_ = 1; l.p.grid_.land_(0, 1) = 1; l.p.grid_.variance_(1, 0) = 0.16f; l.p.grid_.variance_(1, 1) = 0.36f; l.p.grid_.counter_.fill(40); l.p.grid_.counter_(0, 1) = 310; l.p.grid_.mean_(0, 1) = sym_f32("mean", -50.f, 50.f);
  for (int k = 0; k < 3; k++) {
    geometry_msgs::Point a, b; a.x = sym_f64_any("ax"); a.y = sym_f64_any("ay"); a.z = sym_f64_any("az"); b.x = sym_f64_any("bx"); b.y = sym_f64_any("by"); b.z = sym_f64_any("bz"); stub::published<Array>().clear(); stub::published<Cloud>().clear(); l.v.visualizeSafeLandingPlanner(l.p, a, b, cfg); auto cl = on<Cloud>("grid_pointcloud"); sym_assert((cl.size() == 1) && (cl[0]->size() == 1) && ((*cl[0])[0].x == pt.x) & ((*cl[0])[0].intensity == 3.f), "the cloud evaluated is shown");
    const Array *g = l.get("grid"), *s = l.get("grid_mean_std_dev"), *c = l.get("grid_counter"); if (!g || !s || !c) return; sym_assert(rgb(g->markers[1].color, 0.f, 1.f, 0.f) & rgb(g->markers[2].color, 1.f, 0.f, 0.f) & (g->markers[0].scale.z > 0.5), "the cells"); double w[3]; rgbOf(288., w); sym_assert((std::fabs(s->markers[2].color.r - w[0]) < 0.01) & (std::fabs(s->markers[2].color.b - w[2]) < 0.01) & rgb(s->markers[3].color, 0.f, 0.f, 0.f) & l.place(s->markers[1], 0, 1, l.p.grid_.mean_(0, 1)), "with the configured limit of the spread"); rgbOf(270., w); sym_assert((std::fabs(c->markers[1].color.r - w[0]) < 0.01) & (std::fabs(c->markers[1].color.b - w[2]) < 0.01) & (c->markers[0].color.r > 0.99f), "and of the count");
    auto v = on<Marker>("path_actual"); sym_assert((int)v.size() == k + 1, "a new piece of the path"); if ((int)v.size() != k + 1) return; auto& m = *v.back(); sym_assert((m.id == k) & (m.type == Marker::LINE_STRIP) & (m.action == 0) & (m.color.a > 0.f) & (m.pose.orientation.w == 1.) & (m.points.size() == 2) && (eqd(m.points[0].x, b.x) & eqd(m.points[0].y, b.y) & eqd(m.points[0].z, b.z) & eqd(m.points[1].x, a.x) & eqd(m.points[1].y, a.y) & eqd(m.points[1].z, a.z)), "from the last position to the newest");
  } sym_cover("end");
}
