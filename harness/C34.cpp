//! src=gp/library/cell.cpp,gp/library/node.cpp,gp/library/global_planner.cpp,gp/nodes/global_planner_node.cpp,avoidance/avoidance_node.cpp,avoidance/common.cpp cflags=-fwrapv
//# simplification: paths of 0..6 (thorough 8) cells, any cost in [0,100] of every pair of consecutive steps, any margin in [0,2], 0..3 passes (and unlimited), real-number arithmetic
//# curves: points within 1000 m, 1..10 subdivisions, tolerance 1e-6; smoothing: paths of 0..4 points (thorough 6)
#include "global_planner/global_planner_node.h"
#include "sym.h"
#include <cmath>
using namespace global_planner;
static char nm[1024][12];
static const char* nam(const char* b, int k) { static int c = 0; char* s = nm[c++ % 1024]; int i = 0; while (b[i]) { s[i] = b[i]; i++; } if (k > 999) s[i++] = '0' + k / 1000; if (k > 99) s[i++] = '0' + k / 100 % 10; if (k > 9) s[i++] = '0' + k / 10 % 10; s[i++] = '0' + k % 10; s[i] = 0; return s; }
static Cell mk(int i) { return Cell(std::tuple<int, int, int>(i, 0, 3)); }  // the i-th point of the path
struct Costs {  // stands for the planner: any cost for any pair of steps
  double c[512]; bool have[512]; Costs() { for (int i = 0; i < 512; i++) have[i] = false; }
  double cost(int p, int u, int v) { int k = (p * 8 + u) * 8 + v; if (!have[k]) { have[k] = true; c[k] = sym_f64(nam("cost", k), 0., 100.); } return c[k]; }
  double getEdgeCost(const Node& u, const Node& v) { sym_assert(u.cell_ == v.parent_, "a step and the one after it"); return cost(u.parent_.xIndex(), u.cell_.xIndex(), v.cell_.xIndex()); }
};
static std::vector<Cell> line(int n) { std::vector<Cell> p; for (int i = 0; i < n; i++) p.push_back(mk(i)); return p; }
static std::vector<Cell> pass(Costs& g, const std::vector<Cell>& p, double margin) {  // one pass: every other point may go
  std::vector<Cell> r; for (size_t i = 0; i < p.size(); i++) { bool keep = true; if (i >= 2 && i % 2 == 0 && i + 1 < p.size()) { int a = p[i - 2].xIndex(), b = p[i - 1].xIndex(), c = p[i].xIndex(), d = p[i + 1].xIndex(); keep = g.cost(a, b, d) > margin * (g.cost(a, b, c) + g.cost(b, c, d)); } if (keep) r.push_back(p[i]); } return r;
}
static void simplify(int n, int iters, bool stop) {
  Costs g; double margin = sym_f64("margin", 0., 2.); std::vector<Cell> p = line(n), orig = p; std::vector<Cell> r = simplifyPath(&g, p, margin, iters, stop); sym_assert(p == orig, "the path itself is not changed"); if (n < 3) { sym_assert(r == p, "nothing to simplify"); sym_cover("short"); return; }
  std::vector<Cell> want = p; for (int j = 0; j < iters; j++) { std::vector<Cell> q = pass(g, want, margin); bool same = q.size() == want.size(); want = q; if (same) break; } if (stop) want.push_back(want.back()); sym_assert(r == want, "points go exactly when the direct connection is within the margin"); sym_assert(r[0] == p[0] && r[1] == p[1] && r.back() == p.back(), "the ends stay"); sym_assert(!stop || r[r.size() - 2] == p.back(), "the end is doubled to stop there"); sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C34_simplify_short() { simplify(sym_concretize(sym_i32("n", 0, 4)), sym_concretize(sym_i32("passes", 0, 2)), sym_concretize(sym_i32("stop", 0, 1))); }
//@ time=200 args=--reals
HARNESS C34_simplify_even() { simplify(6, sym_concretize(sym_i32("passes", 1, 3)), true); sym_cover("all"); }
//@ time=200 args=--reals
HARNESS C34_simplify_odd() { simplify(5, 100, false); sym_cover("all"); }
//@ time=600 args=--reals tier=thorough
HARNESS C34_simplify_long() { simplify(8, sym_concretize(sym_i32("passes", 0, 1)) ? 100 : 1, true); sym_cover("all"); }
static geometry_msgs::Point pt(const char* b) { geometry_msgs::Point p; p.x = sym_f64(nam(b, 0), -1000., 1000.); p.y = sym_f64(nam(b, 1), -1000., 1000.); p.z = sym_f64(nam(b, 2), -1000., 1000.); return p; }
static bool eq(const geometry_msgs::Point& a, const geometry_msgs::Point& b) { return (std::fabs(a.x - b.x) < 1e-6) & (std::fabs(a.y - b.y) < 1e-6) & (std::fabs(a.z - b.z) < 1e-6); }
static geometry_msgs::Point mix(double a, const geometry_msgs::Point& p, double b, const geometry_msgs::Point& q, double c, const geometry_msgs::Point& r) { geometry_msgs::Point o; o.x = a * p.x + b * q.x + c * r.x; o.y = a * p.y + b * q.y + c * r.y; o.z = a * p.z + b * q.z + c * r.z; return o; }
static bool within(double v, double a, double b, double c) { double lo = std::min(a, std::min(b, c)), hi = std::max(a, std::max(b, c)); return (v > lo - 1e-6) & (v < hi + 1e-6); }
static bool between(const geometry_msgs::Point& o, const geometry_msgs::Point& p, const geometry_msgs::Point& q, const geometry_msgs::Point& r) { return within(o.x, p.x, q.x, r.x) & within(o.y, p.y, q.y, r.y) & within(o.z, p.z, q.z, r.z); }
static void curve(const std::vector<geometry_msgs::Point>& c, const geometry_msgs::Point& p, const geometry_msgs::Point& q, const geometry_msgs::Point& r, int n) {
  sym_assert((int)c.size() == n + 1, "number of points"); if ((int)c.size() != n + 1) return; sym_assert(eq(c[0], p) & eq(c[n], r), "the ends stay"); bool on = true, in = true; for (int i = 0; i <= n; i++) { double t = (double)i / n; on = on & eq(c[i], mix((1 - t) * (1 - t), p, 2 * t * (1 - t), q, t * t, r)); in = in & between(c[i], p, q, r); } sym_assert(on, "on the quadratic curve, i.e. a convex combination of the three points"); sym_assert(in, "within their bounds");
}
static nav_msgs::Path mkpath(int n) { nav_msgs::Path p; p.header.frame_id = "world"; for (int i = 0; i < n; i++) { geometry_msgs::PoseStamped s; s.header.frame_id = "frame"; s.pose.position = pt(nam("p", i * 10)); s.pose.orientation.w = 1.; s.pose.orientation.z = 0.125 * i; p.poses.push_back(s); } return p; }
static void smooth(int n) {
  nav_msgs::Path p = mkpath(n), o = smoothPath(p); sym_assert(o.header.frame_id == "world", "frame"); if (n < 3) { bool same = (int)o.poses.size() == n; for (int i = 0; i < n && same; i++) same = same & eq(o.poses[i].pose.position, p.poses[i].pose.position); sym_assert(same, "nothing to smooth"); sym_cover("short"); return; }
  sym_assert((int)o.poses.size() == 2 + 11 * (n - 2), "one curve per corner"); if ((int)o.poses.size() != 2 + 11 * (n - 2)) return; sym_assert(eq(o.poses.front().pose.position, p.poses[0].pose.position) & eq(o.poses.back().pose.position, p.poses[n - 1].pose.position), "the ends stay"); bool meta = true; for (auto& s : o.poses) meta = meta && s.header.frame_id == "frame"; sym_assert(meta, "frames are kept");
  for (int k = 1; k + 1 < n; k++) { const geometry_msgs::Point &a = p.poses[k - 1].pose.position, &b = p.poses[k].pose.position, &c = p.poses[k + 1].pose.position; geometry_msgs::Point m0 = mix(.5, a, .5, b, 0., c), m1 = mix(0., a, .5, b, .5, c); bool on = true, in = true; for (int i = 0; i <= 10; i++) { double t = i / 10.; const geometry_msgs::Point& v = o.poses[1 + 11 * (k - 1) + i].pose.position; on = on & eq(v, mix((1 - t) * (1 - t), m0, 2 * t * (1 - t), b, t * t, m1)); in = in & between(v, a, b, c); } sym_assert(on, "each corner is cut between the middles of its edges"); sym_assert(in, "within the bounds of the corner"); }
  sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C34_bezier() { int n = sym_concretize(sym_i32("steps", 1, 10)); sym_merge(0); geometry_msgs::Point p = pt("p"), q = pt("q"), r = pt("r"); curve(threePointBezier(p, q, r, n), p, q, r, n); sym_cover("end"); }
//@ time=200 args=--reals
HARNESS C34_bezier_default() { sym_merge(0); geometry_msgs::Point p = pt("p"), q = pt("q"), r = pt("r"); curve(threePointBezier(p, q, r), p, q, r, 10); sym_cover("end"); }
//@ time=200 args=--reals
HARNESS C34_bezier_path() { int n = sym_concretize(sym_i32("n", 0, 4)); sym_merge(0); nav_msgs::Path p = mkpath(n), o = threePointBezier(p, 6); if (n != 3) { bool same = o.poses.size() == p.poses.size(); for (int i = 0; i < n && same; i++) same = same & eq(o.poses[i].pose.position, p.poses[i].pose.position); sym_assert(same, "only three points make a curve"); sym_cover("other"); return; } std::vector<geometry_msgs::Point> c; bool meta = o.header.frame_id == "world"; for (auto& s : o.poses) { c.push_back(s.pose.position); meta = meta && s.header.frame_id == "frame" && s.pose.orientation.w == 1.; } sym_assert(meta, "frames are kept"); curve(c, p.poses[0].pose.position, p.poses[1].pose.position, p.poses[2].pose.position, 6); sym_cover("end"); }
//@ time=200 args=--reals
HARNESS C34_smooth() { int n = sym_concretize(sym_i32("n", 0, 4)); sym_merge(0); smooth(n); sym_cover("all"); }
//@ time=600 args=--reals tier=thorough
HARNESS C34_smooth_long() { sym_merge(0); smooth(6); sym_cover("all"); }
static void corners(int n, const int (*D)[3], int nd) {  // reducing a path to its corners drops exactly the points at which nothing changes
  std::vector<geometry_msgs::PoseStamped> p; double s = sym_f64_grid("start", -100., 100., 0.5); int d[8]; double at[3] = {s, s, s}; for (int i = 0; i < n; i++) { geometry_msgs::PoseStamped q; q.pose.position.x = at[0]; q.pose.position.y = at[1]; q.pose.position.z = at[2]; p.push_back(q); if (i + 1 < n) { d[i] = sym_concretize(sym_i32(nam("d", i), 0, nd - 1)); for (int k = 0; k < 3; k++) at[k] += D[d[i]][k]; } }
  std::vector<geometry_msgs::PoseStamped> c = filterPathCorners(p); if (n == 0) { sym_assert(c.empty(), "empty"); return; } size_t k = 0; bool ok = true; for (int i = 0; i < n; i++) if (i == 0 || i == n - 1 || d[i] != d[i - 1]) { ok = ok & (k < c.size()); if (k < c.size()) ok = ok & eq(c[k].pose.position, p[i].pose.position); k++; } sym_assert(ok, "first, last and corner points in order"); sym_assert(n == 1 || k == c.size(), "nothing else");
}
static const int kFour[][3] = {{1, 0, 0}, {0, 1, 0}, {1, 1, 0}, {0, 0, 1}};
static const int kMany[][3] = {{1, 0, 0}, {2, 0, 0}, {1, 0, 1}, {1, 0, 2}, {1, 2, 0}, {1, -1, 0}, {2, 0, 1}, {0, 0, 1}, {0, 0, 2}, {0, 0, -1}, {-1, 0, 0}, {1, 1, 1}};
//@ time=200 args=--reals
HARNESS C34_corners() { corners(sym_concretize(sym_i32("n", 0, 5)), kFour, 4); sym_cover("end"); }
//@ time=200 args=--reals
HARNESS C34_corners_any() { corners(3, kMany, 12); sym_cover("end"); }
struct Msg { geometry_msgs::Point prev, ctrl, next; double duration = 0; };
//@ time=300 args=--reals
HARNESS C34_two_points() {  // accelerate, cruise, brake: one continuous way from start to end
  sym_merge(0); geometry_msgs::Point a, b; a.x = sym_f64("a", -100., 100.); a.y = 1.; a.z = 2.; b = a; double d = sym_f64("d", 0.01, 200.); b.x = a.x + d; double acc = sym_f64("acc", 0.1, 10.), v = sym_f64("v", 0.1, 10.); std::vector<Msg> m; bezierFromTwoPoints(a, b, acc, v, m); sym_assert(m.size() == 3, "three phases"); sym_assert(eq(m[0].prev, a) & eq(m[2].next, b), "from start to end"); sym_assert(eq(m[0].next, m[1].prev) & eq(m[1].next, m[2].prev), "without a gap"); bool in = true; for (auto& q : m) in = in & within(q.prev.x, a.x, a.x, b.x) & within(q.ctrl.x, a.x, a.x, b.x) & within(q.next.x, a.x, a.x, b.x) & (q.duration >= -1e-6); sym_assert(in, "between the two points, in non-negative time"); double s = std::min(d / 2, v * v / acc / 2); sym_assert(std::fabs(m[0].next.x - a.x - s) < 1e-3, "accelerating until the speed or the middle is reached"); sym_cover("end");
}
//@ time=300 args=--reals
HARNESS C34_published() {  // the path followed and shown is the planned one simplified as configured
  ros::NodeHandle nh, pr; GlobalPlannerNode* n = new GlobalPlannerNode(nh, pr); GlobalPlanner& g = n->global_planner_; g.setRobotRadius(0.5); g.smooth_factor_ = 10.; g.curr_pos_.x = g.curr_pos_.y = g.curr_pos_.z = 0.5; g.curr_vel_.x = g.curr_vel_.y = g.curr_vel_.z = 0; g.curr_yaw_ = 0.; int shape = sym_concretize(sym_i32("shape", 0, 3)); static const int Y[4][6] = {{0, 0, 0, 0, 0, 0}, {0, 0, 1, 1, 2, 2}, {0, 0, 1, 0, 1, 0}, {0, 0, 0, 0, 1, 2}}; std::vector<Cell> p; for (int i = 0; i < 6; i++) p.push_back(Cell(std::tuple<int, int, int>(i, Y[shape][i], 3))); g.setPath(p); n->simplify_iterations_ = sym_concretize(sym_i32("iterations", 0, 3)); n->simplify_margin_ = sym_f64("margin", 0., 2.);
  std::vector<Cell> q = p; std::vector<Cell> want = simplifyPath(&g, q, n->simplify_margin_, n->simplify_iterations_); n->publishPath(); std::vector<nav_msgs::Path> shown; for (auto& m : stub::published<nav_msgs::Path>()) if (m.first == "global_temp_path") shown.push_back(m.second); sym_assert(shown.size() == 2 && shown[0].poses.size() == 6, "the planned path is shown"); bool ok = shown.back().poses.size() == want.size() && n->path_.size() + 2 == want.size(); sym_assert(ok, "number of points"); if (!ok) return; bool same = true; for (size_t i = 0; i < want.size(); i++) { same = same & eq(shown.back().poses[i].pose.position, want[i].toPoint()); const geometry_msgs::PoseStamped& f = i == 0 ? n->last_goal_ : i == 1 ? n->current_goal_ : n->path_[i - 2]; same = same & eq(f.pose.position, want[i].toPoint()); } sym_assert(same, "simplified as configured"); sym_assert(g.curr_path_ == p, "the plan itself is kept"); sym_cover("end");
}
