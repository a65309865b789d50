//! src=slp/nodes/waypoint_generator_node.cpp,slp/nodes/waypoint_generator.cpp,avoidance/common.cpp
//# grids of 1..9 cells per side (and 20, 40 and 100 in an entry of their own) with kernels of 0..6 and 100, every landing state, any landing flags and outcome; the kernel reconfigured and the grid resized between two cycles
//# heights: any heights of 3 (thorough 5) of the kernel's 9 cells, the others distinct, and of a single cell, any percentile of 0, 50, 80 and 100; vehicle anywhere within 100 m
#include "safe_landing_planner/waypoint_generator_node.hpp"
#include "sym.h"
#include <cmath>
using namespace avoidance;
typedef SLPState S;
static char nm[512][12];
static const char* nam(const char* b, int k) { static int c = 0; char* s = nm[c++ % 512]; int i = 0; while (b[i]) { s[i] = b[i]; i++; } if (k > 9) s[i++] = '0' + k / 10; s[i++] = '0' + k % 10; s[i] = 0; return s; }
typedef visualization_msgs::MarkerArray Markers;
// the kernel used, the cells shown and their colours
static void shown(WaypointGenerator& w, int n, int k, float cell, float x, float y, bool asked) {
  sym_assert((w.mask_.rows() == 2 * k + 1) & (w.mask_.cols() == 2 * k + 1), "the kernel is the configured one, cut to the largest that fits into the grid"); auto& out = stub::published<Markers>(); sym_assert(!out.empty(), "the landing area is shown"); const auto& m = out.back().second.markers;
  sym_assert(m.size() == (size_t)((2 * k + 1) * (2 * k + 1)), "as many cells as are evaluated"); int c = n / 2; bool right = true, colour = true; size_t q = 0;
  if (m.size() == (size_t)((2 * k + 1) * (2 * k + 1))) for (int i = -k; i <= k; i++) for (int j = -k; j <= k; j++) { const auto& a = m[q++]; right = right & (std::fabs(a.pose.position.x - (x - n * cell / 2.f + cell * (c + i))) < 1e-3) & (std::fabs(a.pose.position.y - (y - n * cell / 2.f + cell * (c + j))) < 1e-3); bool ok = (i * i + j * j < (k + 0.5) * (k + 0.5)) & (w.can_land_hysteresis_result_(c + i, c + j) != 0); colour = colour & (ok == (a.color.g == 1.f)) & (ok == (a.color.r == 0.f)); }
  sym_assert(right, "at their places"); if (asked) sym_assert(colour, "green exactly when landable");
}
static void flags(WaypointGenerator& w, int n, int k) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { w.grid_slp_.mean_(i, j) = 0.f; w.grid_slp_.land_(i, j) = 1; } (void)k; }
static const S ST[6] = {S::GOTO, S::ALTITUDE_CHANGE, S::LOITER, S::EVALUATE_GRID, S::GOTO_LAND, S::LAND};
static void cycle(S s0, int n, int s, int n2, int s2) {
  ros::NodeHandle nh; WaypointGeneratorNode* N = new WaypointGeneratorNode(nh); WaypointGenerator& w = N->waypointGenerator_; float cell = 0.5f, x = sym_f32("x", -100.f, 100.f), y = sym_f32("y", -100.f, 100.f); safe_landing_planner::WaypointGeneratorNodeConfig c = safe_landing_planner::WaypointGeneratorNodeConfig::__getDefault__();
  for (int round = 0; round < 2; round++) { int g = round ? n2 : n, k = round ? s2 : s, e = std::min(k, (g - 1) / 2); c.smoothing_land_cell = k; N->dynamicReconfigureCallback(c, 0); w.grid_slp_.resize(g * cell, cell); sym_assert(w.grid_slp_.land_.rows() == g, "the grid"); flags(w, g, k); w.grid_slp_.setFilterLimits(Eigen::Vector3f(x, y, 0.f)); w.position_ = Eigen::Vector3f(x, y, 8.f); w.goal_ = w.position_; w.is_land_waypoint_ = true; w.m_currentState = s0; w.prev_slp_state_ = s0; N->grid_received_ = true;
    w.updateSLPState(); sym_assert(w.can_land_hysteresis_result_.rows() == g, "observations of every cell"); w.can_land_hysteresis_result_(g / 2, g / 2) = sym_i32(nam("centre", round), 0, 1); if (e > 0) w.can_land_hysteresis_result_(g / 2 - e, g / 2 + e) = 1; if (e > 0) w.can_land_hysteresis_result_(g / 2 + e, g / 2) = sym_i32(nam("edge", round), 0, 1); w.decision_taken_ = sym_fork(sym_bool(nam("decided", round))); w.can_land_ = false;
    ros::TimerEvent ev; N->cmdLoopCallback(ev); shown(w, g, e, cell, x, y, true); }
  sym_cover("end");
}
static void cycles(S s0) { sym_merge(0); int n = sym_concretize(sym_i32("n", 1, 9)), s = sym_concretize(sym_i32("s", 0, 7)); cycle(s0, n, s == 7 ? 100 : s, 5, 2); }
//@ time=200 args=--reals
HARNESS C38_goto() { cycles(S::GOTO); }
//@ time=200 args=--reals
HARNESS C38_altitude() { cycles(S::ALTITUDE_CHANGE); }
//@ time=200 args=--reals
HARNESS C38_loiter() { cycles(S::LOITER); }
//@ time=200 args=--reals
HARNESS C38_evaluate() { cycles(S::EVALUATE_GRID); }
//@ time=200 args=--reals
HARNESS C38_goto_land() { cycles(S::GOTO_LAND); }
//@ time=200 args=--reals
HARNESS C38_land() { cycles(S::LAND); }
//@ time=200 args=--reals
HARNESS C38_shrink() { sym_merge(0); int n = sym_concretize(sym_i32("n", 1, 9)), s = sym_concretize(sym_i32("s", 0, 5)); cycle(S::EVALUATE_GRID, 9, 4, n, s); }
//@ time=200 args=--reals
HARNESS C38_large() { sym_merge(0); int i = sym_concretize(sym_i32("i", 0, 3)); static const int G[4] = {20, 40, 40, 100}, K[4] = {6, 6, 20, 3}; cycle(S::EVALUATE_GRID, G[i], K[i], 40, 6); }
static safe_landing_planner::SLPGridMsg gridMsg(int n, float cell) { safe_landing_planner::SLPGridMsg m; m.grid_size = n * cell; m.cell_size = cell; m.mean.layout.dim.resize(2); m.land.layout.dim.resize(2); for (int i = 0; i < 2; i++) m.mean.layout.dim[i].size = m.land.layout.dim[i].size = n; for (int i = 0; i < n * n; i++) { m.mean.data.push_back(0.f); m.land.data.push_back(1); } m.curr_pos_index.x = m.curr_pos_index.y = n / 2; return m; }
//@ time=200 args=--reals
HARNESS C38_regrow() {  // the kernel is configured once, grids of other sizes keep arriving
  sym_merge(0); ros::NodeHandle nh; WaypointGeneratorNode* N = new WaypointGeneratorNode(nh); WaypointGenerator& w = N->waypointGenerator_; safe_landing_planner::WaypointGeneratorNodeConfig c = safe_landing_planner::WaypointGeneratorNodeConfig::__getDefault__(); int s = sym_concretize(sym_i32("s", 0, 6)); c.smoothing_land_cell = s; N->dynamicReconfigureCallback(c, ~0u); float x = sym_f32("x", -100.f, 100.f), y = sym_f32("y", -100.f, 100.f);
  static const int G[5] = {1, 4, 7, 13, 40}; for (int k = 0; k < 3; k++) { int g = G[sym_concretize(sym_i32(nam("grid", k), 0, k == 1 ? 2 : 4))]; w.position_ = Eigen::Vector3f(x, y, 8.f); w.goal_ = w.position_; w.is_land_waypoint_ = true; w.m_currentState = k == 2 ? S::EVALUATE_GRID : S::LOITER; w.prev_slp_state_ = w.m_currentState; N->gridCallback(gridMsg(g, 0.5f)); ros::TimerEvent ev; N->cmdLoopCallback(ev); shown(w, g, std::min(s, (g - 1) / 2), 0.5f, x, y, true); }
  sym_cover("end");
}
#ifdef THOROUGH
static const int SPARSE = 2;
#else
static const int SPARSE = 4;
#endif
static void heights(int n, int s) {
  WaypointGenerator w; w.smoothing_land_cell_ = s; w.grid_slp_.resize(n, 1.f); w.updateSLPState(); int k = std::min(s, (n - 1) / 2), c = n / 2, N = (2 * k + 1) * (2 * k + 1); w.grid_slp_.mean_.fill(777.f); float h[9]; int q = 0; for (int i = -k; i <= k; i++) for (int j = -k; j <= k; j++) { h[q] = N <= 1 || q % SPARSE == 0 ? sym_f32(nam("h", q), -50.f, 50.f) : (float)((q * 5) % 7) - 2.5f; w.grid_slp_.mean_(c + i, c + j) = h[q]; q++; }
  static const float P[4] = {0.f, 50.f, 80.f, 100.f}; float p = P[sym_concretize(sym_i32("p", 0, 3))]; float r = w.landingAreaHeightPercentile(p); int rank = std::min(N - 1, (int)std::round(p / 100.f * N)), below = 0, upto = 0; bool one = false; for (int i = 0; i < N; i++) { below += h[i] < r ? 1 : 0; upto += h[i] <= r ? 1 : 0; one = one | (h[i] == r); }
  sym_assert(one, "the height is one of the landing area's"); sym_assert((below <= rank) & (upto > rank), "and it is the percentile asked for"); sym_cover("end");
}
//@ time=60
HARNESS C38_height_single() { int n = sym_concretize(sym_i32("n", 1, 4)); heights(n, 0); }
//@ time=60
HARNESS C38_height_cut() { int n = sym_concretize(sym_i32("n", 1, 2)); heights(n, 3); }
//@ time=200 ttime=800
HARNESS C38_height_area() { int n = sym_concretize(sym_i32("n", 3, 5)); heights(n, 1); }
