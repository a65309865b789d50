//! src=slp/nodes/safe_landing_planner.cpp,avoidance/common.cpp
//# sizes: any grid size 1..6 m with cell sizes 0.5, 0.75, 1, 2.5, and the pairs of 12 configurations (multiples or not, one cell); storage: any indices, any values, 4 x 4 cells, histories of two writes; combining: any values and weights, 3 x 3 cells
//# detector: up to 3 passes (thorough 4), each with any of 3 configurations, live or replaying a recorded grid of any of 3 sizes; one cloud point
//# outside the claim: recorded grids whose layout does not match their stated size
#include "safe_landing_planner/safe_landing_planner.hpp"
#include "sym.h"
#include <cmath>
using namespace avoidance;
static char nm[256][12];
static const char* nam(const char* b, int k) { static int c = 0; char* s = nm[c++ % 256]; int i = 0; while (b[i]) { s[i] = b[i]; i++; } if (k > 9) s[i++] = '0' + k / 10; s[i++] = '0' + k % 10; s[i] = 0; return s; }
static bool dims(const Grid& g, int n) { return (g.getRowColSize() == n) && (g.mean_.rows() == n) && (g.mean_.cols() == n) && (g.land_.rows() == n) && (g.land_.cols() == n) && (g.getVariance().rows() == n) && (g.getVariance().cols() == n) && (g.getCounter().rows() == n) && (g.getCounter().cols() == n); }
static bool clear(const Grid& g, int n) { bool ok = true; Eigen::MatrixXf v = g.getVariance(); Eigen::MatrixXi c = g.getCounter(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) ok = ok & (g.mean_(i, j) == 0.f) & (v(i, j) == 0.f) & (c(i, j) == 0) & (g.land_(i, j) == 0); return ok; }
//@ time=120
HARNESS C25_size() {
  static const float S[12][2] = {{10.f, 1.f}, {12.f, 4.f}, {10.f, 0.25f}, {1.f, 1.f}, {1.f, 10.f}, {7.f, 2.f}, {10.f, 3.f}, {20.f, 9.5f}, {5.f, 0.625f}, {3.f, 1.f}, {6.5f, 0.5f}, {9.f, 0.75f}}; static const int W[12] = {10, 3, 40, 1, 1, 4, 4, 3, 8, 3, 13, 12};
  int a = sym_concretize(sym_i32("first", 0, 11)), b = sym_concretize(sym_i32("second", 0, 11)); Grid g(S[a][0], S[a][1]); sym_assert(dims(g, W[a]), "as many cells per side as the size divided by the cell size, in every layer"); sym_assert((g.getGridSize() == S[a][0]) & (g.getCellSize() == S[a][1]), "the extent is the one asked for"); sym_assert(clear(g, W[a]), "a new grid is clear");
  g.mean_.fill(2.f); g.land_.fill(1); Eigen::Vector2i z(0, 0); g.setVariance(z, 3.f); g.setCounter(z, 5); g.resize(S[b][0], S[b][1]); sym_assert(dims(g, W[b]), "resizing resizes every layer"); sym_assert((g.getGridSize() == S[b][0]) & (g.getCellSize() == S[b][1]) && clear(g, W[b]), "and clears it"); sym_cover("end");
}
//@ time=120 args=--reals
HARNESS C25_any_size() {
  static const float C[4] = {0.5f, 0.75f, 1.f, 2.5f}; float c = C[sym_concretize(sym_i32("cell", 0, 3))], s = sym_f32("size", 1.f, 6.f); int n = sym_concretize(sym_i32("n", 1, 12)); sym_assume((s > c * (n - 1) + 1e-4f) & (s < c * n - 1e-4f)); Grid g(s, c); sym_assert(g.getRowColSize() == n, "a size that is no multiple of the cell size is rounded up"); sym_assert(dims(g, n), "in every layer"); sym_cover("end");
}
//@ time=120
HARNESS C25_store() {
  Grid g(4.f, 1.f); int a = sym_i32("i", 0, 3), b = sym_i32("j", 0, 3), c = sym_i32("k", 0, 3), d = sym_i32("l", 0, 3), p = sym_i32("p", 0, 3), q = sym_i32("q", 0, 3); Eigen::Vector2i A(a, b), B(c, d), P(p, q); float m1 = sym_f32("m1", -100.f, 100.f), m2 = sym_f32("m2", -100.f, 100.f), v1 = sym_f32("v1", 0.f, 100.f), v2 = sym_f32("v2", 0.f, 100.f); int c1 = sym_i32("c1", 0, 1000), c2 = sym_i32("c2", 0, 1000);
  g.setMean(A, m1); g.setVariance(A, v1); g.setCounter(A, c1); g.land_(a, b) = 1; g.setMean(B, m2); g.setVariance(B, v2); g.setCounter(B, c2); bool inc = sym_fork(sym_bool("inc")); if (inc) g.increaseCounter(B);
  bool isB = (p == c) & (q == d), isA = (p == a) & (q == b) & !isB; sym_assert(g.getMean(P) == (isB ? m2 : isA ? m1 : 0.f), "mean"); sym_assert(g.getVariance(P) == (isB ? v2 : isA ? v1 : 0.f), "variance"); sym_assert(g.getCounter(P) == (isB ? c2 + inc : isA ? c1 : 0), "count");
  sym_assert((g.getMean()(p, q) == g.getMean(P)) & (g.mean_(p, q) == g.getMean(P)) & (g.getVariance()(p, q) == g.getVariance(P)) & (g.getCounter()(p, q) == g.getCounter(P)), "every way of reading agrees"); sym_assert(g.land_(p, q) == (((p == a) & (q == b)) ? 1 : 0), "landing flag"); sym_assert(dims(g, 4), "the extent stays"); g.reset(); sym_assert(clear(g, 4) && dims(g, 4), "resetting clears every cell"); sym_cover("end");
}
//@ time=120 args=--reals
HARNESS C25_combine() {
  Grid g(3.f, 1.f), h(3.f, 1.f); float a = sym_f32("alpha", 0.f, 1.f); float m[2][9], v[2][9]; for (int i = 0; i < 9; i++) { Eigen::Vector2i x(i / 3, i % 3); m[0][i] = sym_f32(nam("m", i), -100.f, 100.f); m[1][i] = sym_f32(nam("n", i), -100.f, 100.f); v[0][i] = sym_f32(nam("v", i), 0.f, 100.f); v[1][i] = sym_f32(nam("w", i), 0.f, 100.f); g.setMean(x, m[0][i]); h.setMean(x, m[1][i]); g.setVariance(x, v[0][i]); h.setVariance(x, v[1][i]); g.setCounter(x, i); h.setCounter(x, 50); g.land_(i / 3, i % 3) = i & 1; h.land_.fill(1); }
  g.combine(h, a); sym_assert(dims(g, 3) && dims(h, 3), "the extent stays"); for (int i = 0; i < 9; i++) { Eigen::Vector2i x(i / 3, i % 3); sym_assert(std::fabs(g.getMean(x) - (a * m[1][i] + (1.f - a) * m[0][i])) < 1e-3f, "the mean is the weighted one"); sym_assert(std::fabs(g.getVariance(x) - (a * v[1][i] + (1.f - a) * v[0][i])) < 1e-3f, "the variance is the weighted one"); sym_assert((g.getCounter(x) == i) & (g.land_(i / 3, i % 3) == (i & 1)) & (h.getMean(x) == m[1][i]), "nothing else changes"); } sym_cover("end");
}
//@ time=60
HARNESS C25_limits() {
  Grid g(5.f, 1.f); float x = sym_f32("x", -1000.f, 1000.f), y = sym_f32("y", -1000.f, 1000.f); g.setFilterLimits(Eigen::Vector3f(x, y, 3.f)); Eigen::Vector2f lo, hi; g.getGridLimits(lo, hi); sym_assert((lo.x() == x - 2.5f) & (lo.y() == y - 2.5f) & (hi.x() == x + 2.5f) & (hi.y() == y + 2.5f), "the footprint is centred on the vehicle"); sym_cover("end");
}
static safe_landing_planner::SLPGridMsg recorded(float size, float cell, int n) { safe_landing_planner::SLPGridMsg m; m.grid_size = size; m.cell_size = cell; for (auto* l : {&m.mean.layout, &m.std_dev.layout, &m.counter.layout, &m.land.layout}) { l->dim.resize(2); l->dim[0].size = l->dim[1].size = n; } for (int i = 0; i < n * n; i++) { m.mean.data.push_back(1.f + i); m.std_dev.data.push_back(0.5f * i); m.counter.data.push_back(i); m.land.data.push_back(0); } return m; }
static void detector(int passes, bool rec) {
  static const float S[3][2] = {{3.f, 1.f}, {6.f, 2.f}, {4.f, 2.f}}, R[3][2] = {{3.f, 1.f}, {2.f, 1.f}, {8.f, 2.f}}; static const int W[3] = {3, 3, 2}, V[3] = {3, 2, 4}; SafeLandingPlanner p;
  for (int k = 0; k < passes; k++) {
    int c = sym_concretize(sym_i32(nam("config", k), 0, 2)), r = sym_concretize(sym_i32(nam("recorded", k), -1, rec ? 2 : -1)); safe_landing_planner::SafeLandingPlannerNodeConfig f = safe_landing_planner::SafeLandingPlannerNodeConfig::__getDefault__(); f.grid_size = S[c][0]; f.cell_size = S[c][1]; f.smoothing_size = sym_concretize(sym_i32(nam("smoothing", k), -1, 1)); f.alpha = 0.5; f.min_n_land_cells = 0; f.max_n_mean_diff_cells = 9; f.n_points_threshold = 1; p.dynamicReconfigureSetParams(f, 0);
    p.setPose(Eigen::Vector3f(7.f, -3.f, 2.f), Eigen::Quaternionf(1.f, 0.f, 0.f, 0.f)); p.play_rosbag_ = r >= 0; float size = S[c][0], cell = S[c][1]; int n = W[c]; if (r >= 0) { size = R[r][0], cell = R[r][1], n = V[r]; p.raw_grid_ = recorded(size, cell, n); } p.cloud_.clear(); p.cloud_.push_back(pcl::PointXYZ(7.2f, -2.9f, 1.f)); p.runSafeLandingPlanner(); Grid g = p.getGrid(), h = p.getPreviousGrid();
    sym_assert(dims(g, n) && dims(h, n), "the detector's grids have the size in force, in every layer"); sym_assert((g.getGridSize() == size) & (g.getCellSize() == cell) & (h.getGridSize() == size) & (h.getCellSize() == cell), "and its extent"); Eigen::Vector2f lo, hi; g.getGridLimits(lo, hi); sym_assert((lo.x() == 7.f - size / 2.f) & (lo.y() == -3.f - size / 2.f) & (hi.x() == 7.f + size / 2.f) & (hi.y() == -3.f + size / 2.f), "its footprint is centred on the vehicle"); int at = (int)std::floor(size / 2.f / cell); sym_assert((p.getPositionIndex().x() == at) & (p.getPositionIndex().y() == at), "the vehicle's cell is the centre one");
    if (r >= 0) { Eigen::MatrixXi ct = g.getCounter(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sym_assert(ct(i, j) == n * i + j, "the recorded cells"); } else { Eigen::Vector2i x(at, at); sym_assert(g.getCounter(x) == 1 && g.getCounter().sum() == 1, "the point is counted once"); }
  }
  sym_cover("end");
}
//@ time=600 tier=thorough
HARNESS C25_detector_long() { detector(3, true); }
//@ time=200
HARNESS C25_detector_live() { detector(3, false); }
//@ time=200
HARNESS C25_detector_recorded() { detector(2, true); }
