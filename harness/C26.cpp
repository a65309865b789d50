//! src=slp/nodes/safe_landing_planner.cpp,avoidance/common.cpp
//# memory safety and cell choice: one point anywhere (every float, NaN and infinities included), vehicle anywhere within 1000 m, in bit-exact float arithmetic; grids 3 m/1 m and 2.5 m/1 m (exact), 1 m/0.1 m and 10 m/0.25 m in real-number arithmetic
//# statistics: 4 points (thorough 6) each in any of 3 cells or outside, anywhere in the cell (a millimetre inside it), any heights; real-number arithmetic, tolerance 1e-3
#include "safe_landing_planner/safe_landing_planner.hpp"
#include "sym.h"
#include <cmath>
using namespace avoidance;
static char nm[256][12];
static const char* nam(const char* b, int k) { static int c = 0; char* s = nm[c++ % 256]; int i = 0; while (b[i]) { s[i] = b[i]; i++; } if (k > 9) s[i++] = '0' + k / 10; s[i++] = '0' + k % 10; s[i] = 0; return s; }
static void grids(SafeLandingPlanner& p, float size, float cell) { p.grid_.resize(size, cell); p.previous_grid_.resize(size, cell); p.grid_size_ = size; p.cell_size_ = cell; p.alpha_ = 0.f; p.smoothing_size_ = p.n_lines_padding_ = 0; }
static void edge(float size, float cell, int n) {
  SafeLandingPlanner p; grids(p, size, cell); float px = sym_f32("px", -1000.f, 1000.f), x = sym_f32_any("x"), y = sym_concretize(sym_i32("y_in", 0, 1)) ? 5.f : 900.f; p.setPose(Eigen::Vector3f(px, 5.f, 2.f), Eigen::Quaternionf(1.f, 0.f, 0.f, 0.f)); p.cloud_.push_back(pcl::PointXYZ(x, y, 1.5f)); p.processPointcloud(); Eigen::MatrixXi c = p.grid_.getCounter(); bool in = (x > px - size / 2.f) & (x < px + size / 2.f) & (y == 5.f); int sum = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sum += c(i, j); sym_assert(sum == (in ? 1 : 0), "a point is counted once inside the footprint and not outside"); sym_cover("end");
}
//@ time=200
HARNESS C26_edge() { edge(3.f, 1.f, 3); }
//@ time=200
HARNESS C26_edge_partial() { edge(2.5f, 1.f, 3); }
//@ time=200
HARNESS C26_edge_y() {
  SafeLandingPlanner p; grids(p, 3.f, 1.f); float py = sym_f32("py", -1000.f, 1000.f), y = sym_f32_any("y"); p.setPose(Eigen::Vector3f(5.f, py, 2.f), Eigen::Quaternionf(1.f, 0.f, 0.f, 0.f)); p.cloud_.push_back(pcl::PointXYZ(5.f, y, 1.5f)); p.processPointcloud(); sym_assert(p.grid_.getCounter().sum() == (((y > py - 1.5f) & (y < py + 1.5f)) ? 1 : 0), "a point is counted once inside the footprint and not outside"); sym_cover("end");
}
//@ time=60
HARNESS C26_invalid() {
  SafeLandingPlanner p; grids(p, 3.f, 1.f); p.setPose(Eigen::Vector3f(0.f, 0.f, 0.f), Eigen::Quaternionf(1.f, 0.f, 0.f, 0.f)); float x = sym_f32_any("x"), y = sym_f32_any("y"), z = sym_f32_any("z"); int k = sym_concretize(sym_i32("bad", 0, 2)); if (k == 0) sym_assume(x != x); if (k == 1) sym_assume(y != y); if (k == 2) sym_assume(z != z); p.cloud_.push_back(pcl::PointXYZ(x, y, z)); p.processPointcloud(); bool none = true; for (int i = 0; i < 9; i++) { Eigen::Vector2i c(i / 3, i % 3); none = none & (p.grid_.getCounter(c) == 0) & (p.grid_.getMean(c) == 0.f) & (p.grid_.getVariance(c) == 0.f); } sym_assert(none, "invalid points are ignored"); sym_cover("end");
}
static void cells(float size, float cell, int n, int lo, int hi) {
  SafeLandingPlanner p; grids(p, size, cell); float px = sym_f32("px", -100.f, 100.f), py = sym_f32("py", -100.f, 100.f); int i = sym_concretize(sym_i32("i", lo, hi)), j = sym_concretize(sym_i32("j", lo, hi)); float dx = sym_f32("dx", 1e-3f, cell - 1e-3f), dy = sym_f32("dy", 1e-3f, cell - 1e-3f); p.setPose(Eigen::Vector3f(px, py, 2.f), Eigen::Quaternionf(1.f, 0.f, 0.f, 0.f)); float x = px - size / 2.f + cell * i + dx, y = py - size / 2.f + cell * j + dy; p.cloud_.push_back(pcl::PointXYZ(x, y, 1.5f)); p.processPointcloud();
  bool in = i >= 0 && j >= 0 && i < n && j < n; sym_assert(p.grid_.getCounter().sum() == (in ? 1 : 0), "a point outside the footprint is ignored"); if (in) { Eigen::Vector2i c(i, j); sym_assert(p.grid_.getCounter(c) == 1, "a point is counted in the cell containing it"); sym_assert((p.grid_.getMean(c) == 1.5f) & (p.grid_.getVariance(c) == 0.f), "with its height"); Eigen::Vector2i q = p.computeGridIndexes(x, y); sym_assert((q.x() == i) & (q.y() == j), "and found there"); } sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C26_cells() { cells(4.f, 1.f, 4, -1, 4); }
//@ time=200 args=--reals
HARNESS C26_cells_fine() { cells(10.f, 0.25f, 40, 18, 21); }
//@ time=200 args=--reals
HARNESS C26_cells_fine_edge() { cells(10.f, 0.25f, 40, 38, 40); }
static void stats(int N) {
  SafeLandingPlanner p; grids(p, 3.f, 1.f); float px = 20.f, py = -8.f; p.setPose(Eigen::Vector3f(px, py, 2.f), Eigen::Quaternionf(1.f, 0.f, 0.f, 0.f)); float z[8]; int at[8]; static const int C[4][2] = {{0, 2}, {1, 1}, {2, 0}, {3, 1}}; float dx = sym_f32("dx", 1e-3f, 0.999f), dy = sym_f32("dy", 1e-3f, 0.999f);
  for (int k = 0; k < N; k++) { at[k] = sym_concretize(sym_i32(nam("cell", k), 0, 3)); z[k] = sym_f32(nam("z", k), -50.f, 50.f); p.cloud_.push_back(pcl::PointXYZ(px - 1.5f + C[at[k]][0] + dx, py - 1.5f + C[at[k]][1] + dy, z[k])); }
  p.grid_.mean_.fill(9.f); p.grid_.land_.fill(1); for (int i = 0; i < 9; i++) { Eigen::Vector2i c(i / 3, i % 3); p.grid_.setCounter(c, 7); p.grid_.setVariance(c, 3.f); p.previous_grid_.setCounter(c, 5); p.previous_grid_.setMean(c, 4.f); p.previous_grid_.setVariance(c, 2.f); } p.processPointcloud();
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { Eigen::Vector2i c(i, j); int n = 0; float m = 0.f; for (int k = 0; k < N; k++) if (C[at[k]][0] == i && C[at[k]][1] == j) { n++; m += z[k]; } sym_assert(p.grid_.getCounter(c) == n, "the number of points in the cell"); if (n) m /= n; float v = 0.f; for (int k = 0; k < N; k++) if (C[at[k]][0] == i && C[at[k]][1] == j) v += (z[k] - m) * (z[k] - m); if (n) v /= n;
    sym_assert(std::fabs(p.grid_.getMean(c) - m) < 1e-3f, "the mean of their heights"); sym_assert(std::fabs(p.grid_.getVariance(c) - v) < 1e-3f, "and the variance"); }
  sym_assert(p.previous_grid_.getMean().minCoeff() == 9.f && p.previous_grid_.getCounter().minCoeff() == 7, "the grid before is kept as the previous one"); sym_assert(p.visualization_cloud_.points.size() == p.grid_.getCounter().sum(), "the points used are shown"); sym_cover("end");
}
//@ time=300 args=--reals
HARNESS C26_stats() { stats(4); }
//@ time=600 args=--reals tier=thorough
HARNESS C26_stats_long() { stats(6); }
//@ time=300 args=--reals
HARNESS C26_online() {  // one more point, whatever the count so far
  SafeLandingPlanner p; int n = sym_concretize(sym_i32("n", 0, 12)); float z[13], m = 0.f, v = 0.f; for (int k = 0; k <= n; k++) z[k] = sym_f32(nam("z", k), -50.f, 50.f); float mo = 0.f, vo = 0.f; for (int k = 0; k < n; k++) mo += z[k]; if (n) mo /= n; for (int k = 0; k < n; k++) vo += (z[k] - mo) * (z[k] - mo); if (n) vo /= n; for (int k = 0; k <= n; k++) m += z[k]; m /= n + 1; for (int k = 0; k <= n; k++) v += (z[k] - m) * (z[k] - m); v /= n + 1;
  std::pair<float, float> r = p.computeOnlineMeanVariance(mo, vo, z[n], n + 1.f); sym_assert(std::fabs(r.first - m) < 1e-3f, "mean"); sym_assert(std::fabs(r.second - v) < 1e-2f, "variance"); sym_cover("end");
}
//@ time=120 args=--reals
HARNESS C26_run() {  // a whole pass: the new statistics are combined with the previous ones by the configured weight, and the footprint follows the vehicle
  SafeLandingPlanner p; grids(p, 3.f, 1.f); float a = sym_f32("alpha", 0.f, 1.f), z = sym_f32("z", -50.f, 50.f), old = sym_f32("old", -50.f, 50.f), ov = sym_f32("oldvar", 0.f, 50.f); p.alpha_ = a; Eigen::Vector2i c(1, 2); p.grid_.setMean(c, old); p.grid_.setVariance(c, ov); p.grid_.setCounter(c, 90); float px = sym_f32("px", -100.f, 100.f); p.setPose(Eigen::Vector3f(px, 0.f, 0.f), Eigen::Quaternionf(1.f, 0.f, 0.f, 0.f)); p.cloud_.push_back(pcl::PointXYZ(px, 1.f, z)); p.runSafeLandingPlanner();
  sym_assert((p.grid_.getCounter(c) == 1) & (p.grid_.getCounter().sum() == 1), "points of this pass"); sym_assert((std::fabs(p.grid_.getMean(c) - (a * old + (1.f - a) * z)) < 1e-3f) & (std::fabs(p.grid_.getVariance(c) - a * ov) < 1e-3f), "smoothed over time"); sym_assert((p.pos_index_.x() == 1) & (p.pos_index_.y() == 1), "the vehicle is in the middle"); sym_cover("end");
}
