//! src=slp/nodes/safe_landing_planner.cpp,avoidance/common.cpp
//# 4 x 4 cells with any counts, standard deviations and mean heights, any thresholds; smoothing off, 1 or 2 (a 3 x 3 or 5 x 5 neighbourhood); each cell in turn
//# real-number arithmetic; heights are decided up to rounding
#include "safe_landing_planner/safe_landing_planner.hpp"
#include "sym.h"
#include <cmath>
using namespace avoidance;
static char nm[256][12];
static const char* nam(const char* b, int k) { static int c = 0; char* s = nm[c++ % 256]; int i = 0; while (b[i]) { s[i] = b[i]; i++; } if (k > 9) s[i++] = '0' + k / 10; s[i++] = '0' + k % 10; s[i] = 0; return s; }
static void decide(int n, int S, bool same) {
  SafeLandingPlanner p; p.grid_.resize(n, 1.f); p.grid_.setFilterLimits(Eigen::Vector3f(0.f, 0.f, 0.f)); p.position_ = Eigen::Vector3f(0.f, 0.f, 0.f); p.n_lines_padding_ = S; p.smoothing_size_ = S; p.n_points_thr_ = sym_i32("n_points", 0, 5000); p.std_dev_thr_ = sym_f32("std_dev", 0.f, 1.f); p.mean_diff_thr_ = sym_f32("mean_diff", 0.f, 1.f); p.max_n_mean_diff_cells_ = sym_i32("max_diff", 0, 100); p.min_n_land_cells_ = sym_i32("min_land", 0, 100);
  float m[25]; bool good[25]; for (int i = 0; i < n * n; i++) { Eigen::Vector2i x(i / n, i % n); int c = sym_i32(nam("c", i), 0, 6000); float sd = sym_f32(nam("s", i), 0.f, 2.f); m[i] = same ? 5.f : sym_f32(nam("m", i), -50.f, 50.f); p.grid_.setCounter(x, c); float v = sd * sd; p.grid_.setVariance(x, v); p.grid_.setMean(x, m[i]); p.grid_.land_(i / n, i % n) = sym_i32(nam("old", i), 0, 1); sym_assume((sd > p.std_dev_thr_ + 1e-3f) | (sd < p.std_dev_thr_ - 1e-3f)); good[i] = ((float)c >= p.n_points_thr_) & (sd <= p.std_dev_thr_); }
  p.isLandingPossible();
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    bool want = good[n * i + j]; if (S > 0) { int land = 0, diff = 0; for (int k = -S; k <= S; k++) for (int t = -S; t <= S; t++) { bool in = i + k >= 0 && i + k < n && j + t >= 0 && j + t < n; if (in) land += good[n * (i + k) + j + t]; float h = in ? m[n * (i + k) + j + t] : 0.f; diff += std::fabs(m[n * i + j] - h) > p.mean_diff_thr_; } want = (land > p.min_n_land_cells_) & (diff <= p.max_n_mean_diff_cells_); }
    sym_assert(p.grid_.land_(i, j) == (want ? 1 : 0), "landable exactly when enough of the neighbourhood is dense and flat and at the cell's height"); for (int q = 0; q < 1; q++) sym_assert(p.grid_.getMean(Eigen::Vector2i(i, j)) == m[n * i + j], "deciding changes no statistics");
  }
  sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C27_single() { sym_merge(2); decide(3, sym_concretize(sym_i32("off", -1, 0)), false); }
//@ time=300 args=--reals
HARNESS C27_neighbourhood() { sym_merge(2); decide(3, 1, false); }
//@ time=300 args=--reals
HARNESS C27_density() { sym_merge(2); decide(4, 1, true); }
//@ time=300 args=--reals
HARNESS C27_wide() { sym_merge(2); decide(3, 2, false); }
