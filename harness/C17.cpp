//! src=lp/nodes/planner_functions.cpp,avoidance/common.cpp,avoidance/histogram.cpp
//# candidates: matrices of up to 6 cells (thorough 8) in several shapes, any finite costs including ties, 0..8 requested candidates
//# smoothing and padding: matrices 3x6, 4x8 (thorough 6x12) with every entry symbolic, radius 0..3; kernel radius 0..15; real-number arithmetic
//# cost matrix: the full 30x60 matrix for 0, 1 or 2 obstacle cells at any distance in the histogram in each of 6 placements (near and across the azimuth border, next to the poles), smoothing margins 0, 12 and 40 degrees, fixed poses and weights; real-number arithmetic
//# outside the claim: other shapes
#include "local_planner/planner_functions.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;
static char nm[128][8];
static const char* name(char c, int i) { char* s = nm[i]; s[0] = c; s[1] = '0' + i / 100; s[2] = '0' + i / 10 % 10; s[3] = '0' + i % 10; return s; }
static void best(int rows, int cols, int kLo, int kHi) {
  int n = rows * cols; Eigen::MatrixXf m(rows, cols); float c[16];
  for (int i = 0; i < n; i++) { c[i] = sym_f32(name('c', i), -1e6f, 1e6f); m(i / cols, i % cols) = c[i]; }
  int k = sym_concretize(sym_i32("k", kLo, kHi));
  std::vector<candidateDirection> v; v.push_back(candidateDirection(1.f, 2.f, 3.f));
  getBestCandidatesFromCostMatrix(m, k, v);
  int want = k < n ? k : n;
  sym_assert((int)v.size() == want, "exactly the requested number of candidates, fewer only if the matrix is smaller");
  bool used[16] = {}; 
  for (size_t i = 0; i < v.size(); i++) {
    if (i) sym_assert(v[i - 1].cost <= v[i].cost, "candidates are in ascending order of cost");
    bool found = false;
    for (int q = 0; q < n; q++) {
      PolarPoint p = histogramIndexToPolar(q / cols, q % cols, ALPHA_RES, 1.f);
      if (v[i].elevation_angle == p.e && v[i].azimuth_angle == p.z) { sym_assert(!used[q], "no cell is handed out twice"); used[q] = true; found = true; sym_assert(v[i].cost == c[q], "a candidate carries its own cell's cost"); }
    }
    sym_assert(found, "a candidate points in the direction of a cell");
  }
  if (!v.empty() && (int)v.size() == want) for (int q = 0; q < n; q++) if (!used[q]) sym_assert(c[q] >= v.back().cost, "no cheaper cell is left out");
  sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C17_best_2x2() { sym_merge(0); best(2, 2, 0, 5); }
//@ time=200 args=--reals
HARNESS C17_best_1x5() { sym_merge(0); best(1, 5, 1, 3); }
//@ time=200 args=--reals
HARNESS C17_best_5x1() { sym_merge(0); best(5, 1, 4, 5); }
//@ time=200 args=--reals
HARNESS C17_best_2x3() { sym_merge(0); best(2, 3, 1, 2); }
//@ time=200 args=--reals
HARNESS C17_best_3x2() { sym_merge(0); best(3, 2, 3, 3); }
//@ tier=thorough time=800 args=--reals
HARNESS C17_best_3x2b() { sym_merge(0); best(3, 2, 4, 8); }
//@ tier=thorough time=800 args=--reals
HARNESS C17_best_2x4() { sym_merge(0); best(2, 4, 1, 3); }
// cell of the matrix that lies at row i, column j when rows continue across the poles and columns wrap around
static void wrapped(int R, int C, int i, int j, int& wi, int& wj) { wi = i; wj = j; if (i < 0) { wi = -1 - i; wj += C / 2; } if (i >= R) { wi = 2 * R - 1 - i; wj += C / 2; } wj = ((wj % C) + C) % C; }
static void fill(Eigen::MatrixXf& m, int R, int C, float hi) { m.resize(R, C); for (int i = 0; i < R * C; i++) m(i / C, i % C) = sym_f32(name('m', i), 0.f, hi); }
static void pad(int R, int C, int n) {
  Eigen::MatrixXf m, p; fill(m, R, C, 1e5f); padPolarMatrix(m, n, p);
  sym_assert(p.rows() == R + 2 * n && p.cols() == C + 2 * n, "padding adds the requested lines on every side");
  if (p.rows() == R + 2 * n && p.cols() == C + 2 * n) for (int i = -n; i < R + n; i++) for (int j = -n; j < C + n; j++) { int a, b; wrapped(R, C, i, j, a, b); sym_assert(p(i + n, j + n) == m(a, b), "padding continues the sphere: columns wrap, rows go over the pole"); }
}
//@ time=100
HARNESS C17_pad() { int n = sym_concretize(sym_i32("n", 0, 3)); pad(3, 6, n); pad(4, 8, n); sym_cover("end"); }
static void smooth(int R, int C, int rad) {
  Eigen::MatrixXf m; fill(m, R, C, 1e4f); Eigen::MatrixXf o = m; smoothPolarMatrix(m, rad);
  sym_assert(m.rows() == R && m.cols() == C, "smoothing keeps the size");
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) {
    double s = 0.; for (int a = -rad; a <= rad; a++) for (int b = -rad; b <= rad; b++) { int wi, wj; wrapped(R, C, i + a, j + b, wi, wj); s += (1. + rad - abs(a)) / (1. + rad) * (1. + rad - abs(b)) / (1. + rad) * o(wi, wj); }
    sym_assert(std::fabs(m(i, j) - s) < 0.5, "a smoothed value is the cone-weighted sum of its wrapped surroundings"); sym_assert(m(i, j) >= o(i, j) - 0.5f, "smoothing never lowers a cell below its own value");
  }
}
//@ time=200 args=--reals
HARNESS C17_smooth() { smooth(3, 6, sym_concretize(sym_i32("radius", 0, 2))); sym_cover("end"); }
//@ time=200 args=--reals
HARNESS C17_smooth2() { smooth(4, 8, sym_concretize(sym_i32("radius", 1, 3))); sym_cover("end"); }
//@ time=800 args=--reals tier=thorough
HARNESS C17_smooth3() { smooth(6, 12, sym_concretize(sym_i32("radius", 1, 5))); sym_cover("end"); }
//@ time=60
HARNESS C17_kernel() {
  int r = sym_concretize(sym_i32("radius", 0, 15)); Eigen::ArrayXf k = getConicKernel(r);
  sym_assert(k.rows() == 2 * r + 1, "kernel spans the radius on both sides");
  for (int i = 0; i < k.rows(); i++) sym_assert(std::fabs(k(i) - (1. + r - abs(i - r)) / (1. + r)) < 1e-5, "kernel falls linearly from one at its centre");
  sym_cover("end");
}
static void matrix(int where, float margin, int nObs) {
  static const int E[6][2] = {{15, 15}, {14, 20}, {15, 15}, {2, 0}, {28, 29}, {0, 16}}, Z[6][2] = {{31, 33}, {0, 59}, {29, 58}, {12, 40}, {6, 38}, {0, 30}};
  Eigen::Vector3f goal(8.f, 6.f, 4.f), pos(1.f, 2.f, 3.f), vel(0.5f, 1.f, 0.25f), line(7.f, 1.f, 4.f); costParameters cp;
  Histogram h(ALPHA_RES); float d[2] = {0.f, 0.f};
  for (int i = 0; i < nObs; i++) { d[i] = sym_f32(name('d', i), 0.25f, 14.f); h.set_dist(E[where][i], Z[where][i], d[i]); }
  float mn = 0.2f, mx = where == 0 || where == 3 ? 10.f : 15.f;
  Eigen::MatrixXf m; std::vector<uint8_t> img;
  // is an obstacle in front of the goal: within 2 rows and 5 columns of the goal's cell
  PolarPoint gp = cartesianToPolarHistogram(goal, pos); Eigen::Vector2i gi = polarToHistogramIndex(gp, ALPHA_RES); bool facing = false;
  for (int i = 0; i < nObs; i++) { int dz = abs(Z[where][i] - gi.x()); if (dz > 30) dz = 60 - dz; if (abs(E[where][i] - gi.y()) <= 2 && dz <= 5) facing = facing | ((d[i] > mn) & (d[i] < mx)); }
  getCostMatrix(h, goal, pos, vel, cp, margin, line, mx, mn, m, img);
  sym_assert(m.rows() == 30 && m.cols() == 60, "one cost per direction");
  int rad = (int)std::ceil(margin / ALPHA_RES);
  static double own[30][60], obs[30][60];
  for (int e = 0; e < 30; e++) {
    int step = (int)std::round(1. / std::cos((e * 6 + 3 - 90) * M_PI / 180.));
    std::vector<int> at; for (int z = 0; z < 60; z += step) at.push_back(z);
    for (int z : at) { std::pair<float, float> c = costFunction(histogramIndexToPolar(e, z, ALPHA_RES, 1.f), h.get_dist(e, z), goal, pos, vel, cp, line, facing); own[e][z] = c.second; obs[e][z] = c.first; }
    for (size_t k = 0; k < at.size(); k++) { int a = at[k], b = k + 1 < at.size() ? at[k + 1] : 60; for (int z = a + 1; z < b; z++) { double t = double(z - a) / (b - a); own[e][z] = own[e][a] * (1 - t) + own[e][b % 60] * t; obs[e][z] = obs[e][a] * (1 - t) + obs[e][b % 60] * t; } }
  }
  for (int e = 0; e < 30; e++) for (int z = 0; z < 60; z++) {
    double s = 0.; for (int a = -rad; a <= rad; a++) for (int b = -rad; b <= rad; b++) { int wi, wj; wrapped(30, 60, e + a, z + b, wi, wj); if (sym_is_native() || obs[wi][wj] != 0.) s += (1. + rad - abs(a)) / (1. + rad) * (1. + rad - abs(b)) / (1. + rad) * obs[wi][wj]; }
    double x = own[e][z] + s; if (x == x) sym_assert(std::fabs(m(e, z) - x) < 1., "a cost is the sum of the cell's direction costs and its smoothed obstacle cost");
    else sym_assert(false, "costs are numbers");
  }
  sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C17_matrix0() { matrix(0, 12.f, 2); }
//@ time=200 args=--reals
HARNESS C17_matrix1() { matrix(1, 40.f, 2); }
//@ time=200 args=--reals
HARNESS C17_matrix2() { matrix(2, 0.f, 2); }
//@ time=200 args=--reals
HARNESS C17_matrix3() { matrix(3, 12.f, 2); }
//@ time=200 args=--reals
HARNESS C17_matrix4() { matrix(4, 12.f, 2); }
//@ time=200 args=--reals
HARNESS C17_matrix5() { matrix(5, 12.f, 2); }
//@ time=200 args=--reals
HARNESS C17_matrix6() { matrix(0, 40.f, 0); }
