//! src=lp/nodes/planner_functions.cpp,avoidance/common.cpp,avoidance/histogram.cpp
//# real-number arithmetic; vehicle anywhere within 100 m of the origin
//# histogram: clouds of 0..2 points at any distance 0.05..30 m in one of five directions (two in one cell, one just across the border of that cell, one opposite, one steeply below); 3 points (thorough 4) in one of four directions, their distances as computed by the conversion C03 checks
//# compression: every histogram cell of ten (thorough thirty) azimuths symbolic, free (0) or an obstacle 0.05..30 m away, other azimuths free; any vehicle altitude
#include "local_planner/planner_functions.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;
static const double AZ[5] = {31.0, 34.6, 36.4, -148.8, 75.3}, EL[5] = {7.1, 10.4, 7.2, -5.2, -61.1};
static const int CELL[5] = {0, 0, 1, 2, 3};
static int row(int d) { return (int)std::floor((EL[d] + 90.) / 6.); }
static int col(int d) { return (int)std::floor((AZ[d] + 180.) / 6.); }
static const char *NR[] = {"r0", "r1", "r2", "r3"}, *ND[] = {"d0", "d1", "d2", "d3"};
static void mean(int n, int dmax) {
  Eigen::Vector3f pos(sym_f32("px", -100.f, 100.f), sym_f32("py", -100.f, 100.f), sym_f32("pz", -100.f, 100.f));
  pcl::PointCloud<pcl::PointXYZI> c; double sum[4] = {0., 0., 0., 0.}; int cnt[4] = {0, 0, 0, 0};
  for (int i = 0; i < n; i++) {
    int d = sym_concretize(sym_i32(ND[i], 0, dmax)); float r = sym_f32(NR[i], 0.05f, 30.f); double e = EL[d] * M_PI / 180., a = AZ[d] * M_PI / 180.;
    pcl::PointXYZI p; p.x = pos.x() + (float)(std::cos(e) * std::sin(a)) * r; p.y = pos.y() + (float)(std::cos(e) * std::cos(a)) * r; p.z = pos.z() + (float)std::sin(e) * r; p.intensity = 1.f;
    c.push_back(p); sum[CELL[d]] += r; cnt[CELL[d]]++;
  }
  Histogram h(ALPHA_RES);
  generateNewHistogram(h, c, pos);
  static const int OF[4] = {0, 2, 3, 4};
  for (int e = 0; e < GRID_LENGTH_E; e++) for (int z = 0; z < GRID_LENGTH_Z; z++) {
    int k = -1; for (int q = 0; q < 4; q++) if (e == row(OF[q]) && z == col(OF[q])) k = q;
    if (k >= 0 && cnt[k] > 0) sym_assert(std::fabs(h.get_dist(e, z) - sum[k] / cnt[k]) < 1e-3, "a cell holds the mean distance of the points falling into it");
    else if (h.get_dist(e, z) != 0.f) sym_assert(false, "a cell no point falls into is zero");
  }
  sym_cover("end");
}
//@ time=120 args=--reals
HARNESS C16_mean1() { mean(sym_concretize(sym_i32("n", 0, 1)), 4); }
//@ time=120 args=--reals
HARNESS C16_mean2() { mean(2, 4); }
static void meanR(int n, int dmax) {  // more points: directions that are exact rational unit vectors, so that the distances stay simple
  static const float U[4][3] = {{0.48f, 0.6f, 0.64f}, {-0.36f, 0.48f, 0.8f}, {0.36f, -0.48f, -0.8f}, {-0.6f, -0.48f, -0.64f}};
  Eigen::Vector3f pos(3.f, -8.f, 2.5f);
  pcl::PointCloud<pcl::PointXYZI> c; double sum[4] = {0., 0., 0., 0.}; int cnt[4] = {0, 0, 0, 0}, rw[4], cl[4];
  for (int d = 0; d < 4; d++) { rw[d] = (int)std::floor((std::asin(U[d][2]) * 180. / M_PI + 90.) / 6. + 1e-9); cl[d] = (int)std::floor((std::atan2(U[d][0], U[d][1]) * 180. / M_PI + 180.) / 6.); }
  for (int i = 0; i < n; i++) {
    int d = sym_concretize(sym_i32(ND[i], 0, dmax)); float r = sym_f32(NR[i], 0.05f, 30.f);
    pcl::PointXYZI p; p.x = pos.x() + U[d][0] * r; p.y = pos.y() + U[d][1] * r; p.z = pos.z() + U[d][2] * r; p.intensity = 2.f;
    c.push_back(p); sum[d] += cartesianToPolarHistogram(Eigen::Vector3f(p.x, p.y, p.z), pos).r; cnt[d]++;
  }
  Histogram h(ALPHA_RES);
  generateNewHistogram(h, c, pos);
  for (int e = 0; e < GRID_LENGTH_E; e++) for (int z = 0; z < GRID_LENGTH_Z; z++) {
    int k = -1; for (int q = 0; q < 4; q++) if (e == rw[q] && z == cl[q]) k = q;
    if (k >= 0 && cnt[k] > 0) sym_assert(std::fabs(h.get_dist(e, z) - sum[k] / cnt[k]) < 1e-3, "a cell holds the mean distance of the points falling into it");
    else if (h.get_dist(e, z) != 0.f) sym_assert(false, "a cell no point falls into is zero");
  }
  sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C16_mean3() { meanR(3, 3); }
//@ time=800 args=--reals tier=thorough
HARNESS C16_mean4() { meanR(4, 3); }
static char nm[900][8];
static float dist(int k, int e) { char* s = nm[k * 30 + e]; s[0] = 'h'; s[1] = 'A' + k; s[2] = '0' + e / 10; s[3] = '0' + e % 10; return sym_f32(s, 0.f, 30.f); }
static void compress(int first, int cols, bool freeCells) {
  Eigen::Vector3f pos(0.f, 0.f, sym_f32("pz", -100.f, 100.f)); Histogram in(ALPHA_RES), out(ALPHA_RES);
  float v[30][30]; int at[30];
  for (int k = 0; k < cols; k++) { at[k] = (first + 13 * k) % 60; for (int e = 0; e < 30; e++) { v[k][e] = dist(k, e); if (!freeCells) sym_assume(v[k][e] >= 0.05f); else sym_assume((v[k][e] == 0.f) | (v[k][e] >= 0.05f)); in.set_dist(e, at[k], v[k][e]); } }
  compressHistogramElevation(out, in, pos);
  for (int z = 0; z < 60; z++) {
    int k = -1; for (int q = 0; q < cols; q++) if (at[q] == z) k = q;
    float o = out.get_dist(0, z);
    if (k < 0) { sym_assert(o == 0.f, "an azimuth without obstacles is free"); continue; }
    // near the vehicle's altitude: within 12 degrees of the horizontal and less than 1 m above or below
    bool any = false, none = true, is = false;
    for (int e = 13; e <= 16; e++) {
      double h = v[k][e] * std::fabs(std::sin((6. * e + 3. - 90.) * M_PI / 180.));
      any = any | ((v[k][e] > 0.f) & (h < 0.999)); none = none & ((v[k][e] == 0.f) | (h > 1.001)); is = is | ((o == v[k][e]) & (h < 1.001));
    }
    sym_assert(!any | (o > 0.f), "an obstacle near the vehicle's altitude is reported"); sym_assert(!none | (o == 0.f), "nothing is reported where no obstacle lies near the vehicle's altitude");
    sym_assert((o == 0.f) | is, "a reported distance is the distance of such an obstacle");
    bool nearest = true; for (int e = 13; e <= 16; e++) { double h = v[k][e] * std::fabs(std::sin((6. * e + 3. - 90.) * M_PI / 180.)); nearest = nearest & ((v[k][e] == 0.f) | (h > 0.999) | (o <= v[k][e])); }
    sym_assert(nearest, "the nearest such obstacle is reported");
  }
  for (int e = 1; e < 30; e++) for (int z = 0; z < 60; z++) if (out.get_dist(e, z) != 0.f) sym_assert(false, "only the first row is used");
  sym_cover("end");
}
#ifdef THOROUGH
static const int C = 30;
#else
static const int C = 10;
#endif
//@ time=120 args=--reals
HARNESS C16_compress() { compress(0, C, true); }
//@ time=120 args=--reals
HARNESS C16_compress_full() { compress(59, C, false); }
