//! src=avoidance/common.cpp
//# clouds of 0..3 points (thorough 4), every float bit pattern per coordinate for the filter; extreme points: coordinates in [-9000,9000] m, any subset of the points invalid, 0..3 points (thorough 5)
//# field-of-view growth: 0..2 extreme points (thorough 6) in [-50,50] m, any previous field of view
//# outside the claim: larger clouds; coordinates beyond 9999 m as extremes (the code's sentinels)
#include "avoidance/common.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;
#ifdef THOROUGH
static const int NF = 4, NM = 5, NU = 6;
#else
static const int NF = 3, NM = 3, NU = 2;
#endif
static const char* NX[] = {"x0", "x1", "x2", "x3", "x4", "x5"}; static const char* NY[] = {"y0", "y1", "y2", "y3", "y4", "y5"}; static const char* NZ[] = {"z0", "z1", "z2", "z3", "z4", "z5"};
static const char* NV[] = {"v0", "v1", "v2", "v3", "v4", "v5"};
static bool same(const pcl::PointXYZ& a, const pcl::PointXYZ& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }

//@ time=120
HARNESS C05_filter() {
  int n = sym_concretize(sym_i32("n", 0, NF));
  pcl::PointCloud<pcl::PointXYZ> c; std::vector<pcl::PointXYZ> keep;
  for (int i = 0; i < n; i++) {
    pcl::PointXYZ p; p.x = sym_f32_any(NX[i]); p.y = sym_f32_any(NY[i]); p.z = sym_f32_any(NZ[i]);
    c.points.push_back(p); if (sym_fork(std::isfinite(p.x) & std::isfinite(p.y) & std::isfinite(p.z))) keep.push_back(p);
  }
  c.width = n; c.height = 1; c.is_dense = false; c.header.frame_id = "camera";
  removeNaNAndGetMaxima(c);
  sym_assert(c.points.size() == keep.size(), "exactly the points with three finite coordinates are kept");
  sym_assert(c.is_dense && c.width == keep.size() && c.height == 1, "the cloud is dense and its size fields match");
  for (size_t i = 0; i < keep.size() && i < c.points.size(); i++) sym_assert(same(c.points[i], keep[i]), "kept points are unmodified and in order");
  sym_cover("end");
}
//@ time=120
HARNESS C05_maxima() {
  int n = sym_concretize(sym_i32("n", 0, NM));
  pcl::PointCloud<pcl::PointXYZ> c; std::vector<pcl::PointXYZ> keep;
  for (int i = 0; i < n; i++) {
    bool v = sym_fork(sym_bool(NV[i]));
    pcl::PointXYZ p(sym_f32(NX[i], -9000.f, 9000.f), sym_f32(NY[i], -9000.f, 9000.f), sym_f32(NZ[i], -9000.f, 9000.f));
    if (v) keep.push_back(p); else p.y = NAN;
    c.points.push_back(p);
  }
  c.header.frame_id = "camera";
  sym_merge(1);
  pcl::PointCloud<pcl::PointXYZ> m = removeNaNAndGetMaxima(c);
  sym_assert(m.size() == (keep.empty() ? 0u : 6u), "six extreme points unless nothing remains");
  sym_assert(m.header.frame_id == "camera", "extremes are in the cloud's frame");
  if (m.size() == 6) for (int k = 0; k < 6; k++) {
    bool in = false, ext = true; const pcl::PointXYZ& q = m.points[k]; 
    for (auto& p : keep) { in = in | same(p, q); ext = ext & (k == 0 ? q.x >= p.x : k == 1 ? q.y >= p.y : k == 2 ? q.z >= p.z : k == 3 ? q.x <= p.x : k == 4 ? q.y <= p.y : q.z <= p.z); }
    sym_assert(in, "an extreme point is one of the remaining points");
    sym_assert(ext, "no remaining point lies further out along that axis");
  }
  sym_cover("end");
}
static void extremes(pcl::PointCloud<pcl::PointXYZ>& m, int n, float* a, float* e) {
  for (int i = 0; i < n; i++) {
    pcl::PointXYZ q(sym_f32(NX[i], -50.f, 50.f), sym_f32(NY[i], -50.f, 50.f), sym_f32(NZ[i], -50.f, 50.f));
    m.push_back(q); PolarPoint p = cartesianToPolarFCU(q); a[i] = p.z; e[i] = p.e;
  }
}
//@ time=120
HARNESS C05_fov_grows() {
  float yaw = sym_f32("yaw", -180.f, 180.f), pitch = sym_f32("pitch", -90.f, 90.f), h = sym_f32("h", 0.f, 360.f), v = sym_f32("v", 0.f, 180.f);
  FOV f(yaw, pitch, h, v);
  int n = sym_concretize(sym_i32("n", 0, NU));
  pcl::PointCloud<pcl::PointXYZ> m; float a[8], e[8]; extremes(m, n, a, e);
  if (n > 1) (void)sym_fork(a[0] < a[1]);
  updateFOVFromMaxima(f, m);
  sym_assert(f.h_fov_deg >= h && f.v_fov_deg >= v, "the field of view never shrinks");
  if (n == 0) sym_assert(f.h_fov_deg == h && f.v_fov_deg == v, "no points, no change");
  sym_assert(f.h_fov_deg <= 360.001f && f.v_fov_deg <= 180.001f, "the estimated opening stays valid");
  sym_cover("end");
}
//@ time=120
HARNESS C05_fov_centre() {
  float yaw = sym_f32("yaw", -180.f, 180.f), pitch = sym_f32("pitch", -90.f, 90.f), h = sym_f32("h", 0.f, 360.f), v = sym_f32("v", 0.f, 180.f);
  FOV f(yaw, pitch, h, v);
  pcl::PointCloud<pcl::PointXYZ> m; float a[8], e[8]; extremes(m, 2, a, e);
  updateFOVFromMaxima(f, m);
  sym_assert((f.h_fov_deg > h) | (f.yaw_deg == yaw), "the view centre only moves when the opening grows");
  sym_assert((f.v_fov_deg > v) | (f.pitch_deg == pitch), "the view elevation only moves when the opening grows");
  sym_cover("end");
}
//@ time=120
HARNESS C05_fov_pair_v() {  // two extreme points: the view opens by exactly their separation, around their middle
  FOV f(10.f, 0.f, 400.f, 0.f);
  pcl::PointCloud<pcl::PointXYZ> m; float a[2], e[2]; extremes(m, 2, a, e);
  (void)sym_fork(e[0] < e[1]);
  updateFOVFromMaxima(f, m);
  sym_assert(std::fabs(f.v_fov_deg - std::fabs((double)e[0] - e[1])) <= 1e-3, "vertical opening is the separation of the extremes");
  if (f.v_fov_deg > 0.f) sym_assert(std::fabs(f.pitch_deg - ((double)e[0] + e[1]) / 2.) <= 1e-3, "elevation of the view is the middle");
  sym_cover("end");
}
static void pairH(bool far) {
  FOV f(10.f, 0.f, 0.f, 200.f);
  pcl::PointCloud<pcl::PointXYZ> m; float a[2], e[2]; extremes(m, 2, a, e);
  if (!sym_fork(a[0] < a[1])) std::swap(a[0], a[1]);
  if (far) sym_assume(a[1] - a[0] > 181.f); else sym_assume(a[1] - a[0] < 179.f);
  updateFOVFromMaxima(f, m);
  double d = (double)a[1] - a[0], mid = ((double)a[0] + a[1]) / 2.;
  if (!far) {
    sym_assert(std::fabs(f.h_fov_deg - d) <= 1e-3, "horizontal opening is the separation of the extremes");
    double g = std::fabs(f.yaw_deg - mid); sym_assert((d <= 1e-3) | (g <= 2e-3) | (std::fabs(g - 360.) <= 2e-3), "azimuth of the view is the middle");
  } else {
    sym_assert(std::fabs(f.h_fov_deg - (360. - d)) <= 1e-3, "horizontal opening is the separation of the extremes across the +-180 direction");
    if (sym_fork(mid > 0.)) sym_assert((std::fabs(f.yaw_deg - mid + 180.) <= 2e-3) | (mid <= 1e-3), "azimuth of the view is the middle across the +-180 direction");
    else sym_assert((std::fabs(f.yaw_deg - mid - 180.) <= 2e-3) | (mid >= -1e-3), "azimuth of the view is the middle across the +-180 direction");
  }
  sym_cover("end");
}
//@ time=120
HARNESS C05_fov_pair() { pairH(false); }
//@ time=120
HARNESS C05_fov_pair_across() { pairH(true); }
