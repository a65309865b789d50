//! src=avoidance/common.cpp
//# view yaw and azimuth [-180,180], pitch and elevation [-90,90], horizontal opening [0,350], vertical opening [0,180] degrees
//# exact agreement on a 1/8 degree grid (every operation is exact there), 1e-3 degree tolerance at the borders for every other float; up to 3 sensors (edge and scale: 2)
//# histogramIndexYawInsideFOV: every index, vehicle at the origin or one fixed position, any yaw and view
//# outside the claim: horizontal openings above 350 degrees, more than 3 sensors
#include "avoidance/common.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;
static double off(double a, double b) { double d = a - b; d -= 360. * std::floor(d / 360. + .5); return std::fabs(d); }
static float hMin = 0.f;
static FOV gridFov(const char* y, const char* h) { float yaw = sym_f32_grid(y, -180.f, 180.f, -3), hf = sym_f32_grid(h, hMin, 350.f, -2); return FOV(yaw, 0.f, hf, 30.f); }

//@ time=60
HARNESS C04_yaw_grid() {
  FOV f = gridFov("yaw", "h"); float z = sym_f32_grid("z", -180.f, 180.f, -3);
  bool in = pointInsideYawFOV(f, PolarPoint(0.f, z, 1.f));
  sym_assert(in == (off(z, f.yaw_deg) <= f.h_fov_deg / 2.), "inside the horizontal view iff the azimuth offset is within half the opening");
  sym_cover("end");
}
//@ time=60
HARNESS C04_yaw_any() {
  float yaw = sym_f32("yaw", -180.f, 180.f), h = sym_f32("h", 0.f, 350.f), z = sym_f32("z", -180.f, 180.f);
  bool in = pointInsideYawFOV(FOV(yaw, 0.f, h, 40.f), PolarPoint(0.f, z, 1.f));
  double o = off(z, yaw);
  if (o < h / 2. - 1e-3) sym_assert(in, "a direction within half the opening is inside");
  if (o > h / 2. + 1e-3) sym_assert(!in, "a direction beyond half the opening is outside");
  sym_cover("end");
}
//@ time=60
HARNESS C04_fov_grid() {
  FOV f = gridFov("yaw", "h"); f.pitch_deg = sym_f32_grid("pitch", -90.f, 90.f, -3); f.v_fov_deg = sym_f32_grid("v", 0.f, 180.f, -2);
  float z = sym_f32_grid("z", -180.f, 180.f, -3), e = sym_f32_grid("e", -90.f, 90.f, -3);
  bool in = pointInsideFOV(f, PolarPoint(e, z, 1.f));
  bool ref = off(z, f.yaw_deg) <= f.h_fov_deg / 2. && std::fabs((double)e - f.pitch_deg) <= f.v_fov_deg / 2.;
  sym_assert(in == ref, "inside the view iff both offsets are within half the opening");
  sym_cover("end");
}
//@ time=60
HARNESS C04_fov_any() {
  float yaw = sym_f32("yaw", -180.f, 180.f), h = sym_f32("h", 0.f, 350.f), z = sym_f32("z", -180.f, 180.f);
  float pitch = sym_f32("pitch", -90.f, 90.f), v = sym_f32("v", 0.f, 180.f), e = sym_f32("e", -90.f, 90.f);
  bool in = pointInsideFOV(FOV(yaw, pitch, h, v), PolarPoint(e, z, 1.f));
  double o = off(z, yaw), oe = std::fabs((double)e - pitch);
  if (o < h / 2. - 1e-3 && oe < v / 2. - 1e-3) sym_assert(in, "a direction within both half openings is inside");
  if (o > h / 2. + 1e-3 || oe > v / 2. + 1e-3) sym_assert(!in, "a direction beyond a half opening is outside");
  sym_cover("end");
}
static bool refIn(const FOV& f, float z) { return off(z, f.yaw_deg) <= f.h_fov_deg / 2.; }
//@ time=100
HARNESS C04_multi() {
  std::vector<FOV> v; int n = sym_concretize(sym_i32("n", 0, 3));
  static const char *ny[] = {"y0", "y1", "y2"}, *nh[] = {"h0", "h1", "h2"};
  for (int i = 0; i < n; i++) v.push_back(gridFov(ny[i], nh[i]));
  float z = sym_f32_grid("z", -180.f, 180.f, -3);
  PolarPoint p(0.f, z, 1.f);
  int idx = -7; bool one = isInWhichFOV(v, p, idx);
  int cnt = 0, which = -1; bool any3 = false;
  for (int i = 0; i < n; i++) { bool in = refIn(v[i], z); cnt += in; if (in) which = i; any3 = any3 || in; }
  sym_assert(one == (cnt == 1), "a containing view is reported iff exactly one view contains the direction");
  sym_assert(idx == (cnt == 1 ? which : -1), "the index is that of the containing view, -1 otherwise");
  sym_assert(pointInsideYawFOV(v, p) == any3 && pointInsideFOV(v, p) == any3, "inside a set of views iff inside any of them");
  sym_cover("end");
}
static void edge(bool scale) {
  std::vector<FOV> v; int n = sym_concretize(sym_i32("n", 1, 2));
  static const char *ny[] = {"y0", "y1", "y2"}, *nh[] = {"h0", "h1", "h2"};
  for (int i = 0; i < n; i++) v.push_back(gridFov(ny[i], nh[i]));
  float z = sym_f32_grid("z", -180.f, 180.f, -3);
  PolarPoint p(0.f, z, 1.f);
  int cnt = 0, which = 0; for (int i = 0; i < n; i++) { bool in = refIn(v[i], z); cnt += in; if (in) which = i; }
  which = sym_concretize(which);
  const FOV& f = v[which];
  double d = (double)z - f.yaw_deg; d -= 360. * std::floor(d / 360. + .5);
  double just = d > 0. ? f.yaw_deg + f.h_fov_deg / 2. + ALPHA_RES / 2. : f.yaw_deg - f.h_fov_deg / 2. - ALPHA_RES / 2.;
  bool beyond = false; for (int i = 0; i < n; i++) beyond = beyond || refIn(v[i], just);
  bool ref = cnt == 1 && !beyond;
  if (!scale) {
    int idx = -7; bool e = isOnEdgeOfFOV(v, p, idx);
    sym_assert(e == ref, "on the outer edge iff inside exactly one view with nothing visible beyond its border on that side");
    sym_assert(idx == (ref ? which : -1), "the index is that of the view, -1 otherwise");
  } else {
    float s = scaleToFOV(v, p);
    sym_assert(s >= -1e-6f && s <= 1.f, "scale in [0,1]");
    if (cnt == 0) sym_assert(s == 0.f, "scale 0 outside every view");
    if (cnt > 0 && !ref) sym_assert(s == 1.f, "scale 1 inside");
    if (ref) { double r = 1. - std::fabs(d) / (f.h_fov_deg / 2.); sym_assert(std::fabs(s - r) <= 1e-3, "scale falls linearly from 1 at the centre to 0 at the outer border"); }
  }
  sym_cover("end");
}
//@ time=200
HARNESS C04_edge() { edge(false); }
//@ time=200
HARNESS C04_scale() { hMin = 1.f; edge(true); }
#ifdef THOROUGH
static const int IDX = 1;
#else
static const int IDX = 12;
#endif
static void cells(const Eigen::Vector3f& pos, bool vec, bool turnVehicle) {
  int idx = IDX * sym_concretize(sym_i32("idx", 0, 59 / IDX));
  float yaw = 37.f, fy = -115.f, h = sym_f32("h", 1.f, 350.f);
  if (turnVehicle) yaw = sym_f32("vehicle_yaw", -180.f, 180.f); else fy = sym_f32("yaw", -180.f, 180.f);
  FOV f(fy, 0.f, h, 60.f);
  bool in = vec ? histogramIndexYawInsideFOV(std::vector<FOV>{f}, idx, pos, yaw) : histogramIndexYawInsideFOV(f, idx, pos, yaw);
  double az = 90. - (6. * idx + 3. - 180.) - yaw;
  double a = off(az + 3., fy) - h / 2., b = off(az - 3., fy) - h / 2.;
  if (a < -0.02 || b < -0.02) sym_assert(in, "cell with a border inside the view is inside");
  if (a > 0.02 && b > 0.02) sym_assert(!in, "cell outside the view is outside");
  sym_cover("end");
}
//@ time=100 ttime=800
HARNESS C04_cells_view() { cells(Eigen::Vector3f(0.f, 0.f, 0.f), false, false); }
//@ time=100 ttime=800
HARNESS C04_cells_vehicle() { cells(Eigen::Vector3f(0.f, 0.f, 0.f), false, true); }
//@ time=100 ttime=800
HARNESS C04_cells_vec_view() { cells(Eigen::Vector3f(3.7f, -2.1f, 1.5f), true, false); }
//@ time=100 ttime=800
HARNESS C04_cells_vec_vehicle() { cells(Eigen::Vector3f(3.7f, -2.1f, 1.5f), true, true); }
//@ time=60
HARNESS C04_cells_pitch() {  // elevation part of the cell test
  int idx = IDX * sym_concretize(sym_i32("idx", 0, 59 / IDX));
  float pitch = sym_f32("pitch", -90.f, 90.f), v = sym_f32("v", 1.f, 180.f);
  FOV f(0.f, pitch, 359.f, v);
  bool in = histogramIndexYawInsideFOV(f, idx, Eigen::Vector3f(1.f, 2.f, 3.f), 10.f);
  double el = std::fabs(3. + pitch) - v / 2.;   // centre of the first row above the horizon: elevation +3, that is -3 in the autopilot frame
  if (el < -0.02) sym_assert(in, "row inside the vertical view is inside");
  if (el > 0.02) sym_assert(!in, "row outside the vertical view is outside");
  sym_cover("end");
}
