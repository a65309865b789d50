//! src=lp/nodes/planner_functions.cpp,avoidance/common.cpp,avoidance/histogram.cpp
//# real-number arithmetic, distances within 1 mm of a range limit not checked; vehicle anywhere within 100 m of the origin, any vehicle yaw and pitch up to 28 degrees; sensor limits 0.1 <= min <= 1, 3 <= max <= 20 m, maximum age 1..20 s, elapsed 0..5 s, 1 to 3 points needed per cell
//# points at any distance 0.05..30 m from the vehicle (or with a not-a-number or infinite coordinate) in one of five directions: two in one fine (2 degree) cell, one in the neighbouring fine cell of the same coarse cell, one opposite, one steeply below
//# up to 2 new clouds with 3 points together and up to 2 memory points (3 in thorough); any age 0..30 s; one sensor view with any centre and opening (directions within 0.05 degree of its border are not checked)
#include "local_planner/planner_functions.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;
static const double AZ[5] = {31.0, 31.6, 32.9, -148.8, 75.3}, EL[5] = {7.1, 7.4, 7.2, -5.2, -61.1};   // azimuth clockwise from +y, elevation
static const int CELL[5] = {0, 0, 1, 2, 3};
static double off(double a, double b) { double d = a - b; d -= 360. * std::floor(d / 360. + .5); return std::fabs(d); }
static const char *NR[] = {"r0", "r1", "r2", "r3"}, *ND[] = {"d0", "d1", "d2", "d3"}, *NB[] = {"bad0", "bad1", "bad2", "bad3"}, *NA[] = {"a0", "a1", "a2", "a3"};
static const char *MR[] = {"mr0", "mr1", "mr2", "mr3"}, *MD[] = {"md0", "md1", "md2", "md3"};
static Eigen::Vector3f POS;
static void place(float& x, float& y, float& z, int d, float r) {
  double e = EL[d] * M_PI / 180., a = AZ[d] * M_PI / 180.;
  x = POS.x() + (float)(std::cos(e) * std::sin(a)) * r; y = POS.y() + (float)(std::cos(e) * std::cos(a)) * r; z = POS.z() + (float)std::sin(e) * r;
}
struct Env { float mn, mx, age, el; int need; };
static Env env(int need) {
  POS = Eigen::Vector3f(sym_f32("px", -100.f, 100.f), sym_f32("py", -100.f, 100.f), sym_f32("pz", -100.f, 100.f));
  return Env{sym_f32("min", 0.1f, 1.f), sym_f32("max", 3.f, 20.f), sym_f32("max_age", 1.f, 20.f), sym_f32("elapsed", 0.f, 5.f), need};
}
static bool eq(const pcl::PointXYZI& a, float x, float y, float z) { return (a.x == x) & (a.y == y) & (a.z == z); }
static void clear(float r, float lim) { sym_assume(std::fabs(r - lim) > 1e-3f); }
struct Exp { float x, y, z, i; };
static void run(Env& v, int nn, int no, bool bad, int dmax) {
  std::vector<pcl::PointCloud<pcl::PointXYZ>> clouds(2); clouds[0].header.frame_id = "local_origin"; clouds[0].header.stamp = 77; clouds[1].header.frame_id = "other";
  std::vector<Exp> want; int cnt[4] = {0, 0, 0, 0};
  for (int i = 0; i < nn; i++) {
    pcl::PointXYZ p; int d = sym_concretize(sym_i32(ND[i], 0, dmax)); float r = sym_f32(NR[i], 0.05f, 30.f); clear(r, v.mn); clear(r, v.mx); place(p.x, p.y, p.z, d, r);
    int b = bad ? sym_concretize(sym_i32(NB[i], 0, 3)) : 0; if (b == 1) p.x = NAN; if (b == 2) p.y = INFINITY; if (b == 3) p.z = NAN;
    clouds[i >= 1 ? 1 : 0].push_back(p);
    if (b == 0 && sym_fork((r > v.mn) & (r < v.mx)) && ++cnt[CELL[d]] == v.need) want.push_back(Exp{p.x, p.y, p.z, 0.f});
  }
  pcl::PointCloud<pcl::PointXYZI> c; c.header.frame_id = "old";
  for (int i = 0; i < no; i++) {
    pcl::PointXYZI p; int d = sym_concretize(sym_i32(MD[i], 0, dmax)); float r = sym_f32(MR[i], 0.05f, 30.f); clear(r, v.mx); place(p.x, p.y, p.z, d, r);
    p.intensity = sym_f32(NA[i], 0.f, 30.f); c.push_back(p);
    if (sym_fork((r > v.mx) | (r == v.mx))) continue;
    if (cnt[CELL[d]] >= v.need || !sym_fork(p.intensity < v.age)) continue;
    cnt[CELL[d]] = v.need; want.push_back(Exp{p.x, p.y, p.z, p.intensity + v.el});
  }
  processPointcloud(c, clouds, std::vector<FOV>(), 0.f, 0.f, POS, v.mn, v.mx, v.age, v.el, v.need);
  sym_assert(c.points.size() == want.size(), "the planning cloud holds exactly one point per sufficiently populated direction and the memory points that may be kept");
  sym_assert(c.width == c.points.size() && c.height == 1 && c.header.frame_id == "local_origin" && c.header.stamp == 77, "size fields and header match");
  for (size_t i = 0; i < want.size() && i < c.points.size(); i++) {
    sym_assert(eq(c.points[i], want[i].x, want[i].y, want[i].z), "points are taken unmodified");
    sym_assert(c.points[i].intensity == want[i].i, "new points have age zero, memory points age by the elapsed time");
  }
  sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C15_new1() { Env v = env(sym_concretize(sym_i32("need", 1, 2))); run(v, 1, 0, true, 4); }
//@ time=200 args=--reals
HARNESS C15_new3_need1() { Env v = env(1); run(v, 3, 0, false, 2); }
//@ time=200 args=--reals
HARNESS C15_new3_need2() { Env v = env(2); run(v, 3, 0, false, 2); }
//@ time=200 args=--reals
HARNESS C15_new3_need3() { Env v = env(3); run(v, 3, 0, false, 2); }
static void view(int d, bool vert) {  // a memory point is dropped when the new data covers its direction
  Env v = env(1); std::vector<pcl::PointCloud<pcl::PointXYZ>> clouds(1); pcl::PointCloud<pcl::PointXYZI> c; pcl::PointXYZI p;
  POS = Eigen::Vector3f(12.f, -5.f, 7.f);
  float r = sym_f32("r", 0.05f, 30.f); place(p.x, p.y, p.z, d, r); p.intensity = sym_f32("age", 0.f, 30.f); c.push_back(p); clear(r, v.mx);
  float yaw = vert ? 20.f : sym_f32("yaw", -180.f, 180.f), pitch = vert ? sym_f32("pitch", -28.f, 28.f) : 0.f;
  FOV f = vert ? FOV(90.f - AZ[d] - yaw, sym_f32("fp", -60.f, 60.f), 30.f, sym_f32("fv", 0.f, 180.f)) : FOV(sym_f32("fy", -180.f, 180.f), 0.f, sym_f32("fh", 0.f, 350.f), 170.f);
  f.yaw_deg = wrapAngleToPlusMinus180(f.yaw_deg);
  std::vector<FOV> fov; if (sym_fork(sym_bool("second"))) fov.push_back(FOV(wrapAngleToPlusMinus180(90.f - AZ[d] - 20.f + 100.f), 0.f, vert ? 20.f : 0.f, vert ? 100.f : 0.f)); fov.push_back(f);
  processPointcloud(c, clouds, fov, yaw, pitch, POS, v.mn, v.mx, v.age, v.el, 1);
  double a = off(90. - AZ[d] - yaw, f.yaw_deg) - f.h_fov_deg / 2., e = std::fabs(-EL[d] - pitch - f.pitch_deg) - f.v_fov_deg / 2.;
  bool keep = (r < v.mx) & (p.intensity < v.age), kept = c.points.size() == 1;
  sym_assert(!kept | keep, "only memory points in range and young enough are kept");
  sym_assert(!kept | (a > -0.05) | (e > -0.05), "a memory point the new data covers is dropped");
  sym_assert(kept | !keep | ((a < 0.05) & (e < 0.05)), "a memory point outside every view is kept");
  if (kept) sym_assert(eq(c.points[0], p.x, p.y, p.z) & (c.points[0].intensity == p.intensity + v.el), "a kept memory point is unmodified and ages by the elapsed time");
  sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C15_view0() { view(0, false); }
//@ time=200 args=--reals
HARNESS C15_view1() { view(3, false); }
//@ time=200 args=--reals
HARNESS C15_view2() { view(2, true); }
//@ time=200 args=--reals
HARNESS C15_view3() { view(4, true); }
//@ time=200 args=--reals
HARNESS C15_memory2() { Env v = env(1); run(v, 0, 2, false, 3); }
//@ time=200 args=--reals
HARNESS C15_both_need1() { Env v = env(1); run(v, 1, 1, false, 3); }
//@ time=200 args=--reals
HARNESS C15_both_need2() { Env v = env(2); run(v, 2, 1, false, 2); }
//@ time=200 args=--reals
HARNESS C15_memory2_need2() { Env v = env(2); run(v, 0, 2, false, 2); }
//@ time=200 args=--reals
HARNESS C15_memory2_need3() { Env v = env(3); run(v, 1, 2, false, 1); }
