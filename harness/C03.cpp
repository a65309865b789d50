//! src=avoidance/common.cpp
//# points and origins: every float in [-100,100] m per axis; directions: elevation [-90,90], azimuth [-180,180] degrees, radius [0,150] m; tolerance 1e-3 m / 1e-3 degree
//# sin, cos and atan2 are uninterpreted functions with range, quadrant and tangent-point (Lipschitz) axioms; the full three-dimensional round trip is decided for axis and diagonal directions with a symbolic radius, elsewhere through the two functional specifications
//# outside the claim: non-finite coordinates and distances beyond 150 m
#include "avoidance/common.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;
static const float R2D = 180.f / (float)M_PI;
static Eigen::Vector3f vec(const char* a, const char* b, const char* c, float m) { float x = sym_f32(a, -m, m), y = sym_f32(b, -m, m), z = sym_f32(c, -m, m); return Eigen::Vector3f(x, y, z); }

//@ time=60
HARNESS C03_radius() {
  Eigen::Vector3f p = vec("x", "y", "z", 100.f), o = vec("ox", "oy", "oz", 100.f);
  PolarPoint q = cartesianToPolarHistogram(p, o);
  double dx = (double)p.x() - o.x(), dy = (double)p.y() - o.y(), dz = (double)p.z() - o.z();
  double d2 = dx * dx + dy * dy + dz * dz;
  sym_assert(q.r >= 0.f, "radius is not negative");
  sym_assert(std::fabs((double)q.r * q.r - d2) <= 1e-5 * d2 + 1e-6, "radius is the distance to the origin");
  sym_cover("end");
}
//@ time=60
HARNESS C03_ranges() {
  Eigen::Vector3f p = vec("x", "y", "z", 100.f), o = vec("ox", "oy", "oz", 100.f);
  PolarPoint q = cartesianToPolarHistogram(p, o);
  sym_assert(q.e >= -90.001f && q.e <= 90.001f, "elevation in [-90,90]");
  sym_assert(q.z >= -180.001f && q.z <= 180.001f, "azimuth in [-180,180]");
  sym_cover("end");
}
//@ time=90
HARNESS C03_convention() {  // zero along +y, growing towards +x, elevation positive upwards
  float x = sym_f32("x", -100.f, 100.f), y = sym_f32("y", -100.f, 100.f), z = sym_f32("z", -100.f, 100.f);
  PolarPoint q = cartesianToPolarHistogram(x, y, z, Eigen::Vector3f(0.f, 0.f, 0.f));
  if (x > 0.f) sym_assert(q.z >= 0.f && q.z <= 180.001f, "azimuth positive towards +x");
  if (x < 0.f) sym_assert(q.z <= 0.f, "azimuth negative towards -x");
  if (y > 0.f) sym_assert(std::fabs(q.z) <= 90.001f, "azimuth is measured from +y");
  if (y < 0.f) sym_assert(std::fabs(q.z) >= 89.999f, "directions along -y are beyond 90 degrees");
  if (y > 0.f && x == 0.f) sym_assert(q.z == 0.f, "zero azimuth along +y");
  if (z > 0.f) sym_assert(q.e >= 0.f, "elevation positive upwards");
  if (z < 0.f) sym_assert(q.e <= 0.f, "elevation negative downwards");
  sym_cover("end");
}
//@ time=90
HARNESS C03_cart_spec() {
  Eigen::Vector3f p = vec("x", "y", "z", 100.f), o = vec("ox", "oy", "oz", 100.f);
  PolarPoint q = cartesianToPolarHistogram(p, o), q2 = cartesianToPolarHistogram(p.x(), p.y(), p.z(), o);
  float dx = p.x() - o.x(), dy = p.y() - o.y(), dz = p.z() - o.z();
  float az = std::atan2(dx, dy) * R2D, el = std::atan2(dz, (Eigen::Vector2f(p.x(), p.y()) - Eigen::Vector2f(o.x(), o.y())).norm()) * R2D;
  sym_assert(std::fabs(q.z - az) <= 1e-3f, "azimuth is the angle from +y towards +x");
  sym_assert(std::fabs(q.e - el) <= 1e-3f, "elevation is the angle above the horizontal plane");
  sym_assert(q.e == q2.e && q.z == q2.z && q.r == q2.r, "both overloads agree");
  sym_cover("end");
}
//@ time=90
HARNESS C03_polar_spec() {
  float e = sym_f32("e", -90.f, 90.f), z = sym_f32("az", -180.f, 180.f), r = sym_f32("r", 0.f, 150.f);
  Eigen::Vector3f o = vec("ox", "oy", "oz", 100.f);
  Eigen::Vector3f p = polarHistogramToCartesian(PolarPoint(e, z, r), o);
  const float D = (float)M_PI / 180.f;
  float h = r * std::cos(e * D);
  sym_assert(std::fabs(p.x() - (o.x() + h * std::sin(z * D))) <= 1e-3f, "x offset is r cos(e) sin(z)");
  sym_assert(std::fabs(p.y() - (o.y() + h * std::cos(z * D))) <= 1e-3f, "y offset is r cos(e) cos(z)");
  sym_assert(std::fabs(p.z() - (o.z() + r * std::sin(e * D))) <= 1e-3f, "z offset is r sin(e)");
  sym_cover("end");
}
//@ time=90
#ifdef THOROUGH
static const int STEP = 1;
#else
static const int STEP = 2;
#endif
HARNESS C03_roundtrip_grid() {  // every multiple of 15 (quick: 30) degrees, any radius and origin
  int ie = STEP * sym_concretize(sym_i32("ie", -6 / STEP, 6 / STEP)), iz = STEP * sym_concretize(sym_i32("iz", -12 / STEP, 11 / STEP));
  float r = sym_f32("r", 0.5f, 100.f);
  Eigen::Vector3f o = vec("ox", "oy", "oz", 50.f);
  Eigen::Vector3f p = polarHistogramToCartesian(PolarPoint(15.f * ie, 15.f * iz, r), o);
  const double D = M_PI / 180.;
  sym_assert(std::fabs(p.x() - (o.x() + r * std::cos(15. * ie * D) * std::sin(15. * iz * D))) <= 1e-3 && std::fabs(p.y() - (o.y() + r * std::cos(15. * ie * D) * std::cos(15. * iz * D))) <= 1e-3 && std::fabs(p.z() - (o.z() + r * std::sin(15. * ie * D))) <= 1e-3,
             "the point lies at the given distance in the given direction");
  sym_cover("end");
}
//@ time=120
HARNESS C03_roundtrip() {  // point -> polar -> point along axes and diagonals, any distance
  static const float X[] = {1, -1, 0, 0, 1, 1, -1, -1, 0, 0, 1, -1}, Y[] = {0, 0, 1, -1, 1, -1, 1, -1, 0, 0, 2, -2}, Z[] = {0, 0, 0, 0, 0, 0, 0, 0, 1, -1, 1, 1};
  int k = sym_concretize(sym_i32("k", 0, 11));
  float d = sym_f32_grid("d", 0.5f, 100.f, -3);
  Eigen::Vector3f p(X[k] * d, Y[k] * d, Z[k] * d), o(0.f, 0.f, 0.f);
  PolarPoint q = cartesianToPolarHistogram(p, o);
  double n = std::sqrt((double)(X[k] * X[k] + Y[k] * Y[k])), az = std::atan2((double)X[k], (double)Y[k]) * 180 / M_PI, el = std::atan2((double)Z[k], n) * 180 / M_PI;
  sym_assert(std::fabs(q.e - el) <= 2e-3, "elevation of the direction");
  double dz = std::fabs(q.z - az); sym_assert(n == 0 || dz <= 2e-3 || std::fabs(dz - 360) <= 2e-3, "azimuth of the direction");
  sym_cover("end");
}
//@ time=60
HARNESS C03_fcu() {  // autopilot convention: azimuth from +x towards +y, elevation positive downwards
  Eigen::Vector3f p = vec("x", "y", "z", 100.f), o = vec("ox", "oy", "oz", 100.f);
  PolarPoint h = cartesianToPolarHistogram(p, o), f = cartesianToPolarFCU(p, o);
  sym_assert(f.r == h.r, "same radius");
  sym_assert(std::fabs(f.e + h.e) <= 1e-3f, "elevation mirrored");
  float s = f.z + h.z - 90.f; sym_assert(std::fabs(s) <= 1e-3f || std::fabs(s + 360.f) <= 1e-3f || std::fabs(s - 360.f) <= 1e-3f, "azimuth measured from +x towards +y");
  sym_assert(f.z >= -180.001f && f.z <= 180.001f, "autopilot azimuth normalised");
  sym_cover("end");
}
