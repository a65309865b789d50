//! src=avoidance/common.cpp
//# angles in [-4000,4000] degrees / [-70,70] rad, any float; tolerance 1e-3 deg / 2e-5 rad (float rounding at that magnitude)
//# outside the claim: angles beyond those magnitudes, non-finite angles
#include "avoidance/common.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;

static void check180(float x, float r, double tol) {
  sym_assert(r >= -180.f - tol && r <= 180.f + tol, "normalised angle lies in [-180,180)");
  double d = ((double)x - (double)r) / 360.0; double k = std::floor(d + 0.5);
  sym_assert(std::fabs((double)x - (double)r - 360.0 * k) <= tol, "normalised angle is congruent to the input modulo 360");
}
//@ time=60
HARNESS C01_wrap180() {
  float x = sym_f32("angle", -4000.f, 4000.f);
  float r = wrapAngleToPlusMinus180(x);
  check180(x, r, 1e-3);
  if (x > 180.f) sym_cover("above"); if (x < -180.f) sym_cover("below");
}
//@ time=60
HARNESS C01_wrap180_interior() {  // already normalised angles are unchanged
  float x = sym_f32("angle", -179.999f, 179.999f);
  float r = wrapAngleToPlusMinus180(x);
  sym_assert(r == x, "a normalised angle is returned unchanged");
  sym_assert(wrapAngleToPlusMinus180(-180.f) == -180.f && wrapAngleToPlusMinusPI(0.f) == 0.f, "closed end");
  sym_assert(wrapAngleToPlusMinus180(180.f) == -180.f, "half open: 180 becomes -180");
  sym_cover("end");
}
//@ time=60
HARNESS C01_wrapPi() {
  float x = sym_f32("angle", -70.f, 70.f);
  float r = wrapAngleToPlusMinusPI(x);
  double tol = 4e-5;
  sym_assert(r >= -M_PI - tol && r <= M_PI + tol, "normalised angle lies in [-pi,pi)");
  double k = std::floor(((double)x - (double)r) / (2 * M_PI) + 0.5);
  sym_assert(std::fabs((double)x - (double)r - 2 * M_PI * k) <= tol, "normalised angle is congruent to the input modulo 2 pi");
  sym_cover("end");
}
//@ time=60
HARNESS C01_difference() {
  float a = sym_f32("a", -720.f, 720.f), b = sym_f32("b", -720.f, 720.f);
  float r = angleDifference(a, b);
  check180(a - b, r, 1e-3);
  sym_cover("end");
}
//@ time=60
HARNESS C01_indexdiff() {
  float a = sym_f32("a", 0.f, 360.f), b = sym_f32("b", 0.f, 360.f);
  float r = indexAngleDifference(a, b);
  double d = std::fabs((double)a - b); if (d > 180.0) d = 360.0 - d;
  sym_assert(std::fabs(r - d) <= 1e-3, "distance between two histogram angles is the shorter arc");
  sym_cover("end");
}
//@ time=60
HARNESS C01_wrapPolar() {
  float e = sym_f32("e", -720.f, 720.f), z = sym_f32("z", -720.f, 720.f);
  PolarPoint p(e, z, 3.f); wrapPolar(p);
  sym_assert(p.r == 3.f, "radius untouched");
  sym_assert(p.e >= -90.001f && p.e <= 90.001f, "elevation in [-90,90]");
  sym_assert(p.z >= -180.001f && p.z <= 180.001f, "azimuth in [-180,180)");
  // same direction: either (e,z) congruent, or e mirrored at the pole and z turned by 180
  float we = wrapAngleToPlusMinus180(e);
  if (we <= 90.f && we >= -90.f) { check180(e, p.e, 1e-3); check180(z, p.z, 1e-3); sym_cover("regular"); }
  else { check180(180.f - e, p.e, 1e-3); check180(z + 180.f, p.z, 1e-3); sym_cover("over the pole"); }
}
//@ time=60
HARNESS C01_halfopen() {  // on a 1/64 degree grid nothing is rounded away: the range is exactly [-180,180)
  float x = sym_f32_grid("angle", -1100.f, 1100.f, -6);
  float r = wrapAngleToPlusMinus180(x);
  sym_assert(r >= -180.f && r < 180.f, "normalised angle is in the half-open range");
  sym_cover("end");
}
//@ time=60
HARNESS C01_difference_halfopen() {
  float a = sym_f32_grid("a", -720.f, 720.f, -6), b = sym_f32_grid("b", -720.f, 720.f, -6);
  float r = angleDifference(a, b);
  sym_assert(r >= -180.f && r < 180.f, "difference is in the half-open range");
  sym_cover("end");
}
//@ time=60
HARNESS C01_wrapPolar_halfopen() {
  float e = sym_f32_grid("e", -720.f, 720.f, -6), z = sym_f32_grid("z", -720.f, 720.f, -6);
  PolarPoint p(e, z, 3.f); wrapPolar(p);
  sym_assert((p.z >= -180.f) & (p.z < 180.f), "azimuth is in the half-open range");
  sym_assert((p.e >= -90.f) & (p.e <= 90.f), "elevation is in [-90,90]");
  sym_cover("end");
}
