//! src=avoidance/common.cpp
//# polarToHistogramIndex: every float bit pattern (NaN, infinities, huge angles) for elevation and azimuth; containment: every float in [-90,90) x [-180,180), tolerance 1e-3 degree at cell borders
//# resolutions 1,2,3,5,6,10,12,30 (quick: all of them for the round trip; 3, 6 and 12 for containment)
#include "avoidance/common.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;
static void inRange(int res) {
  PolarPoint p(sym_f32_any("e"), sym_f32_any("z"), sym_f32_any("r"));
  Eigen::Vector2i i = polarToHistogramIndex(p, res);
  sym_assert(i.x() >= 0 && i.x() < 360 / res, "azimuth index inside the histogram");
  sym_assert(i.y() >= 0 && i.y() < 180 / res, "elevation index inside the histogram");
  sym_cover("end");
}
HARNESS C02_any_res6() { inRange(6); }
HARNESS C02_any_res12() { inRange(12); }
HARNESS C02_any_res3() { inRange(3); }
HARNESS C02_any_res1() { inRange(1); }
static void contain(int res) {
  float e = sym_f32("e", -90.f, 89.999f), z = sym_f32("z", -180.f, 179.999f);
  PolarPoint p(e, z, 1.f);
  Eigen::Vector2i i = polarToHistogramIndex(p, res);
  double lo_e = (double)i.y() * res - 90.0, lo_z = (double)i.x() * res - 180.0;
  sym_assert(e >= lo_e - 1e-3 && e <= lo_e + res + 1e-3, "elevation cell contains the direction");
  sym_assert(z >= lo_z - 1e-3 && z <= lo_z + res + 1e-3, "azimuth cell contains the direction");
  sym_assert(i.x() >= 0 && i.x() < 360 / res && i.y() >= 0 && i.y() < 180 / res, "index inside the histogram");
  sym_cover("end");
}
HARNESS C02_contain_res6() { contain(6); }
HARNESS C02_contain_res12() { contain(12); }
HARNESS C02_contain_res3() { contain(3); }
HARNESS C02_unnormalised() {  // a direction and the same direction some turns further select the same cell
  float e = sym_f32_grid("e", -89.5f, 89.5f, -1), z = sym_f32_grid("z", -180.f, 179.5f, -1);
  int k = sym_i32("k", -2, 2);
  sym_assume(std::fabs(std::fmod(e + 90.f, 6.f)) > 0.25f && std::fabs(std::fmod(z + 180.f, 6.f)) > 0.25f);  // off the borders
  Eigen::Vector2i a = polarToHistogramIndex(PolarPoint(e, z, 1.f), ALPHA_RES), b = polarToHistogramIndex(PolarPoint(e, z + 360.f * k, 1.f), ALPHA_RES);
  Eigen::Vector2i c = polarToHistogramIndex(PolarPoint(180.f - e, z, 1.f), ALPHA_RES), d = polarToHistogramIndex(PolarPoint(e, z >= 0 ? z - 180.f : z + 180.f, 1.f), ALPHA_RES);
  sym_assert(a.x() == b.x() && a.y() == b.y(), "whole turns in azimuth do not change the cell");
  sym_assert(c.x() == d.x() && c.y() == d.y(), "elevation beyond the pole is the mirrored elevation on the opposite side");
  sym_cover("end");
}
static void roundtrip(int res) {
  int e = sym_i32("e", 0, 180 / res - 1), z = sym_i32("z", 0, 360 / res - 1);
  float radius = sym_f32("radius", 0.f, 100.f);
  PolarPoint p = histogramIndexToPolar(e, z, res, radius);
  Eigen::Vector2i i = polarToHistogramIndex(p, res);
  sym_assert(i.x() == z && i.y() == e, "cell centre maps back to its cell");
  sym_assert(p.r == radius, "radius kept");
  if (res % 2 == 0) sym_assert(p.e == e * res + res / 2 - 90 && p.z == z * res + res / 2 - 180, "centre of the cell");
  sym_cover("end");
}
HARNESS C02_round_1() { roundtrip(1); }
HARNESS C02_round_2() { roundtrip(2); }
HARNESS C02_round_3() { roundtrip(3); }
HARNESS C02_round_5() { roundtrip(5); }
HARNESS C02_round_6() { roundtrip(6); }
HARNESS C02_round_10() { roundtrip(10); }
HARNESS C02_round_12() { roundtrip(12); }
HARNESS C02_round_30() { roundtrip(30); }
