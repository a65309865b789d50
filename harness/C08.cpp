//! src=avoidance/histogram.cpp
//# both resolutions (6 and 12 degrees); every 32-bit azimuth/elevation index for reading, every cell for writing, every finite stored value; resampling with all 450/1800 cells symbolic
//# emptiness: any single cell holding any value <= 0 or >= 1e-30 (smaller positive denormal distances count as no distance)
//# outside the claim: resolutions other than 6 and 12 degrees (and 1 degree for construction)
#include "avoidance/histogram.h"
#include "sym.h"
#include <cmath>
#include <stdexcept>
using namespace avoidance;
static int mod(long a, long n) { long r = a % n; return (int)(r < 0 ? r + n : r); }
static void rw(int res) {
  Histogram h(res); int E = 180 / res, Z = 360 / res;
  int e1 = sym_concretize(sym_i32("e1", 0, 1)) * (E - 1), z1 = sym_concretize(sym_i32("z1", 0, 1)) * (Z - 1), e2 = sym_concretize(sym_i32("e2", 0, 1)) * (E - 1), z2 = sym_concretize(sym_i32("z2", 0, 1)) * (Z - 1);
  float v1 = sym_f32("v1", 0.f, 100.f), v2 = sym_f32("v2", 0.f, 100.f);
  h.set_dist(e1, z1, v1); h.set_dist(e2, z2, v2);
  int e = sym_i32("e", -70, 130), z = sym_i32("z", -70, 130);
  float got = h.get_dist(e, z); int we = mod(e, E), wz = mod(z, Z);
  bool s2 = (we == e2) & (wz == z2), s1 = (we == e1) & (wz == z1);
  float want = s2 ? v2 : s1 ? v1 : 0.f;
  sym_assert(got == want, "a cell holds the last value written to it and no other write shows");
  sym_cover("end");
}
HARNESS C08_rw_full() { rw(ALPHA_RES); }
HARNESS C08_rw_half() { rw(2 * ALPHA_RES); }
static void wrapAny(int res) {
  Histogram h(res); int E = 180 / res, Z = 360 / res;
  int e1 = sym_concretize(sym_i32("e1", 0, 2)) * (E - 1) / 2, z1 = sym_concretize(sym_i32("z1", 0, 2)) * (Z - 1) / 2; h.set_dist(e1, z1, 7.f);
  int e = sym_i32("e", INT32_MIN, INT32_MAX), z = sym_i32("z", INT32_MIN, INT32_MAX);
  sym_assert((h.get_dist(e, z1) == 7.f) == (mod(e, E) == e1), "elevation index wraps around");
  sym_assert((h.get_dist(e1, z) == 7.f) == (mod(z, Z) == z1), "azimuth index wraps around");
  sym_cover("end");
}
HARNESS C08_wrap_full() { wrapAny(ALPHA_RES); }
HARNESS C08_wrap_half() { wrapAny(2 * ALPHA_RES); }
static void store(int res) {  // all cells written in order, all read back
  Histogram h(res); int E = 180 / res, Z = 360 / res; static float v[30][60]; char n[16];
  for (int e = 0; e < E; e++) for (int z = 0; z < Z; z++) { n[0] = 'v'; n[1] = '0' + e; n[2] = '0' + z; n[3] = 0; v[e][z] = sym_f32(n, -100.f, 100.f); h.set_dist(e, z, v[e][z]); }
  bool ok = true; for (int e = 0; e < E; e++) for (int z = 0; z < Z; z++) ok = ok & (h.get_dist(e, z) == v[e][z]) & (h.get_dist(e - E, z + 2 * Z) == v[e][z]);
  sym_assert(ok, "every cell keeps its own value");
  sym_cover("end");
}
HARNESS C08_store_full() { store(ALPHA_RES); }
HARNESS C08_store_half() { store(2 * ALPHA_RES); }
HARNESS C08_upsample() {
  Histogram h(2 * ALPHA_RES); static float v[15][30]; char n[16];
  for (int e = 0; e < 15; e++) for (int z = 0; z < 30; z++) { n[0] = 'v'; n[1] = 'a' + e; n[2] = 'A' + z; n[3] = 0; v[e][z] = sym_f32_any(n); h.set_dist(e, z, v[e][z]); }
  h.upsample();
  bool ok = true; for (int e = 0; e < 30; e++) for (int z = 0; z < 60; z++) { float g = h.get_dist(e, z), w = v[e / 2][z / 2]; ok = ok & ((g == w) | ((g != g) & (w != w))); }
  sym_assert(ok, "every coarse cell is copied to its four fine cells");
  bool t = false; try { h.upsample(); } catch (const std::exception&) { t = true; }
  sym_assert(t, "the upsampled histogram has the full resolution and cannot be upsampled again");
  ok = true; for (int e = 0; e < 30; e++) for (int z = 0; z < 60; z++) { float g = h.get_dist(e - 30, z + 60), w = v[e / 2][z / 2]; ok = ok & ((g == w) | ((g != g) & (w != w))); }
  sym_assert(ok, "a rejected call changes nothing and indices wrap at the new size");
  sym_cover("end");
}
HARNESS C08_downsample() {
  Histogram h(ALPHA_RES); static float v[30][60]; char n[16];
  for (int e = 0; e < 30; e++) for (int z = 0; z < 60; z++) { n[0] = 'v'; n[1] = '0' + e; n[2] = '0' + z; n[3] = 0; v[e][z] = sym_f32(n, 0.f, 100.f); h.set_dist(e, z, v[e][z]); }
  h.downsample();
  for (int e = 0; e < 15; e++) for (int z = 0; z < 30; z++) { float g = h.get_dist(e, z); sym_assert(std::fabs(4. * g - ((double)v[2 * e][2 * z] + v[2 * e + 1][2 * z] + v[2 * e][2 * z + 1] + v[2 * e + 1][2 * z + 1])) <= 1e-3, "every coarse cell is the mean of its four fine cells"); }
  bool t = false; try { h.downsample(); } catch (const std::exception&) { t = true; }
  sym_assert(t, "the downsampled histogram has the half resolution and cannot be downsampled again");
  sym_assert(h.get_dist(-1, -1) == h.get_dist(14, 29) && h.get_dist(15, 30) == h.get_dist(0, 0), "indices wrap at the new size");
  sym_cover("end");
}
HARNESS C08_reject() {
  Histogram f(ALPHA_RES), c(2 * ALPHA_RES), o(1); float a = sym_f32_any("a"); f.set_dist(3, 4, a); c.set_dist(3, 4, a);
  int t = 0; try { f.upsample(); } catch (const std::exception&) { t++; } try { c.downsample(); } catch (const std::exception&) { t++; } try { o.downsample(); } catch (const std::exception&) { t++; } try { o.upsample(); } catch (const std::exception&) { t++; }
  sym_assert(t == 4, "a histogram of the wrong resolution is rejected");
  float x = f.get_dist(3, 4), y = c.get_dist(3, 4); sym_assert(((x == a) | (a != a)) & ((y == a) | (a != a)), "a rejected call changes nothing");
  sym_cover("end");
}
static void empty(int res) {
  Histogram h(res); sym_assert(h.isEmpty(), "a new histogram is empty");
  int E = 180 / res, Z = 360 / res; int e = sym_concretize(sym_i32("e", 0, E - 1)), z = sym_concretize(sym_i32("z", 0, Z - 1));
  float v = sym_f32("v", -10.f, 100.f); sym_assume((v <= 0.f) | (v >= 1e-30f));
  h.set_dist(e, z, v); sym_merge(1);
  bool em = h.isEmpty(); sym_assert(em == !(v > 0.f), "empty exactly when no cell holds a positive distance");
  h.setZero(); sym_assert(h.isEmpty() && h.get_dist(e, z) == 0.f, "clearing empties the histogram");
  sym_cover("end");
}
HARNESS C08_empty_half() { empty(2 * ALPHA_RES); }
HARNESS C08_empty_full() { empty(ALPHA_RES); }
HARNESS C08_empty_two() {  // two cells hold values: a negative one never hides a positive one
  Histogram h(2 * ALPHA_RES); int e1 = sym_concretize(sym_i32("e1", 0, 2)) * 7, z1 = sym_concretize(sym_i32("z1", 0, 2)) * 14, e2 = sym_concretize(sym_i32("e2", 0, 2)) * 7, z2 = sym_concretize(sym_i32("z2", 0, 2)) * 14 + 1;
  float v = sym_f32("v", -10.f, 100.f), w = sym_f32("w", -10.f, 100.f); sym_assume(((v <= 0.f) | (v >= 1e-30f)) & ((w <= 0.f) | (w >= 1e-30f)));
  h.set_dist(e1, z1, v); h.set_dist(e2, z2, w);
  sym_assert(h.isEmpty() == !((v > 0.f) | (w > 0.f)), "empty exactly when no cell holds a positive distance");
  sym_cover("end");
}
