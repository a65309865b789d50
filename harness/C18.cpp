//! src=lp/nodes/planner_functions.cpp,avoidance/common.cpp,avoidance/histogram.cpp
//# real-number arithmetic (costs compared with a tolerance of 1e-2 on the scale of 1e4), except the entry at the goal
//# candidate directions: cell centres of the histogram, 20 of them (thorough 200); goal up to 100 m away, in the direction itself or 14 degrees beside it, velocity up to 20 m/s per axis, closest point anywhere, weights 0..100 (obstacle weight 0..30, velocity weight 0..10000), obstacle distance 0..40 m
//# pitch cost: 9 concrete goals (thorough: same) and 5 distances, any weight; at the goal: vehicle exactly at the goal, or 1e-9..1 m from it along an axis
#include "local_planner/planner_functions.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;
#ifdef THOROUGH
static const int NE = 10, NZ = 20;
#else
static const int NE = 4, NZ = 5;
#endif
static PolarPoint cell() {
  int e = sym_concretize(sym_i32("cell_e", 0, NE - 1)), z = sym_concretize(sym_i32("cell_z", 0, NZ - 1));
  return histogramIndexToPolar(e * 29 / (NE - 1), z * 59 / (NZ - 1), ALPHA_RES, 1.f);
}
static Eigen::Vector3f vec(const char* x, const char* y, const char* z, float r) { return Eigen::Vector3f(sym_f32(x, -r, r), sym_f32(y, -r, r), sym_f32(z, -r, r)); }
static costParameters weights() { costParameters c; c.yaw_cost_param = sym_f32("w_yaw", 0.f, 100.f); c.pitch_cost_param = sym_f32("w_pitch", 0.f, 100.f); c.velocity_cost_param = sym_f32("w_vel", 0.f, 10000.f); c.obstacle_cost_param = sym_f32("w_obs", 0.f, 30.f); return c; }
static void nonneg(bool yaw) {
  PolarPoint p = cell(); costParameters w; w.velocity_cost_param = 0.f; w.yaw_cost_param = yaw ? sym_f32("w_yaw", 0.f, 100.f) : 0.f; w.pitch_cost_param = yaw ? 0.f : sym_f32("w_pitch", 0.f, 100.f);
  Eigen::Vector3f pos(1.f, 2.f, 3.f), rel = vec("gx", "gy", "gz", 100.f), line = vec("lx", "ly", "lz", 100.f); bool facing = sym_fork(sym_bool("facing"));
  if (!yaw) sym_merge(0);
  std::pair<float, float> c = costFunction(p, sym_f32("obs", 0.f, 40.f), pos + rel, pos, Eigen::Vector3f(0.f, 0.f, 0.f), w, line, facing);
  sym_assert((c.first >= 0.f) & (c.first < 10000.f), "obstacle part is not negative and below its maximum"); sym_assert(c.second >= 0.f, "direction part is not negative");
  sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C18_nonnegative_yaw() { nonneg(true); }
//@ time=200 args=--reals
HARNESS C18_nonnegative_pitch() {
  costParameters w; w.velocity_cost_param = 0.f; w.yaw_cost_param = 0.f; w.pitch_cost_param = sym_f32("w_pitch", 0.f, 100.f); sym_merge(0);
  int k = sym_concretize(sym_i32("goal", 0, 8)); static const float G[9][3] = {{5.f, 0.f, 0.f}, {0.f, 0.f, 4.f}, {0.f, 0.f, -4.f}, {-3.f, 4.f, 2.f}, {60.f, -80.f, -7.f}, {0.01f, 0.02f, 0.05f}, {-0.3f, 0.2f, -0.1f}, {30.f, 20.f, 90.f}, {-1.f, -1.f, 0.f}};
  Eigen::Vector3f pos(1.f, 2.f, 3.f), rel(G[k][0], G[k][1], G[k][2]); PolarPoint p = cell();
  std::pair<float, float> c = costFunction(p, sym_f32("obs", 0.f, 40.f), pos + rel, pos, Eigen::Vector3f(0.f, 0.f, 0.f), w, pos + rel, sym_fork(sym_bool("facing")));
  sym_assert((c.first >= 0.f) & (c.first < 10000.f), "obstacle part is not negative and below its maximum"); sym_assert(c.second >= 0.f, "direction part is not negative");
  sym_cover("end");
}
static void velocity(int vzi) {
  static const float VZ[3] = {0.f, 2.5f, -4.f};
  PolarPoint p = cell(); costParameters w; w.velocity_cost_param = 1.f; Eigen::Vector3f pos(1.f, 2.f, 3.f); w.yaw_cost_param = 0.f; w.pitch_cost_param = 0.f;
  Eigen::Vector3f v(sym_f32("vx", -20.f, 20.f), sym_f32("vy", -20.f, 20.f), VZ[vzi]);
  std::pair<float, float> c = costFunction(p, 0.f, Eigen::Vector3f(9.f, 3.f, 4.f), pos, v, w, Eigen::Vector3f(9.f, 3.f, 4.f), false);
  sym_assert(c.second >= -1e-3f, "velocity part is not negative"); sym_assert(c.second <= 60.f, "velocity part is bounded by twice the speed"); sym_assert(c.first == 0.f, "no obstacle, no obstacle cost");
  sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C18_velocity0() { velocity(0); }
//@ time=200 args=--reals
HARNESS C18_velocity1() { velocity(1); }
//@ time=200 args=--reals
HARNESS C18_velocity2() { velocity(2); }
//@ time=200 args=--reals
HARNESS C18_velocity_along() {  // along the velocity is never more expensive than against it; nor than across it
  PolarPoint p = cell(); costParameters w = weights(); Eigen::Vector3f pos(1.f, 2.f, 3.f); w.yaw_cost_param = 0.f; w.pitch_cost_param = 0.f; float speed = sym_f32("speed", 0.f, 20.f); bool facing = sym_bool("facing");
  Eigen::Vector3f u = polarHistogramToCartesian(p, Eigen::Vector3f(0.f, 0.f, 0.f)), v = speed * u, g = pos + vec("gx", "gy", "gz", 100.f);
  PolarPoint back(-p.e, p.z > 0.f ? p.z - 180.f : p.z + 180.f, 1.f), side(0.f, p.z > 0.f ? p.z - 90.f : p.z + 90.f, 1.f); float o = sym_f32("obs", 0.f, 40.f);
  float a = costFunction(p, o, g, pos, v, w, g, facing).second, b = costFunction(back, o, g, pos, v, w, g, facing).second, s = costFunction(side, o, g, pos, v, w, g, facing).second;
  float tol = 1e-4f * (1.f + w.velocity_cost_param);
  sym_assert(a <= b + tol, "a direction along the velocity is never more expensive than one against it"); sym_assert(a <= s + tol, "a direction along the velocity is never more expensive than one across it"); sym_assert(s <= b + tol, "nor is a direction across it more expensive than one against it");
  sym_assert((speed <= 1.f) | (w.velocity_cost_param <= 1.f) | (a < b), "the velocity matters when it has a weight");
  sym_cover("end");
}
static void obstacle(int lo, int hi, float wo) {  // the obstacle part never decreases when the obstacle comes closer and does not depend on anything else
  PolarPoint p(3.f, 33.f, 1.f); costParameters w; w.obstacle_cost_param = wo; Eigen::Vector3f pos(1.f, 2.f, 3.f), g(9.f, 3.f, 4.f), l(2.f, 7.f, 4.f), v(1.f, 0.5f, 0.f);
  float n = sym_f32("near", 0.01f, 40.f), cn = costFunction(p, n, g, pos, v, w, l, true).first;
  for (int k = lo; k <= hi; k++) {
    float f = 0.5f * k, cf = costFunction(p, f, g, pos, v, w, l, true).first;
    sym_assert((n > f) | (cn >= cf - 1e-2f), "a closer obstacle is never cheaper"); sym_assert((n < f) | (cn <= cf + 1e-2f), "a farther obstacle is never more expensive");
  }
  sym_assert(costFunction(p, 0.f, g, pos, v, w, l, true).first == 0.f, "no obstacle, no obstacle cost"); sym_assert((cn > 0.f) & (cn < 10000.f), "a known obstacle costs something, below the maximum");
  sym_assert(costFunction(p, n, g, pos, v, w, l, true).second == costFunction(p, 0.f, g, pos, v, w, l, true).second, "the other costs do not depend on the obstacle");
  sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C18_obstacle0() { obstacle(1, 25, 8.5f); }
//@ time=200 args=--reals
HARNESS C18_obstacle1() { obstacle(26, 60, 8.5f); }
//@ time=200 args=--reals
HARNESS C18_obstacle2() { obstacle(1, 20, 0.f); }
//@ time=200 args=--reals
HARNESS C18_obstacle3() { obstacle(30, 60, 30.f); }
static float rel(float az, float d) { float a = az + d; return a > 180.f ? a - 360.f : a; }
static void goalward(bool facing, bool pitch) {  // the goal lies in the direction of a cell, the closest point on the line too
  PolarPoint p = cell();
  // the goal may lie a little beside the direction (also across the +-180 degree direction)
  static const float BESIDE[3] = {0.f, -14.f, 14.f}; int off = pitch ? 0 : sym_concretize(sym_i32("beside", 0, 2)); PolarPoint at(p.e, rel(p.z, BESIDE[off]), 1.f); if (at.z < -180.f) at.z += 360.f;
  costParameters w = weights(); Eigen::Vector3f pos(1.f, 2.f, 3.f); static const float R[5] = {0.02f, 0.5f, 5.f, 24.f, 100.f}; float r = pitch || off ? R[sym_concretize(sym_i32("goal_dist_i", 0, 4))] : sym_f32("goal_dist", 0.02f, 100.f), o = sym_f32("obs", 0.f, 40.f);
  if (pitch || off) sym_merge(0); w.obstacle_cost_param = 5.f; w.velocity_cost_param = 0.f; if (pitch) w.yaw_cost_param = 0.f; else w.pitch_cost_param = 0.f;
  Eigen::Vector3f u = polarHistogramToCartesian(at, Eigen::Vector3f(0.f, 0.f, 0.f)), g = pos + r * u, v(0.f, 0.f, 0.f);
  Eigen::Vector3f line = facing ? pos + vec("lx", "ly", "lz", 50.f) : g;
  int d = sym_concretize(sym_i32("turn", off ? 2 : 1, 6)); float turn[] = {0.f, 6.f, 60.f, 120.f, 174.f, 180.f, 300.f};
  PolarPoint q = pitch ? PolarPoint(p.e > 0.f ? p.e - turn[d % 3 + 1] / 2.f : p.e + turn[d % 3 + 1] / 2.f, p.z, 1.f) : PolarPoint(p.e, rel(p.z, turn[d]), 1.f);
  float a = costFunction(p, o, g, pos, v, w, line, facing).second, b = costFunction(q, o, g, pos, v, w, line, facing).second;
  sym_assert(a <= b + 1.f, "a direction pointing at the goal is never more expensive than one pointing away from it");
  if (pitch) sym_assert((w.pitch_cost_param < 1.f) | (a < b), "the goal's elevation matters when it has a weight"); else sym_assert((w.yaw_cost_param < 1.f) | (a < b), "the goal's azimuth matters when it has a weight");
  sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C18_goal_facing() { goalward(true, false); }
//@ time=200 args=--reals
HARNESS C18_goal_free() { goalward(false, false); }
//@ time=200 args=--reals
HARNESS C18_goal_pitch() { goalward(true, true); }
//@ time=100
HARNESS C18_at_goal() {  // exactly at the goal
  PolarPoint p = cell(); costParameters w; Eigen::Vector3f pos(1.f, 2.f, 3.f); w.pitch_cost_param = sym_f32("w_pitch", 0.f, 100.f); w.yaw_cost_param = sym_f32("w_yaw", 0.f, 100.f);
  std::pair<float, float> c = costFunction(p, 4.f, pos, pos, Eigen::Vector3f(0.f, 0.f, 0.f), w, pos, sym_bool("facing"));
  sym_assert(std::isfinite(c.first) & std::isfinite(c.second), "costs are finite at the goal"); sym_assert((c.first >= 0.f) & (c.second >= 0.f), "costs are not negative at the goal");
  sym_cover("end");
}
//@ time=100 args=--reals
HARNESS C18_near_goal() {  // from a nanometre to a metre of it along an axis
  PolarPoint p(21.f, -33.f, 1.f); costParameters w; w.pitch_cost_param = sym_f32("w_pitch", 0.f, 100.f); Eigen::Vector3f pos(0.f, 0.f, 0.f), g(0.f, 0.f, 0.f); static const float D[6] = {1e-9f, 1e-6f, 1e-4f, 0.01f, 0.1f, 1.f}; sym_merge(0);
  float d = D[sym_concretize(sym_i32("d", 0, 5))]; int ax = sym_concretize(sym_i32("axis", 0, 2)); g[ax] = sym_fork(sym_bool("neg")) ? -d : d;
  std::pair<float, float> c = costFunction(p, sym_f32("obs", 0.f, 40.f), g, pos, Eigen::Vector3f(0.f, 0.f, 0.f), w, g, true);
  sym_assert(std::isfinite(c.first) & std::isfinite(c.second), "costs are finite near the goal"); sym_assert((c.first >= 0.f) & (c.second >= 0.f), "costs are not negative near the goal");
  sym_cover("end");
}
