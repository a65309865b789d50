//! src=lp/nodes/planner_functions.cpp,avoidance/common.cpp,avoidance/histogram.cpp
//# paths of 0..5 points (thorough 6) in 2 shapes with any segment lengths in 0.2..5 m, the vehicle's own point first planned (last in the list); any speed in 0..20 m/s and 6 elapsed times, or any elapsed time of 0..10 s at microsecond resolution and 4 speeds
//# the point is followed from the first tree node on; real-number arithmetic, tolerance 1e-3 m; a used-up path is recognised up to 1e-4 m, exactly at inner path points in the entries named exact
//# outside the claim: zero-length segments (the tree keeps nodes 0.2 m apart), negative elapsed time
#include "local_planner/planner_functions.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;
static const float D[2][6][3] = {{{0.6f, 0.8f, 0.f}, {1.f, 0.f, 0.f}, {0.f, 0.6f, 0.8f}, {0.f, -1.f, 0.f}, {0.8f, 0.f, -0.6f}, {0.f, 1.f, 0.f}}, {{0.f, 0.f, 1.f}, {0.f, 1.f, 0.f}, {0.f, 1.f, 0.f}, {-1.f, 0.f, 0.f}, {0.f, 0.f, -1.f}, {1.f, 0.f, 0.f}}};
static const char* LN[] = {"l0", "l1", "l2", "l3", "l4", "l5"};
static void follow(int n, int shape, ros::Time t0, ros::Time t1, float elapsed, float v, bool exact) {
  std::vector<Eigen::Vector3f> path(n); float len[6]; Eigen::Vector3f p(1.f, -2.f, 3.f);  // path[n-1] is the vehicle, path[0] the end
  for (int i = 0; i < n; i++) { path[n - 1 - i] = p; len[i] = sym_f32(LN[i], 0.2f, 5.f); p = p + len[i] * Eigen::Vector3f(D[shape][i][0], D[shape][i][1], D[shape][i][2]); }
  Eigen::Vector3f sp(77.f, 88.f, 99.f); bool r = getSetpointFromPath(path, t0, v, t1, sp);
  if (n < 2) { sym_assert(!r, "a path that is too short gives no setpoint"); sym_assert(sp == Eigen::Vector3f(77.f, 88.f, 99.f), "and leaves the setpoint alone"); }
  else if (n == 2) { sym_assert(r, "a path of one segment gives a setpoint"); sym_assert(sp == path[0], "namely its end"); }
  else {
    float d = elapsed * v, total = 0.f; for (int i = 1; i < n - 1; i++) total += len[i];
    const float eps = exact ? 0.f : 1e-4f;
    sym_assert((d >= total - 1e-4f) | r, "a path that is not used up gives a setpoint"); sym_assert((d <= total + 1e-4f) | !r, "a used-up path gives no setpoint");
    float acc = 0.f;
    for (int i = 1; i < n - 1; i++) {  // the segment path[n-1-i] -> path[n-2-i]
      Eigen::Vector3f want = path[n - 1 - i] + (d - acc) * Eigen::Vector3f(D[shape][i][0], D[shape][i][1], D[shape][i][2]);
      bool in = (d > acc + eps) & (d < acc + len[i] - eps);
      sym_assert(!in | !r | ((std::fabs(sp.x() - want.x()) < 2e-3f) & (std::fabs(sp.y() - want.y()) < 2e-3f) & (std::fabs(sp.z() - want.z()) < 2e-3f)), "the setpoint is the point of the path reached at the planned speed");
      acc += len[i];
    }
  }
  sym_cover("end");
}
static void bySpeed(int n, int shape) { int k = sym_concretize(sym_i32("elapsed_i", 0, 5)); static const float E[] = {0.f, 0.125f, 0.5f, 1.f, 1.75f, 3.25f}; ros::Time t0(100, 250000000); ros::Duration d; d.fromSec(E[k]); follow(n, shape, t0, t0 + d, E[k], sym_f32("v", 0.f, 20.f), false); }
static void byTime(int n, int shape) {
  static const float V[] = {0.f, 0.5f, 3.f, 12.f}; float v = V[sym_concretize(sym_i32("v_i", 0, 3))];
  int us = sym_i32("elapsed_us", 0, 999999), s = sym_concretize(sym_i32("elapsed_s", 0, 9)); ros::Time t0(100, 0), t1(100 + s, us * 1000); follow(n, shape, t0, t1, s + us * 1e-6f, v, false);
}
//@ time=200 args=--reals
HARNESS C20_short() { bySpeed(0, 0); bySpeed(1, 0); bySpeed(2, 0); bySpeed(2, 1); }
//@ time=200 args=--reals
HARNESS C20_speed3() { bySpeed(3, 0); }
//@ time=200 args=--reals
HARNESS C20_speed4() { bySpeed(4, 0); }
//@ time=200 args=--reals
HARNESS C20_speed4b() { bySpeed(4, 1); }
//@ time=200 args=--reals
HARNESS C20_speed5() { bySpeed(5, 0); }
//@ time=200 args=--reals
HARNESS C20_speed5b() { bySpeed(5, 1); }
//@ time=200 args=--reals
HARNESS C20_time3() { byTime(3, 1); }
//@ time=200 args=--reals
HARNESS C20_time4() { byTime(4, 0); }
//@ time=800 args=--reals tier=thorough
HARNESS C20_speed6() { bySpeed(6, 0); }
//@ time=800 args=--reals tier=thorough
HARNESS C20_time5() { byTime(5, 1); }
//@ time=60
HARNESS C20_exact() {  // axis-parallel path of 1 m segments at 1 m/s: exactly at the path points; float semantics
  std::vector<Eigen::Vector3f> path; for (int i = 4; i >= 0; i--) path.push_back(Eigen::Vector3f((float)i, 0.f, 0.f));
  int k = sym_concretize(sym_i32("half_seconds", 0, 8)); ros::Time t0(100, 0), t1(100 + k / 2, (k % 2) * 500000000); Eigen::Vector3f sp(0.f, 0.f, 0.f); float v = sym_f32("v", 1.f, 1.f);
  bool r = getSetpointFromPath(path, t0, v, t1, sp);
  sym_assert(r == (k < 6), "a setpoint is available exactly until the path is used up"); if (r) sym_assert((sp - Eigen::Vector3f(1.f + 0.5f * k, 0.f, 0.f)).norm() < 1e-5f, "the setpoint is the point of the path reached at the planned speed");
  sym_cover("end");
}
//@ time=60
HARNESS C20_nan() {  // an unknown speed gives no setpoint beyond the first segment
  std::vector<Eigen::Vector3f> path; for (int i = 4; i >= 0; i--) path.push_back(Eigen::Vector3f((float)i, 0.f, 0.f));
  Eigen::Vector3f sp(0.f, 0.f, 0.f); sym_assert(!getSetpointFromPath(path, ros::Time(100, 0), NAN, ros::Time(101, 0), sp), "an unknown speed gives no setpoint"); sym_cover("end");
}
