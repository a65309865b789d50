//! src=lp/nodes/waypoint_generator.cpp,lp/nodes/planner_functions.cpp,avoidance/common.cpp,avoidance/histogram.cpp
//# one cycle from every sub-state; target in one of 3 directions at any distance up to 200 m and in 3 oblique ones at 6 distances; cruise speed 0..20 m/s or unknown, previous speed 0..20 m/s, 4 cycle times, fields of view: none, everything, one camera looking along or away
//# smoothing off or on with two sets of constants; yaw: any current and previous yaw, any yaw rate up to 5 rad/s, any smoothing constant in 0.02..30
//# real-number arithmetic, tolerances 1e-3 m (1e-4 rad)
#include "local_planner/waypoint_generator.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;
static const float DIR[6][3] = {{1.f, 0.f, 0.f}, {0.f, 1.f, 0.f}, {0.f, 0.f, 1.f}, {0.6f, -0.8f, 0.f}, {-0.6f, 0.f, 0.8f}, {-0.48f, 0.6f, -0.64f}};
static Eigen::Vector3f dir(int k) { return Eigen::Vector3f(DIR[k][0], DIR[k][1], DIR[k][2]); }
static const float DT[4] = {0.f, 0.02f, 0.1f, 1.f};
static void fovs(WaypointGenerator& w, int kind) {
  if (kind == 1) w.setFOV(0, FOV(0.f, 0.f, 359.f, 179.f)); if (kind == 2) w.setFOV(0, FOV(0.f, 0.f, 90.f, 60.f)); if (kind == 3) w.setFOV(0, FOV(180.f, 0.f, 60.f, 60.f));
}
static const float P3[3] = {10.f, -20.f, 30.f};
static void speed(int stateKind) {  // 0 direct, 1 path, 2 loiter
  WaypointGenerator w; int k = sym_concretize(sym_i32("dir", 0, 5)), dti = sym_concretize(sym_i32("dt", 0, 3)), fk = sym_concretize(sym_i32("fov", 0, 3)); stub::now() = ros::Time(1000, 0); w.current_time_ = ros::Time(1000, 0);
  ros::Duration d; d.fromSec(DT[dti]); stub::now() += d; float dt = DT[dti] > 0.f ? DT[dti] : 0.0001f;
  Eigen::Vector3f pos(P3[0], P3[1], P3[2]); static const float RS[6] = {0.05f, 0.5f, 0.9f, 1.5f, 10.f, 150.f}; float r = stateKind == 0 && (k > 2 || fk > 1) ? RS[sym_concretize(sym_i32("ri", 0, 5))] : sym_f32("r", 0.01f, 200.f), cruise = sym_f32("cruise", 0.f, 20.f), prev = sym_f32("prev", 0.f, 20.f);
  sym_assume((r < 0.999f) | (r > 1.001f)); Eigen::Vector3f goal = pos + r * dir(k), target = goal; fovs(w, fk);
  bool knownCruise = sym_fork(sym_bool("known_cruise")); avoidanceOutput o; o.cruise_velocity = knownCruise ? cruise : NAN; o.last_path_time = stub::now();
  if (stateKind == 1) { target = pos + 3.f * dir(k); goal = pos + r * dir((k + 1) % 3); o.path_node_positions.push_back(target); o.path_node_positions.push_back(pos); }
  if (stateKind == 2) { target = pos + 3.f * dir(k); goal = pos + r * dir((k + 1) % 3); w.hover_position_ = target; }
  w.m_currentState = stateKind == 0 ? PlannerState::DIRECT : stateKind == 1 ? PlannerState::TRY_PATH : PlannerState::LOITER; w.speed_ = prev; w.smoothing_speed_xy_ = 0.f; w.smoothed_goto_location_ = pos; w.output_.smoothed_goto_position = pos; w.output_.linear_velocity_wp = pos;
  w.updateState(pos, Eigen::Quaternionf(1.f, 0.f, 0.f, 0.f), goal, pos, Eigen::Vector3f(1.f, 0.f, 0.f), stateKind == 2, true, NavigationState::mission, false, false, Eigen::Vector3f(NAN, NAN, NAN)); w.setPlannerInfo(o);
  waypointResult out = w.getWaypoints();
  Eigen::Vector3f a = out.adapted_goto_position - pos; bool near = r < 1.f;
  float along = near ? a.dot((goal - pos) / r) : a.dot(dir(k)), limit = knownCruise ? cruise : 2.f; if (near) limit = r;
  float alpha = dt / (0.9f + dt), top = prev > limit ? prev : limit; (void)alpha;
  Eigen::Vector3f off = a - along * (near ? Eigen::Vector3f((goal - pos) / r) : dir(k));
  sym_assert((std::fabs(off.x()) < 2e-3f) & (std::fabs(off.y()) < 2e-3f) & (std::fabs(off.z()) < 2e-3f), "the waypoint lies in the direction of the target"); sym_assert(along > -1e-3f, "and ahead of the vehicle");
  sym_assert(along <= top + 1e-3f, "no further ahead than the larger of the previous and the planned speed"); sym_assert(along <= r + 1e-3f, "nor than the goal");
  // the speed itself: low-pass of the planned speed scaled by visibility
  float scale = fk == 0 ? 0.f : fk == 1 ? 2.f : (fk == 2) == (k == 0) ? 2.f : -1.f; if (fk == 2 && k == 0) scale = 1.f;
  if (near) { float want = alpha * r + (1.f - alpha) * prev; want = want < r ? want : r; if (dti == 3) sym_assert((r <= 0.1f) | (std::fabs(along - want) < 2e-3f), "near the goal the speed tends to the distance"); }
  else if (scale == 0.f) { float want = (1.f - alpha) * prev; want = want < r ? want : r; sym_assert(std::fabs(along - want) < 2e-3f, "the speed decays when the target cannot be seen"); }
  else if (scale == 1.f) { float want = alpha * limit + (1.f - alpha) * prev; want = want < r ? want : r; sym_assert(std::fabs(along - want) < 2e-3f, "the speed tends to the planned speed when the target is straight ahead of a camera"); }
  if (fk == 3 && k == 0 && !near) { float want = (1.f - alpha) * prev; want = want < r ? want : r; sym_assert(std::fabs(along - want) < 2e-3f, "the speed decays when the target is behind the camera"); }
  sym_assert((out.position_wp == out.smoothed_goto_position) & (out.smoothed_goto_position == out.adapted_goto_position), "without smoothing the waypoint is the adapted one");
  sym_assert(std::isnan(out.linear_velocity_wp.x()) & std::isnan(out.linear_velocity_wp.y()) & std::isnan(out.linear_velocity_wp.z()), "no velocity is commanded");
  sym_assert(std::isfinite(out.position_wp.x()) & std::isfinite(out.position_wp.y()) & std::isfinite(out.position_wp.z()), "the waypoint is finite");
  sym_assert((w.setpoint_yaw_rad_ >= -3.14160f) & (w.setpoint_yaw_rad_ <= 3.14160f), "the yaw is normalised");
  sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C22_speed_direct() { sym_merge(0); speed(0); }
//@ time=200 args=--reals
HARNESS C22_speed_path() { sym_merge(0); speed(1); }
//@ time=200 args=--reals
HARNESS C22_speed_loiter() { sym_merge(0); speed(2); }
static void still(WaypointGenerator& w, const Eigen::Vector3f& pos, const Eigen::Vector3f& goal, const Eigen::Vector3f& vel, float yaw) {
  w.updateState(pos, Eigen::Quaternionf(std::cos(yaw / 2.f), 0.f, 0.f, std::sin(yaw / 2.f)), goal, pos, vel, true, true, NavigationState::mission, false, false, Eigen::Vector3f(NAN, NAN, NAN)); avoidanceOutput o; o.cruise_velocity = 3.f; o.last_path_time = stub::now(); w.setPlannerInfo(o);
}
static char nm[16][4];
static float g(int i, float r) { nm[i][0] = 'a' + i; return sym_f32(nm[i], -r, r); }
static void smoothing(int pk) {  // the smoothed waypoint follows the adapted one as a critically damped filter
  WaypointGenerator w; int dti = 1 + sym_concretize(sym_i32("dt", 0, 2)); stub::now() = ros::Time(1000, 0); w.current_time_ = ros::Time(1000, 0); ros::Duration d; d.fromSec(DT[dti]); stub::now() += d; float dt = DT[dti];
  float px = pk ? 4.f : 9.f, pz = pk ? 1.f : 4.f; w.setSmoothingSpeed(px, pz); Eigen::Vector3f pos(1.f, 2.f, 3.f), vel(g(0, 10.f), g(1, 10.f), g(2, 10.f)), s(g(3, 50.f), g(4, 50.f), g(5, 50.f)), v(g(6, 20.f), g(7, 20.f), g(8, 20.f)); bool atGoal = sym_fork(sym_bool("at_goal"));
  Eigen::Vector3f goal = atGoal ? pos + Eigen::Vector3f(0.02f, 0.f, 0.01f) : Eigen::Vector3f(60.f, 2.f, 3.f); w.hover_position_ = pos + Eigen::Vector3f(0.f, 2.f, 0.f); w.speed_ = 1.5f; w.smoothed_goto_location_ = s; w.smoothed_goto_location_velocity_ = v;
  w.m_currentState = PlannerState::LOITER; still(w, pos, goal, vel, 0.f); waypointResult o = w.getWaypoints();
  for (int i = 0; i < 3; i++) {
    float P = i < 2 ? px : pz, D = i < 2 ? (pk ? 4.f : 6.f) : (pk ? 2.f : 4.f), vd = atGoal ? 0.f : vel[i], nv = v[i] + (P * (o.adapted_goto_position[i] - s[i]) + D * (vd - v[i])) * dt, ns = s[i] + nv * dt;
    sym_assert(std::fabs(o.smoothed_goto_position[i] - ns) < 1e-2f, "the smoothed waypoint follows as a critically damped filter"); sym_assert(std::isfinite(o.position_wp[i]) & (o.position_wp[i] == o.smoothed_goto_position[i]), "and is what is commanded");
  }
  sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C22_smoothing0() { smoothing(0); }
//@ time=200 args=--reals
HARNESS C22_smoothing1() { smoothing(1); }
static void notFlying(bool hasSmooth) {  // not airborne, or nothing to continue from: the smoothing starts at the vehicle
  WaypointGenerator w; stub::now() = ros::Time(1000, 0); Eigen::Vector3f pos(g(0, 50.f), g(1, 50.f), g(2, 50.f)); if (hasSmooth) { w.smoothed_goto_location_ = Eigen::Vector3f(9.f, 9.f, 9.f); w.smoothed_goto_location_velocity_ = Eigen::Vector3f(1.f, 1.f, 1.f); }
  w.updateState(pos, Eigen::Quaternionf(1.f, 0.f, 0.f, 0.f), pos, pos, Eigen::Vector3f(0.f, 0.f, 0.f), true, !hasSmooth, NavigationState::mission, false, false, Eigen::Vector3f(NAN, NAN, NAN));
  sym_assert((w.smoothed_goto_location_ == pos) & (w.smoothed_goto_location_velocity_ == Eigen::Vector3f(0.f, 0.f, 0.f)), "the smoothing starts at the vehicle"); sym_assert((w.setpoint_yaw_rad_ == 0.f) & (w.setpoint_yaw_velocity_ == 0.f), "the yaw too"); sym_cover("end");
}
//@ time=60
HARNESS C22_start() { notFlying(true); notFlying(false); }
static void yaw(bool smooth) {  // target azimuth one of 8, everything else symbolic
  WaypointGenerator w; static const float PI = 3.14159265f; stub::now() = ros::Time(1000, 0); w.current_time_ = ros::Time(1000, 0); int dti = 1 + sym_concretize(sym_i32("dt", 0, 1)); ros::Duration d; d.fromSec(DT[dti]); stub::now() += d; float dt = DT[dti];
  static const float PK[4] = {0.25f, 4.f, 9.f, 25.f}; float P = smooth ? PK[sym_concretize(sym_i32("P", 0, 3))] : 0.f; w.setSmoothingSpeed(P, 3.f); int q = sym_concretize(sym_i32("target", 0, 7)); static const float T[8][3] = {{1.f, 0.f, 0.f}, {0.6f, 0.8f, 0.927295f}, {0.f, 1.f, 1.570796f}, {-0.8f, 0.6f, 2.498092f}, {-1.f, 0.01f, 3.131593f}, {-1.f, -0.01f, -3.131593f}, {0.f, -1.f, -1.570796f}, {0.8f, -0.6f, -0.643501f}};
  float want = T[q][2], y = sym_f32("yaw_setpoint", -3.1415f, 3.1415f), yv = sym_f32("yaw_rate", -5.f, 5.f); Eigen::Vector3f pos(1.f, 2.f, 3.f), goal(80.f, 2.f, 3.f); w.hover_position_ = pos + 2.f * Eigen::Vector3f(T[q][0], T[q][1], 0.f);
  w.m_currentState = PlannerState::LOITER; w.smoothed_goto_location_ = pos; w.setpoint_yaw_rad_ = y; w.setpoint_yaw_velocity_ = yv; still(w, pos, goal, Eigen::Vector3f(0.f, 0.f, 0.f), 0.f); w.getWaypoints();
  float got = w.setpoint_yaw_rad_; sym_assert((got >= -3.14160f) & (got <= 3.14160f), "the yaw is normalised");
  if (!smooth) sym_assert(std::fabs(got - want) < 1e-4f, "without smoothing the yaw points at the target");
  else {
    float diff = want - y; bool clear = (std::fabs(diff) < PI - 1e-3f) | (std::fabs(diff) > PI + 1e-3f); diff = diff > PI ? diff - 2.f * PI : diff < -PI ? diff + 2.f * PI : diff;
    float nv = yv + (P * diff - 2.f * std::sqrt(P) * yv) * dt, ny = y + nv * dt; float e = got - ny;
    sym_assert(!clear | (std::fabs(w.setpoint_yaw_velocity_ - nv) < 1e-2f), "the yaw turns the short way round as a critically damped filter");
    sym_assert(!clear | (std::fabs(e) < 1e-2f) | (std::fabs(e - 2.f * PI) < 1e-2f) | (std::fabs(e + 2.f * PI) < 1e-2f) | (std::fabs(e - 4.f * PI) < 1e-2f) | (std::fabs(e + 4.f * PI) < 1e-2f), "and the yaw is what the turn gives");
  }
  sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C22_yaw_smooth() { sym_merge(0); yaw(true); }
//@ time=200 args=--reals
HARNESS C22_yaw_direct() { sym_merge(0); yaw(false); }
//@ time=100 args=--reals
HARNESS C22_yaw_at_goal() {  // within a metre of the goal the heading is kept
  WaypointGenerator w; stub::now() = ros::Time(1000, 0); w.current_time_ = ros::Time(1000, 0); w.setSmoothingSpeed(0.f, 0.f); static const float Y[4] = {0.f, 1.f, -2.f, 3.f}; float y0 = Y[sym_concretize(sym_i32("yaw", 0, 3))], r = sym_f32("r", 0.2f, 0.95f);
  Eigen::Vector3f pos(1.f, 2.f, 3.f), goal = pos + Eigen::Vector3f(0.f, r, 0.f); w.m_currentState = PlannerState::LOITER; w.hover_position_ = pos + Eigen::Vector3f(2.f, 0.f, 0.f); w.smoothed_goto_location_ = pos; still(w, pos, goal, Eigen::Vector3f(0.f, 0.f, 0.f), y0); stub::now() += ros::Duration(0.1); w.getWaypoints();
  float got = w.setpoint_yaw_rad_; sym_assert(std::fabs(got - y0) < 1e-4f, "the heading on arrival"); still(w, pos, goal, Eigen::Vector3f(0.f, 0.f, 0.f), y0 - 0.5f); stub::now() += ros::Duration(0.1); waypointResult o = w.getWaypoints();
  sym_assert(w.setpoint_yaw_rad_ == got, "is kept at the goal"); sym_assert(o.goto_position == goal, "the goal itself is the target there"); sym_cover("end");
}
