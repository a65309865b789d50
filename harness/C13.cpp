//! src=lp/utils/trajectory_simulator.cpp
//# norm limit: any vector in [-50,50]^3, four limits; one motion step: any state (positions +-100 m, speeds and accelerations +-20), any jerk within 50, any step up to 1 s, rounding included; control jerk: any state in +-10, any desired horizontal velocity, two gain sets
//# whole trajectories: two sets of limits (thorough three), start velocity and acceleration of any size (speed up to 10 m/s, acceleration up to the limit) parallel to the goal along three axes and both vertical directions (thorough: also oblique combinations out of six directions, and two steps); number of states: any duration on a 2^-10 s grid, three step times
//# except for the single motion step, rounding is not modelled (real arithmetic; the tolerances in the assertions are far above single-precision rounding)
//# outside the claim: start accelerations above the limit; longer trajectories with limits active (each step depends on the previous state only)
#include "local_planner/trajectory_simulator.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;
typedef Eigen::Vector3f V3;
static const float DIRS[6][3] = {{1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {0.f, 0, -1.f}, {0.6f, 0.8f, 0}, {-0.6f, 0.f, -0.8f}};
static V3 dir(int k) { return V3(DIRS[k][0], DIRS[k][1], DIRS[k][2]); }
//@ time=60 args=--reals
HARNESS C13_clamp() {
  float m = 0.5f * sym_concretize(sym_i32("max", 1, 4)); V3 v(sym_f32("x", -50.f, 50.f), sym_f32("y", -50.f, 50.f), sym_f32("z", -50.f, 50.f));
  float n = v.squaredNorm(); sym_fork(n > m * m); V3 r = norm_clamp<3>(v, m);
  sym_assert(r.squaredNorm() <= m * m * 1.00001f, "a clamped vector is no longer than the limit");
  sym_assert((n > m * m) | ((r.x() == v.x()) & (r.y() == v.y()) & (r.z() == v.z())), "a short vector is kept");
  sym_assert((n <= m * m * 1.0001f) | (r.squaredNorm() >= m * m * 0.9999f), "a long vector is cut to the limit");
  sym_cover("end");
}
//@ time=60
HARNESS C13_step() {
  simulation_state s; s.time = sym_f32("t", 0.f, 100.f);
  for (int i = 0; i < 3; i++) { static const char* P[] = {"px", "py", "pz"}; static const char* V[] = {"vx", "vy", "vz"}; static const char* A[] = {"ax", "ay", "az"};
    s.position[i] = sym_f32(P[i], -100.f, 100.f); s.velocity[i] = sym_f32(V[i], -20.f, 20.f); s.acceleration[i] = sym_f32(A[i], -20.f, 20.f); }
  V3 j(sym_f32("jx", -50.f, 50.f), sym_f32("jy", -50.f, 50.f), sym_f32("jz", -50.f, 50.f)); float dt = sym_f32("dt", 0.f, 1.f);
  simulation_state n = TrajectorySimulator::simulate_step_constant_jerk(s, j, dt);
  sym_assert(std::fabs(n.time - (s.time + dt)) <= 1e-4f, "time advances by the step");
  for (int i = 0; i < 3; i++) {
    double p = s.position[i], v = s.velocity[i], a = s.acceleration[i], q = j[i], h = dt;
    sym_assert(std::fabs(n.position[i] - (p + h * v + 0.5 * h * h * a + h * h * h * q / 6)) <= 1e-3, "position by the constant-jerk equation");
    sym_assert(std::fabs(n.velocity[i] - (v + h * a + 0.5 * h * h * q)) <= 1e-3, "velocity by the constant-jerk equation");
    sym_assert(std::fabs(n.acceleration[i] - (a + h * q)) <= 1e-3, "acceleration by the constant-jerk equation");
  }
  sym_cover("end");
}
static void trajectory(int steps, bool three, int c) {
  sym_merge(0);
  simulation_limits l; 
  static const float L[3][5] = {{1.f, -1.f, 3.f, 5.f, 20.f}, {3.f, -0.7f, 1.f, 2.f, 8.f}, {0.5f, -2.f, 5.f, 20.f, 4.f}};
  l.max_z_velocity = L[c][0]; l.min_z_velocity = L[c][1]; l.max_xy_velocity_norm = L[c][2]; l.max_acceleration_norm = L[c][3]; l.max_jerk_norm = L[c][4];
  float amax = std::min(2 * std::sqrt(l.max_jerk_norm), l.max_acceleration_norm);
  int gd = sym_concretize(sym_i32("goal_dir", 0, three ? 5 : 3)), vd = three ? sym_concretize(sym_i32("vel_dir", 0, 5)) : gd, ad = three ? sym_concretize(sym_i32("acc_dir", 0, 5)) : gd;
  simulation_state s; s.time = 0.f; s.position = V3(1.f, -2.f, 3.f); s.velocity = dir(vd) * sym_f32("speed", -10.f, 10.f); s.acceleration = dir(ad) * sym_f32("acc", -amax, amax);
  float step = 0.1f; TrajectorySimulator sim(l, s, step);
  std::vector<simulation_state> r = sim.generate_trajectory(dir(gd) * 3.f, step * (steps - 0.5f));
  sym_assert((int)r.size() == steps, "one state per step of the requested duration, rounded up");
  simulation_state p = s;
  for (auto& n : r) {
    float t = n.time - p.time; sym_assert((t > 0) & (t <= step * 1.0001f), "time advances by a positive step");
    V3 da = n.acceleration - p.acceleration;
    sym_assert(da.squaredNorm() <= (t * l.max_jerk_norm) * (t * l.max_jerk_norm) * 1.001f + 1e-6f, "jerk within its limit");
    sym_assert(n.acceleration.squaredNorm() <= amax * amax * 1.001f, "acceleration within its limit");
    for (int i = 0; i < 3; i++) {
      sym_assert(std::fabs(n.velocity[i] - (p.velocity[i] + t * (p.acceleration[i] + n.acceleration[i]) * 0.5f)) <= 1e-3f, "velocity follows");
      sym_assert(std::fabs(n.position[i] - (p.position[i] + t * p.velocity[i] + t * t * (p.acceleration[i] / 3.f + n.acceleration[i] / 6.f))) <= 1e-3f, "position follows");
    }
    p = n;
  }
  sym_cover("end");
}
//@ time=100 ttime=300 args=--reals
HARNESS C13_limits0() { trajectory(1, false, 0); }
//@ time=100 ttime=300 args=--reals tier=thorough
HARNESS C13_limits1() { trajectory(1, false, 1); }
//@ time=100 ttime=300 args=--reals
HARNESS C13_limits2() { trajectory(1, false, 2); }
//@ time=100 ttime=850 args=--reals tier=thorough
HARNESS C13_oblique0() { trajectory(1, true, 0); }
//@ time=100 ttime=850 args=--reals tier=thorough
HARNESS C13_oblique1() { trajectory(1, true, 1); }
//@ time=100 ttime=850 args=--reals tier=thorough
HARNESS C13_two() { trajectory(2, false, 0); }
// the number of states and the times from any duration and step time; the flight is steady
HARNESS C13_states() {
  simulation_limits l; l.max_z_velocity = 1; l.min_z_velocity = -1; l.max_xy_velocity_norm = 1; l.max_acceleration_norm = 5; l.max_jerk_norm = 20;
  simulation_state s; s.time = 2.f; s.position = V3(0, 0, 0); s.velocity = V3(1, 0, 0); s.acceleration = V3(0, 0, 0);
  int k = sym_concretize(sym_i32("step_choice", 0, 2)); static const float ST[] = {0.125f, 0.25f, 0.5f}; float step = ST[k]; int n = sym_concretize(sym_i32("states", 0, 4));
  float dur = sym_f32_grid("duration", step * (n - 1), step * n, -10); sym_assume((dur > step * (n - 1)) & (dur >= 0));
  std::vector<simulation_state> r = TrajectorySimulator(l, s, step).generate_trajectory(V3(1, 0, 0), dur);
  sym_assert((int)r.size() == n, "one state per step of the requested duration, rounded up");
  for (size_t i = 0; i < r.size(); i++) sym_assert(std::fabs(r[i].time - (2.f + step * (i + 1))) <= 1e-5f, "equal steps while the limits do not shorten them");
  sym_cover("end");
}
//@ time=60 args=--reals
HARNESS C13_jerk() {  // the control jerk: proportional-damped towards the desired velocity, cut to the limit without changing direction
  sym_merge(0); int k = sym_concretize(sym_i32("gains", 0, 1)); float P = k ? 4.f : 0.25f, D = 2 * std::sqrt(P), J = k ? 20.f : 2.f;
  simulation_state s; V3 des(sym_f32("dx", -5.f, 5.f), sym_f32("dy", -5.f, 5.f), 0.5f); s.velocity = V3(sym_f32("vx", -10.f, 10.f), sym_f32("vy", -10.f, 10.f), sym_f32("vz", -10.f, 10.f)); s.acceleration = V3(sym_f32("ax", -10.f, 10.f), sym_f32("ay", -10.f, 10.f), sym_f32("az", -10.f, 10.f));
  V3 r = TrajectorySimulator::jerk_for_velocity_setpoint(P, D, J, des, s), w;
  for (int i = 0; i < 3; i++) w[i] = P * (des[i] - s.velocity[i]) - D * s.acceleration[i];
  float n = w.squaredNorm();
  sym_assert(r.squaredNorm() <= J * J * 1.0001f, "jerk within its limit");
  sym_assert((n > J * J * 0.9999f) | ((std::fabs(r.x() - w.x()) <= 1e-3f) & (std::fabs(r.y() - w.y()) <= 1e-3f) & (std::fabs(r.z() - w.z()) <= 1e-3f)), "an allowed jerk is applied as it is");
  sym_assert((n <= J * J * 1.0001f) | (r.squaredNorm() >= J * J * 0.999f), "a too large jerk is cut to the limit");
  sym_assert(r.dot(w) >= -1e-3f, "the jerk keeps its direction");
  sym_cover("end");
}
// flying steadily at the velocity that follows from the goal direction and the limits, nothing changes: that is the velocity steered to
//@ args=--reals
HARNESS C13_steady() {
  simulation_limits l; l.max_acceleration_norm = 5; l.max_jerk_norm = 20; int c = sym_concretize(sym_i32("limits", 0, 2)), g = sym_concretize(sym_i32("goal_dir", 0, 6));
  static const float L[3][3] = {{1.f, -1.f, 3.f}, {3.f, -0.5f, 1.f}, {0.5f, -2.f, 5.f}}; l.max_z_velocity = L[c][0]; l.min_z_velocity = L[c][1]; l.max_xy_velocity_norm = L[c][2];
  static const float G[7][3] = {{1, 0, 0}, {0, -3, 0}, {0, 0, 5}, {0, 0, -0.5f}, {3, 4, 5}, {-0.3f, 0.4f, -2.f}, {2, -1, -0.1f}};
  double x = G[g][0], y = G[g][1], z = G[g][2], n = std::sqrt(x * x + y * y + z * z), sp = std::hypot((double)L[c][2], z > 0 ? (double)L[c][0] : (double)L[c][1]);
  double vx = x / n * sp, vy = y / n * sp, vz = z / n * sp, h = std::hypot(vx, vy); if (h > L[c][2]) { vx *= L[c][2] / h; vy *= L[c][2] / h; } vz = std::min((double)L[c][0], std::max((double)L[c][1], vz));
  simulation_state s; s.time = sym_f32("t", 0.f, 10.f); s.position = V3(sym_f32("px", -100.f, 100.f), sym_f32("py", -100.f, 100.f), sym_f32("pz", -100.f, 100.f)); s.velocity = V3((float)vx, (float)vy, (float)vz); s.acceleration = V3(0, 0, 0);
  std::vector<simulation_state> r = TrajectorySimulator(l, s, 0.1f).generate_trajectory(V3(G[g][0], G[g][1], G[g][2]), 0.35f);
  sym_assert(r.size() == 4, "one state per step");
  for (auto& q : r) {
    sym_assert(((q.velocity - s.velocity).norm() <= 1e-3f) & (q.acceleration.norm() <= 1e-3f), "the velocity steered to is the goal direction within the horizontal and vertical limits");
    float t = q.time - s.time;
    sym_assert((std::fabs(q.position.x() - s.position.x() - t * s.velocity.x()) <= 1e-3f) & (std::fabs(q.position.y() - s.position.y() - t * s.velocity.y()) <= 1e-3f) & (std::fabs(q.position.z() - s.position.z() - t * s.velocity.z()) <= 1e-3f), "the position follows");
  }
  sym_cover("end");
}
