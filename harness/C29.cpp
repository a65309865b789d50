//! src=slp/nodes/waypoint_generator_node.cpp,slp/nodes/waypoint_generator.cpp,slp/nodes/safe_landing_planner.cpp,avoidance/common.cpp
//# one cycle from every state with arbitrary latches, vehicle position (or none yet), goal (or none yet), ground height and sequence numbers; any landing flags
//# histories: 7 cycles (thorough 8) from the start with arbitrary mode, position, ground and grid in each; the ground flat or not as a whole
//# evaluation: any 7x7 and 9x9 landing decisions with kernel 1, any 9x9 with kernel 2; observation: any flags, weights and thresholds on 3x3 cells
//# real-number arithmetic, distances a millimetre or more from the limits; the ground has one height within the landing area
#include "safe_landing_planner/waypoint_generator_node.hpp"
#include "sym.h"
#include <cmath>
using namespace avoidance;
typedef SLPState S;
#ifdef THOROUGH
static const int K = 8;
#else
static const int K = 7;
#endif
static char nm[512][12];
static const char* nam(const char* b, int k) { static int c = 0; char* s = nm[c++ % 512]; int i = 0; while (b[i]) { s[i] = b[i]; i++; } if (k > 9) s[i++] = '0' + k / 10; s[i++] = '0' + k % 10; s[i] = 0; return s; }
static int pub = 0; static Eigen::Vector3f spP, spV;
static void config(WaypointGenerator& w, int n, int s, float cell) { w.smoothing_land_cell_ = s; w.update_smoothing_size_ = true; w.grid_slp_.resize(n * cell, cell); w.grid_slp_.setFilterLimits(Eigen::Vector3f(0.f, 0.f, 0.f)); w.publishTrajectorySetpoints_ = [](const Eigen::Vector3f& p, const Eigen::Vector3f& v, float, float) { pub++; spP = p; spV = v; }; pub = 0; }
static bool within(const Eigen::Vector3f& g, const Eigen::Vector3f& p, float r) { float d = (g.x() - p.x()) * (g.x() - p.x()) + (g.y() - p.y()) * (g.y() - p.y()); sym_assume((d < r * r - 1e-2f) | (d > r * r + 1e-2f)); return d < r * r; }
static void step(S s0) {
  WaypointGenerator w; config(w, 3, 1, 1.f); w.m_currentState = s0; w.prev_slp_state_ = s0; w.state_changed_ = sym_fork(sym_bool("changed")); float ground = sym_f32("ground", -50.f, 50.f); w.grid_slp_.mean_.fill(ground); bool posKnown = sym_fork(sym_bool("pos_known")), goalKnown = sym_fork(sym_bool("goal_known"));
  if (posKnown) w.position_ = Eigen::Vector3f(sym_f32("x", -100.f, 100.f), sym_f32("y", -100.f, 100.f), sym_f32("z", -50.f, 100.f)); if (goalKnown) w.goal_ = Eigen::Vector3f(sym_f32("gx", -100.f, 100.f), sym_f32("gy", -100.f, 100.f), 20.f);
  w.is_land_waypoint_ = sym_fork(sym_bool("land")); w.decision_taken_ = sym_fork(sym_bool("decided")); w.can_land_ = sym_fork(sym_bool("can_land")); w.explorarion_is_active_ = sym_fork(sym_bool("exploring")); w.trigger_reset_ = sym_fork(sym_bool("reset")); w.landing_radius_ = sym_fork(sym_bool("wide")) ? 2.f : 0.5f; w.n_explored_pattern_ = sym_concretize(sym_i32("pattern", -1, 7)); w.loiter_position_ = Eigen::Vector3f(5.f, 6.f, 7.f); w.exploration_anchor_ = Eigen::Vector3f(50.f, 60.f, 8.f); w.loiter_height_ = sym_f32("loiter_height", 1.f, 12.f); w.vertical_range_error_ = sym_f32("range", 0.f, 4.f); w.factor_exploration_ = 3.f; w.spiral_width_ = 2.f;
  int seq = sym_i32("seq", 0, 1000), start = sym_i32("start", 0, 1000); w.grid_slp_seq_ = seq; w.start_seq_landing_decision_ = start; w.can_land_hysteresis_matrix_.resize(3, 3); w.can_land_hysteresis_result_.resize(3, 3); w.can_land_hysteresis_matrix_.fill(0.f); int flat = sym_fork(sym_bool("flat")) ? 1 : 0; w.can_land_hysteresis_result_.fill(1); w.can_land_hysteresis_result_(1, 1) = flat;
  bool land = w.is_land_waypoint_, reset = w.trigger_reset_, dec = land && w.decision_taken_, can = !land || w.can_land_, exp = land && w.explorarion_is_active_; float rad = land ? w.landing_radius_ : 2.f; if (s0 == S::GOTO && exp) rad = 0.5f; Eigen::Vector3f p0 = w.position_, g0 = w.goal_; int pat = land ? w.n_explored_pattern_ : -1; float fac = land ? 3.f : 1.f;
  bool in = posKnown && goalKnown && !reset && sym_fork(within(g0, p0, rad)); float off = std::fabs(std::fabs(p0.z() - ground) - w.loiter_height_); if (posKnown) sym_assume((off < w.vertical_range_error_ - 1e-3f) | (off > w.vertical_range_error_ + 1e-3f)); bool level = posKnown && sym_fork(off < w.vertical_range_error_), looked = std::abs(seq - start) > 20;
  w.calculateWaypoint(); S got = w.getState(), want = s0;
  if (reset) want = S::GOTO;
  else switch (s0) { case S::GOTO: if (in && land && !dec) want = S::ALTITUDE_CHANGE; break; case S::ALTITUDE_CHANGE: if (level) want = S::LOITER; break; case S::LOITER: sym_assert(got == (looked ? S::EVALUATE_GRID : S::LOITER), "the grid is observed for 20 messages before it is evaluated"); want = got; break; case S::EVALUATE_GRID: want = flat ? S::GOTO_LAND : S::GOTO; break; case S::GOTO_LAND: if (in) want = S::LAND; break; default: break; }
  sym_assert(got == want, "the next state is the decision table's"); sym_assert(!w.trigger_reset_ & (pub == (reset ? 0 : 1)), "one setpoint per cycle");
  if (!reset && s0 == S::EVALUATE_GRID) sym_assert((w.decision_taken_ == true) & (w.can_land_ == (flat == 1)), "the decision is remembered");
  if (!reset && s0 == S::ALTITUDE_CHANGE && got == S::LOITER) sym_assert(w.start_seq_landing_decision_ == seq, "observation starts with the loiter");
  if (!reset && s0 == S::GOTO) { bool explore = in && land && dec && !can; static const int DX[8] = {1, 1, 0, -1, -1, -1, 0, 1}, DY[8] = {0, 1, 1, 1, 0, -1, -1, -1};
    if (explore) { int np = pat + 1; if (np == 8) { np = 0; fac += 1.f; } Eigen::Vector3f a = exp ? Eigen::Vector3f(50.f, 60.f, 8.f) : Eigen::Vector3f(5.f, 6.f, 7.f); float d = 2.f * fac * 2.f; sym_assert((std::fabs(w.goal_.x() - (a.x() + d * DX[np])) < 1e-3f) & (std::fabs(w.goal_.y() - (a.y() + d * DY[np])) < 1e-3f) & (w.goal_.z() == a.z()), "a rejected site leads to exploring the next one around it"); sym_assert(!w.decision_taken_ & w.explorarion_is_active_ & (w.n_explored_pattern_ == np) & (w.factor_exploration_ == fac), "which is to be evaluated anew"); sym_assert((w.exploration_anchor_ == a) & std::isnan(w.velocity_setpoint_.x()), "around the site first tried"); }
    else { sym_assert(goalKnown ? w.goal_ == g0 : std::isnan(w.goal_.x()), "the goal stays"); sym_assert((w.decision_taken_ == dec) & (w.can_land_ == can) & (w.explorarion_is_active_ == exp), "and so do the decisions"); } }
  sym_assert(!(got == S::LAND) | (s0 == S::LAND) | (s0 == S::GOTO_LAND), "landing starts only over an accepted site"); sym_cover("end");
}
//@ time=300 args=--reals
HARNESS C29_goto() { sym_merge(0); step(S::GOTO); }
//@ time=300 args=--reals
HARNESS C29_altitude() { sym_merge(0); step(S::ALTITUDE_CHANGE); }
//@ time=300 args=--reals
HARNESS C29_loiter() { sym_merge(0); step(S::LOITER); }
//@ time=300 args=--reals
HARNESS C29_evaluate() { sym_merge(0); step(S::EVALUATE_GRID); }
//@ time=300 args=--reals
HARNESS C29_goto_land() { sym_merge(0); step(S::GOTO_LAND); }
//@ time=300 args=--reals
HARNESS C29_land() { sym_merge(0); step(S::LAND); }
static void patches(int n, int s) {
  WaypointGenerator w; float cell = 0.5f; config(w, n, s, cell); w.m_currentState = S::EVALUATE_GRID; w.is_land_waypoint_ = true; w.can_land_hysteresis_matrix_.resize(n, n); w.can_land_hysteresis_result_.resize(n, n); w.can_land_hysteresis_matrix_.fill(0.f); bool ok[81]; for (int i = 0; i < n * n; i++) { int v = sym_i32(nam("r", i), 0, 1); w.can_land_hysteresis_result_(i / n, i % n) = v; ok[i] = v == 1; } Eigen::Vector3f pos(sym_f32("x", -100.f, 100.f), 7.f, 9.f), goal = pos; w.position_ = pos; w.goal_ = goal; w.loiter_position_ = pos;
  static const int DX[8] = {1, 1, 0, -1, -1, -1, 0, 1}, DY[8] = {0, 1, 1, 1, 0, -1, -1, -1}; w.calculateWaypoint();
  auto patch = [&](int cx, int cy) { bool all = true; for (int i = -s; i <= s; i++) for (int j = -s; j <= s; j++) if (i * i + j * j < (s + 0.5) * (s + 0.5)) all = all & ok[(cx + i) * n + cy + j]; return all; }; int c = n / 2; bool any = patch(c, c); bool landing = w.getState() == S::GOTO_LAND; int reach = (1 + n - (2 * s + 1)) / 2; for (int i = 1; i < reach; i++) for (int j = 0; j < 8; j++) any = any | patch(c + DX[j] * i, c + DY[j] * i);
  sym_assert(landing == any, "a landing is decided exactly when a complete patch is landable"); sym_assert(landing | (w.getState() == S::GOTO), "else another site is tried"); sym_assert(w.can_land_ == any, "the decision is remembered");
  if (landing) { bool found = false; for (int i = 0; i < reach; i++) for (int j = 0; j < (i ? 8 : 1); j++) { float gx = pos.x() + DX[j] * i * cell, gy = pos.y() + DY[j] * i * cell; if (i == 0) gx = pos.x(), gy = pos.y(); found = found | (patch(c + DX[j] * i, c + DY[j] * i) & (std::fabs(w.goal_.x() - gx) < 1e-3f) & (std::fabs(w.goal_.y() - gy) < 1e-3f)); } sym_assert(found, "the landing goal is the middle of a landable patch"); sym_assert(!patch(c, c) | ((w.goal_.x() == pos.x()) & (w.goal_.y() == pos.y())), "straight below when possible"); } sym_cover("end");
}
//@ time=300 args=--reals
HARNESS C29_patches7() { patches(7, 1); }
//@ time=300 args=--reals
HARNESS C29_patches9() { patches(9, 1); }
//@ time=300 args=--reals
HARNESS C29_patches9_wide() { patches(9, 2); }
//@ time=200 args=--reals
HARNESS C29_observe() {
  WaypointGenerator w; config(w, 3, 1, 1.f); w.m_currentState = S::LOITER; w.is_land_waypoint_ = true; float b = sym_f32("beta", 0.f, 1.f), thr = sym_f32("thr", 0.f, 1.f), h[9]; w.beta_ = b; w.can_land_thr_ = thr; int seq = sym_i32("seq", 0, 1000), start = sym_i32("start", 0, 1000); w.grid_slp_seq_ = seq; w.start_seq_landing_decision_ = start; w.can_land_hysteresis_matrix_.resize(3, 3); w.can_land_hysteresis_result_.resize(3, 3); int l[9]; for (int i = 0; i < 9; i++) { h[i] = sym_f32(nam("h", i), 0.f, 1.f); l[i] = sym_i32(nam("l", i), 0, 1); w.can_land_hysteresis_matrix_(i / 3, i % 3) = h[i]; w.grid_slp_.land_(i / 3, i % 3) = l[i]; w.can_land_hysteresis_result_(i / 3, i % 3) = 7; } w.position_ = w.goal_ = w.loiter_position_ = Eigen::Vector3f(1.f, 2.f, 3.f);
  bool done = sym_fork(std::abs(seq - start) > 20); w.calculateWaypoint(); for (int i = 0; i < 9; i++) { if (done) sym_assert(w.can_land_hysteresis_result_(i / 3, i % 3) == (h[i] > thr ? 1 : 0), "a cell is accepted when its observed landability is above the limit"); else sym_assert(std::fabs(w.can_land_hysteresis_matrix_(i / 3, i % 3) - (b * h[i] + (1.f - b) * l[i])) < 1e-3f, "each grid contributes with the configured weight"); } sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C29_afresh() {  // what was observed over one site does not count for the next
  sym_merge(0); WaypointGenerator w; config(w, 3, 1, 1.f); w.beta_ = 0.5f; w.is_land_waypoint_ = true; w.explorarion_is_active_ = sym_fork(sym_bool("exploring")); w.decision_taken_ = sym_fork(sym_bool("decided")); w.can_land_ = sym_fork(sym_bool("can")); w.goal_ = Eigen::Vector3f(30.f, 0.f, 4.f); w.position_ = Eigen::Vector3f(0.f, 0.f, 4.f); w.grid_slp_.mean_.fill(0.f); int l[9]; for (int i = 0; i < 9; i++) { l[i] = sym_i32(nam("l", i), 0, 1); w.grid_slp_.land_(i / 3, i % 3) = l[i]; }
  w.updateSLPState(); for (int i = 0; i < 9; i++) w.can_land_hysteresis_matrix_(i / 3, i % 3) = sym_f32(nam("h", i), 0.f, 1.f); bool dec = w.decision_taken_;
  w.calculateWaypoint(); sym_assert(w.getState() == S::GOTO, "on the way"); w.decision_taken_ = dec = false; w.position_ = w.goal_; w.calculateWaypoint(); sym_assert(w.getState() == S::ALTITUDE_CHANGE, "arrived"); w.loiter_height_ = 4.f; w.grid_slp_seq_ = 100; w.calculateWaypoint(); sym_assert(w.getState() == S::LOITER, "at the height"); w.grid_slp_seq_ = 101; w.calculateWaypoint();
  for (int i = 0; i < 9; i++) sym_assert(std::fabs(w.can_land_hysteresis_matrix_(i / 3, i % 3) - 0.5f * l[i]) < 1e-3f, "the observation of a site starts afresh"); sym_cover("end");
}
//@ time=400 ttime=900 args=--reals max-paths=9000000
HARNESS C29_history() {
  sym_merge(0); WaypointGenerator w; config(w, 3, 1, 1.f); w.beta_ = 0.5f; w.can_land_thr_ = 0.4f; w.loiter_height_ = 4.f; w.vertical_range_error_ = 1.f; w.goal_ = Eigen::Vector3f(0.f, 0.f, 20.f); w.velocity_setpoint_ = Eigen::Vector3f(NAN, NAN, NAN); S cur = S::GOTO; int seq = 0, since = -1, chain = 0; float h = 0.f; bool accepted = false, low = false;
  for (int k = 0; k < K; k++) {
    int mode = sym_concretize(sym_i32(nam("mode", k), 0, 2)); w.is_land_waypoint_ = mode == 0; if (mode == 2) w.trigger_reset_ = true; bool go = mode != 2, near_ = go && (cur == S::GOTO || cur == S::GOTO_LAND) && sym_fork(sym_bool(nam("near", k))), level = go && cur == S::ALTITUDE_CHANGE && sym_fork(sym_bool(nam("level", k))), flat = go && cur == S::LOITER && sym_fork(sym_bool(nam("flat", k))); seq += go && cur == S::LOITER && sym_fork(sym_bool(nam("long", k))) ? 30 : 1; w.grid_slp_seq_ = seq; w.grid_slp_.land_.fill(flat ? 1 : 0); w.grid_slp_.mean_.fill(1.f); w.position_ = Eigen::Vector3f(w.goal_.x() + (near_ ? 0.1f : 10.f), w.goal_.y(), level ? 5.f : 20.f);
    w.calculateWaypoint(); S nxt = w.getState(); if (mode == 1 || mode == 2 || cur == S::GOTO) h = 0.f;
    if (mode == 2) sym_assert(nxt == S::GOTO, "leaving the landing mode restarts the sequence");
    else { if (cur == S::GOTO && nxt == S::ALTITUDE_CHANGE) sym_assert(mode == 0 && near_, "the sequence starts at the landing site"); if (cur == S::ALTITUDE_CHANGE && nxt == S::LOITER) { low = level; since = seq; sym_assert(level, "it descends to the loiter height first"); } if (cur == S::LOITER && nxt == S::LOITER) h = 0.5f * h + 0.5f * (flat ? 1.f : 0.f); if (cur == S::LOITER && nxt == S::EVALUATE_GRID) { sym_assert(seq - since > 20, "after observing the ground"); accepted = h > 0.4f; } if (nxt == S::GOTO_LAND && cur != nxt) sym_assert(cur == S::EVALUATE_GRID && accepted && low, "and the ground being judged landable"); if (cur == S::EVALUATE_GRID && !accepted) sym_assert(nxt == S::GOTO, "a rejected site is not landed on"); if (nxt == S::LAND) sym_assert((cur == S::LAND) || (cur == S::GOTO_LAND && accepted && low && near_), "landing is the end of the sequence"); }
    if (nxt == S::GOTO || nxt == S::ALTITUDE_CHANGE) accepted = low = false; cur = nxt;
  }
  if (cur == S::LAND) sym_cover("landed"); sym_cover("end");
}
//@ time=60
HARNESS C29_modes() {
  WaypointGeneratorNode n((ros::NodeHandle(""))); WaypointGenerator& w = n.waypointGenerator_; static const char* M[] = {"AUTO.LAND", "AUTO.MISSION", "AUTO.RTL", "OFFBOARD", "AUTO.LOITER", "MANUAL", ""}; int k = sym_concretize(sym_i32("mode", 0, 6)); mavros_msgs::State m; m.mode = M[k]; m.armed = sym_fork(sym_bool("armed")); bool l0 = sym_bool("land0"), t0 = sym_bool("reset0"); w.is_land_waypoint_ = l0; w.trigger_reset_ = t0; n.stateCallback(m);
  bool off = !m.armed | (k > 1); sym_assert(w.is_land_waypoint_ == (off ? false : k == 0 ? true : l0), "landing is wanted in the landing mode, and in a mission as the mission says"); sym_assert(w.trigger_reset_ == (off | t0), "leaving the landing mode or disarming restarts the sequence"); sym_cover("end");
}
//@ time=120 args=--reals
HARNESS C29_goals() {
  WaypointGeneratorNode n((ros::NodeHandle(""))); WaypointGenerator& w = n.waypointGenerator_; bool had = sym_fork(sym_bool("had_goal")); Eigen::Vector3f g0(3.f, -4.f, 12.f); w.goal_ = had ? g0 : Eigen::Vector3f(NAN, NAN, 5.f); bool l0 = sym_bool("land0"); w.is_land_waypoint_ = l0; w.velocity_setpoint_ = Eigen::Vector3f(1.f, 1.f, 1.f); w.yaw_setpoint_ = 0.25f; n.goal_visualization_ = Eigen::Vector3f(30.f, 40.f, 50.f); mavros_msgs::Trajectory m; float d = sym_f32("d", -100.f, 100.f); sym_assume((d < -0.011f) | (d > 0.011f) | ((d > -0.009f) & (d < 0.009f))); m.point_2.position.x = 30.; m.point_2.position.y = 40. + d; m.point_2.position.z = 50.; m.point_1.position.x = sym_f32("x", -500.f, 500.f); m.point_1.position.y = 2.; m.point_1.position.z = 3.; m.point_1.velocity.x = sym_f32("v", -5.f, 5.f); m.point_1.velocity.y = NAN; m.point_1.velocity.z = 0.5; int c = sym_i32("cmd", 0, 65535); m.command = {0, (uint16_t)c, 0, 0, 0}; bool v1 = sym_fork(sym_bool("v1")), v2 = sym_fork(sym_bool("v2")); m.point_valid = {v1, v2, false, false, false}; m.point_2.yaw = 1.5f; m.point_2.yaw_rate = 0.125f; n.trajectoryCallback(m);
  bool take = v1 & ((std::fabs(d) > 0.01f) | !had); sym_assert(take ? (w.goal_.x() == (float)m.point_1.position.x) & (w.goal_.y() == 2.f) & (w.goal_.z() == 3.f) : had ? w.goal_ == g0 : std::isnan(w.goal_.x()), "a new landing site is taken over exactly when it is new"); sym_assert(w.is_land_waypoint_ == (take ? c == 21 : l0), "with its kind"); sym_assert(take ? (w.velocity_setpoint_.x() == (float)m.point_1.velocity.x) & std::isnan(w.velocity_setpoint_.y()) : w.velocity_setpoint_.x() == 1.f, "and speed"); sym_assert(v2 ? (w.yaw_setpoint_ == 1.5f) & (w.yaw_speed_setpoint_ == 0.125f) & (n.goal_visualization_.y() == (float)m.point_2.position.y) : (w.yaw_setpoint_ == 0.25f) & (n.goal_visualization_.y() == 40.f), "and heading"); sym_cover("end");
}
