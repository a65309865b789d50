//! src=lp/nodes/waypoint_generator.cpp,lp/nodes/planner_functions.cpp,avoidance/common.cpp,avoidance/histogram.cpp
//# from every sub-state (freshly entered or not, with any latch left over from before) 2 cycles (thorough 3) of arbitrary inputs: hover request, flight mode (all 8), land/take-off flags, airborne or not, 3 path situations (none, one segment, used up), any vehicle altitude relative to the goal; loitering: 4 cycles with any vehicle positions
//# real-number arithmetic (the conditions are comparisons); vehicle more than a metre from the goal (within it the goal itself is the target)
#include "local_planner/waypoint_generator.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;
#ifdef THOROUGH
static const int K = 3;
#else
static const int K = 2;
#endif
static char nm[128][12];
static const char* nam(const char* b, int k) { static int c = 0; char* s = nm[c++ % 128]; int i = 0; while (b[i]) { s[i] = b[i]; i++; } s[i++] = '0' + k; s[i] = 0; return s; }
struct In { bool loiter, air, land, takeoff; int nav, path; float z; };
struct Ref {  // the decision table
  bool reach, autoLand;
  bool altitude(const In& in, float goalZ) {
    const NavigationState n = (NavigationState)in.nav;
    bool climb = (in.z <= goalZ - 0.8f) & (n == NavigationState::auto_rtl);
    autoLand = (n == NavigationState::auto_land) | ((n == NavigationState::mission) & in.land);
    bool takeoff = (n == NavigationState::auto_takeoff) | ((n == NavigationState::mission) & in.takeoff);
    if (n == NavigationState::offboard) { if (reach) return false; if (in.z >= goalZ) { reach = true; return false; } return true; }
    return takeoff | climb | autoLand;
  }
  PlannerState next(PlannerState s, const In& in, float goalZ) {
    bool path = in.path == 1;
    if (s == PlannerState::TRY_PATH) return in.loiter ? PlannerState::LOITER : altitude(in, goalZ) ? PlannerState::ALTITUDE_CHANGE : path ? PlannerState::TRY_PATH : PlannerState::DIRECT;
    if (s == PlannerState::LOITER) return in.loiter ? PlannerState::LOITER : PlannerState::TRY_PATH;
    if (s == PlannerState::ALTITUDE_CHANGE) return in.loiter ? PlannerState::LOITER : altitude(in, goalZ) ? PlannerState::ALTITUDE_CHANGE : PlannerState::TRY_PATH;
    return path ? PlannerState::TRY_PATH : altitude(in, goalZ) ? PlannerState::ALTITUDE_CHANGE : in.loiter ? PlannerState::LOITER : PlannerState::DIRECT;
  }
};
static const Eigen::Quaternionf Q(1.f, 0.f, 0.f, 0.f);
static void feed(WaypointGenerator& w, const In& in, const Eigen::Vector3f& pos, const Eigen::Vector3f& goal) {
  w.updateState(pos, Q, goal, goal, Eigen::Vector3f(1.f, 0.f, 0.f), in.loiter, in.air, (NavigationState)in.nav, in.land, in.takeoff, Eigen::Vector3f(NAN, NAN, NAN));
  avoidanceOutput o; o.cruise_velocity = 2.f; o.last_path_time = stub::now();
  if (in.path == 1) { o.path_node_positions.push_back(pos + Eigen::Vector3f(0.f, 2.f, 0.f)); o.path_node_positions.push_back(pos); }
  if (in.path == 2) { for (int i = 3; i--;) o.path_node_positions.push_back(pos + Eigen::Vector3f(0.f, 0.5f * i, 0.f)); o.last_path_time = stub::now() - ros::Duration(2.0); }
  w.setPlannerInfo(o);
}
static In input(int k, bool symNav) {
  In in; in.loiter = sym_bool(nam("loiter", k)); in.air = true; in.land = sym_bool(nam("land", k)); in.takeoff = sym_bool(nam("takeoff", k)); in.nav = sym_i32(nam("nav", k), 0, 7); in.z = sym_f32(nam("z", k), 0.f, 30.f);
  in.path = sym_concretize(sym_i32(nam("path", k), 0, 2)); return in;
}
static void table(PlannerState s0) {
  WaypointGenerator w; stub::now() = ros::Time(1000, 0); Ref r; w.m_currentState = s0; w.state_changed_ = sym_bool("changed"); w.reach_altitude_offboard_ = r.reach = sym_fork(sym_bool("reached")); w.hover_position_ = Eigen::Vector3f(1.f, 2.f, 3.f); w.yaw_reach_height_rad_ = 0.5f; w.change_altitude_pos_ = Eigen::Vector3f(1.f, 1.f, 1.f);
  w.smoothed_goto_location_ = Eigen::Vector3f(0.f, 0.f, 5.f); PlannerState cur = s0; int pending = 0;
  for (int k = 0; k < K; k++) {
    In in = input(k, true); Eigen::Vector3f goal(40.f, 0.f, 15.f), pos(k * 0.5f, 0.f, in.z); if (k == 0) { in.air = sym_fork(sym_bool("airborne")); if (!in.air) r.reach = false; }
    (void)sym_fork(in.loiter);
    feed(w, in, pos, goal); stub::now() += ros::Duration(0.1); waypointResult o = w.getWaypoints();
    PlannerState want = r.next(cur, in, 15.f), got = w.getState();
    sym_assert(got == want, "the next sub-state is the decision table's"); sym_assert(o.waypoint_type == got, "the waypoint says which sub-state is in force");
    sym_assert(w.reach_altitude_offboard_ == r.reach, "the reached-altitude latch");
    pending = in.loiter ? pending + 1 : 0; sym_assert((pending < 2) | (got == PlannerState::LOITER), "a requested hover is entered at the latest on the second cycle");
    sym_assert((pending < 1) | (cur != PlannerState::LOITER) | (got == PlannerState::LOITER), "loiter is not left while a hover is requested"); sym_assert((in.loiter) | (cur != PlannerState::LOITER) | (got != PlannerState::LOITER), "loiter is left once the hover is withdrawn");
    sym_assert((got != PlannerState::TRY_PATH) | (cur != PlannerState::TRY_PATH) | (in.path == 1), "path following goes on only with a path");
    cur = want;
  }
  sym_cover("end");
}
//@ time=300 args=--reals
HARNESS C21_from_try_path() { sym_merge(0); table(PlannerState::TRY_PATH); }
//@ time=300 args=--reals
HARNESS C21_from_altitude() { sym_merge(0); table(PlannerState::ALTITUDE_CHANGE); }
//@ time=300 args=--reals
HARNESS C21_from_loiter() { sym_merge(0); table(PlannerState::LOITER); }
//@ time=300 args=--reals
HARNESS C21_from_direct() { sym_merge(0); table(PlannerState::DIRECT); }
static void quiet(In& in) { in.air = true; in.land = in.takeoff = false; in.nav = (int)NavigationState::mission; in.path = 0; in.z = 0.f; }
//@ time=200 args=--reals
HARNESS C21_loiter_position() {  // hover requested in flight: the target is the position held on entry, whatever the vehicle does afterwards
  WaypointGenerator w; stub::now() = ros::Time(1000, 0); int s0 = sym_concretize(sym_i32("state", 0, 3)); w.m_currentState = (PlannerState)s0; w.state_changed_ = s0 != (int)PlannerState::LOITER || sym_fork(sym_bool("changed"));
  bool known = s0 == (int)PlannerState::LOITER && !w.state_changed_ && sym_fork(sym_bool("known")); Eigen::Vector3f held(3.f, -4.f, 9.f), goal(200.f, 0.f, 15.f); if (known) w.hover_position_ = held; w.auto_land_ = sym_fork(sym_bool("landing_before")); w.output_.smoothed_goto_position = Eigen::Vector3f(9.f, 9.f, 0.f); bool inside = s0 == (int)PlannerState::LOITER, have = known;
  for (int k = 0; k < 4; k++) {
    In in; quiet(in); in.loiter = true; Eigen::Vector3f pos(sym_f32(nam("x", k), -20.f, 20.f), sym_f32(nam("y", k), -20.f, 20.f), sym_f32(nam("z", k), 0.f, 20.f));
    w.smoothing_speed_xy_ = 0.f; feed(w, in, pos, goal); stub::now() += ros::Duration(0.1); waypointResult o = w.getWaypoints();
    if (inside) { if (!have) { held = pos; have = true; } sym_assert(o.goto_position == held, "while loitering the target stays the position held on entry"); sym_assert(o.position_wp == o.adapted_goto_position, "the commanded position leads to it"); }
    inside = w.getState() == PlannerState::LOITER;
  }
  sym_assert(inside & have, "the hover is entered"); sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C21_loiter_again() {  // hover withdrawn and requested again: a new position is captured
  WaypointGenerator w; stub::now() = ros::Time(1000, 0); w.smoothing_speed_xy_ = 0.f; In in; quiet(in); Eigen::Vector3f goal(200.f, 0.f, 15.f), a(1.f, 2.f, 3.f), b(sym_f32("x", -20.f, 20.f), sym_f32("y", -20.f, 20.f), 5.f), c(sym_f32("x2", -20.f, 20.f), sym_f32("y2", -20.f, 20.f), 6.f);
  auto go = [&](bool l, const Eigen::Vector3f& p) { in.loiter = l; feed(w, in, p, goal); stub::now() += ros::Duration(0.1); return w.getWaypoints(); };
  go(true, a); sym_assert(go(true, b).goto_position == a, "held"); go(false, b); sym_assert(w.getState() == PlannerState::TRY_PATH, "left when withdrawn"); go(true, b); sym_assert(w.getState() == PlannerState::LOITER, "entered when requested");
  sym_assert(go(true, c).goto_position == c, "the position on entry is captured anew"); sym_assert(go(true, a).goto_position == c, "and held"); sym_cover("end");
}
//@ time=60
HARNESS C21_start() { WaypointGenerator w; sym_assert(w.getState() == PlannerState::LOITER, "the planner starts loitering"); w.trigger_reset_ = true; w.m_currentState = PlannerState::DIRECT; stub::now() = ros::Time(1000, 0); In in; quiet(in); in.loiter = false; feed(w, in, Eigen::Vector3f(0.f, 0.f, 0.f), Eigen::Vector3f(9.f, 0.f, 0.f)); w.getWaypoints(); sym_assert(w.getState() == PlannerState::LOITER, "a reset leads to loiter"); sym_cover("end"); }
//@ time=60
HARNESS C21_table() {  // the transition table itself
  WaypointGenerator w; int s = sym_concretize(sym_i32("s", 0, 3)), t = sym_concretize(sym_i32("t", 1, 5)); typedef PlannerState P;
  static const P T[4][4] = {{P::ALTITUDE_CHANGE, P::DIRECT, P::LOITER, P::LOITER}, {P::TRY_PATH, P::LOITER, P::LOITER, P::LOITER}, {P::TRY_PATH, P::LOITER, P::LOITER, P::LOITER}, {P::TRY_PATH, P::ALTITUDE_CHANGE, P::LOITER, P::LOITER}};
  P n = w.chooseNextState((P)s, (usm::Transition)t); sym_assert(n == (t == 5 ? P::LOITER : T[s][t - 1]), "the transition table"); sym_assert(w.state_changed_, "a transition is noted"); sym_cover("end");
}
