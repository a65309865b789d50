//! src=gp/library/cell.cpp,gp/library/node.cpp,gp/library/global_planner.cpp cflags=-fwrapv
//# start: positions and velocities along x ([0,1) m, 1.5 m/s) and search times in [0,1] s symbolic, with and without the current yaw, free space
//# ending: every combination of least (1, 1.03, 1.5) and largest (1, 2, 5) overestimation, budget (0, 1, 20) and node type, vehicle in the goal's radius, next to it, or shut in; a run that exceeds the instruction limit is a violation when the native run does not end either
//# estimates: all cells with index differences of 0..3, -2..2, -2..2 and all their neighbours, cell sizes 0.5, 1, 2; costs of climbing and descending, weights and overestimation symbolic; real-number arithmetic
#include "global_planner/global_planner.h"
#include "sym.h"
#include <cmath>
using namespace global_planner;
static Cell mk(int x, int y, int z) { return Cell(std::tuple<int, int, int>(x, y, z)); }
static octomap::OcTree* tree(std::function<octomap::OcTreeNode*(double, double, double, unsigned)> f) { octomap::OcTree* t = new octomap::OcTree(1.0); t->f = f; return t; }
static octomap::OcTreeNode FREE, WALL;
static const char* TYPE[] = {"Node", "NodeWithoutSmooth", "SpeedNode"};
static void still(GlobalPlanner& g, double x, double y, double z) { g.curr_pos_.x = x; g.curr_pos_.y = y; g.curr_pos_.z = z; g.curr_vel_.x = g.curr_vel_.y = g.curr_vel_.z = 0.; g.setRobotRadius(0.5); g.neighbor_risk_flow_ = 0.; FREE.v = -3.f; WALL.v = 3.f; g.max_altitude_ = 4; g.min_altitude_ = 3; }
static void estimates(double scale) {
  CELL_SCALE = scale; GlobalPlanner g; still(g, 500.5, 0.5, 3.5); g.updateFullOctomap(tree([](double, double, double, unsigned) { return &FREE; })); g.use_risk_heuristics_ = g.use_speedup_heuristics_ = false; g.smooth_factor_ = g.risk_factor_ = 0.; g.overestimate_factor_ = 1.; g.up_cost_ = sym_f64("up", 0., 10.); g.down_cost_ = sym_f64("down", 0., 10.); sym_merge(0); Cell goal = mk(1, 2, 6);
  int dx = sym_concretize(sym_i32("dx", 0, 3)); for (int dy = -2; dy <= 2; dy++) for (int dz = -2; dz <= 2; dz++) {
    Cell c = mk(1 - dx, 2 - dy, 6 - dz); Node u(c, c); double h = g.getHeuristic(u, goal); if (c == goal) { sym_assert(std::fabs(h) < 1e-9, "nothing left at the goal"); continue; } bool never = true, reached = false; for (auto& n : c.getNeighbors()) { Node v(n, c); double by = g.getEdgeCost(u, v) + g.getHeuristic(v, goal); never = never & (h <= by + 1e-6); reached = reached | (h >= by - 1e-6); } sym_assert(never, "the estimate never exceeds the cost of a way by any neighbour"); sym_assert(reached, "and is met by the straight way");
  }
}
//@ time=120 args=--reals
HARNESS C45_start() {  // planning takes time: the search starts where the vehicle will be, coming from where it was
  GlobalPlanner g; still(g, 0, 0.5, 3.5); g.updateFullOctomap(tree([](double x, double y, double z, unsigned) { return std::fabs(y - 1.) > 1.4 ? &WALL : &FREE; })); double p = sym_f64("position", 0., 0.999), v = sym_f64("velocity", -1.5, 1.5), t = sym_f64("time", 0., 1.); g.curr_pos_.x = p; g.curr_vel_.x = v; g.search_time_ = t; g.use_current_yaw_ = sym_fork(sym_bool("yaw")); g.default_node_type_ = TYPE[sym_concretize(sym_i32("type", 0, 1))]; g.max_iterations_ = 0 + 5; double a = p + t * v, b = p - t * v; sym_assume((std::fabs(a) > 1e-6) & (std::fabs(a - 1.) > 1e-6) & (std::fabs(a - 2.) > 1e-6) & (std::fabs(a + 1.) > 1e-6) & (std::fabs(b) > 1e-6) & (std::fabs(b - 1.) > 1e-6) & (std::fabs(b - 2.) > 1e-6) & (std::fabs(b + 1.) > 1e-6));
  int s = sym_concretize((int)std::floor(a)), f = sym_concretize((int)std::floor(b)); sym_assume((p > 1e-6) & (p < 0.998)); g.setGoal(GoalCell(0.5, 0.5, 3.5, 8.)); bool ok = g.getGlobalPath(); sym_assert(ok, "a path is found in free space"); auto& q = g.curr_path_; sym_assert(q.size() >= 2 && q[1] == mk(s, 0, 3), "the search starts where the vehicle will be after the search time"); if (g.use_current_yaw_) { sym_assert(q[0] == mk(f, 0, 3), "in the direction it moves"); sym_cover("direction"); } else { sym_assert(q[0] == q[1], "in any direction when the current one is to be ignored"); sym_cover("any"); }
}
//@ time=200
HARNESS C45_ends() {
  static const double MIN[] = {1., 1.03, 1.5}, MAX[] = {1., 2., 5.}; static const int LIM[] = {0, 1, 20}; GlobalPlanner g; still(g, 0.5, 0.5, 3.5); int shut = sym_concretize(sym_i32("shut", 0, 1)), lim = LIM[sym_concretize(sym_i32("budget", 0, 2))]; g.updateFullOctomap(tree([shut](double x, double y, double z, unsigned) { return shut && !(std::floor(x) == 0 && std::floor(y) == 0) && !(std::floor(x) == 4) ? &WALL : &FREE; }));
  g.min_overestimate_factor_ = MIN[sym_concretize(sym_i32("least", 0, 2))]; g.max_overestimate_factor_ = MAX[sym_concretize(sym_i32("largest", 0, 2))]; g.max_iterations_ = lim; g.default_node_type_ = TYPE[sym_concretize(sym_i32("type", 0, 2))]; int far = sym_concretize(sym_i32("far", 0, 2)); sym_assume(!shut || (far == 2 && lim == 20)); g.setGoal(GoalCell(far == 2 ? 4.5 : far + 0.5, 0.5, 3.5, 1.));
  bool ok = g.getGlobalPath(); sym_assert(g.max_iterations_ == lim, "the configured budget is kept for the next search"); sym_assert(ok == !shut || lim < 20, "a way is found when there is one and the budget allows"); sym_assert(ok == !g.curr_path_.empty(), "and only then"); if (ok) { sym_assert(g.goal_pos_.withinPlanRadius(g.curr_path_.back()), "to the goal"); sym_cover("found"); } else sym_cover("failed"); bool again = g.getGlobalPath(); sym_assert(again == ok, "the next search has the same chance");
}
//@ time=120 args=--reals
HARNESS C45_estimate_half() { estimates(0.5); sym_cover("end"); }
//@ time=120 args=--reals
HARNESS C45_estimate_one() { estimates(1.); sym_cover("end"); }
//@ time=120 args=--reals
HARNESS C45_estimate_two() { estimates(2.); sym_cover("end"); }
//@ time=120 args=--reals
HARNESS C45_estimate_parts() {  // what the estimate is made of
  GlobalPlanner g; still(g, 500.5, 0.5, 3.5); g.updateFullOctomap(tree([](double, double, double, unsigned) { return &FREE; })); double sm = g.smooth_factor_ = sym_f64("smooth", 0., 100.), vh = g.vert_to_hor_cost_ = sym_f64("vertical", 0., 10.), up = g.up_cost_ = sym_f64("up", 0., 10.), dn = g.down_cost_ = sym_f64("down", 0., 10.), o = g.overestimate_factor_ = sym_f64("over", 1., 5.); g.risk_factor_ = sym_f64("risk", 0., 1000.); bool r = g.use_risk_heuristics_ = sym_fork(sym_bool("useRisk")), sp = g.use_speedup_heuristics_ = sym_fork(sym_bool("useVisits")); sym_merge(0);
  static const int M[][3] = {{1, 0, 0}, {0, 1, 0}, {-1, -1, 0}, {0, 0, 1}, {0, 0, -1}}; const int* m = M[sym_concretize(sym_i32("move", 0, 4))]; int dx = sym_concretize(sym_i32("dx", 0, 3)); Cell goal = mk(3, 2, 6);
  for (int dy = -2; dy <= 2; dy += 2) for (int dz = -1; dz <= 1; dz++) {
    Cell c = mk(3 - dx, 2 - dy, 6 - dz); Node u(c, c + mk(-m[0], -m[1], -m[2])); int seen = 3; g.visitor_.seen_count_[c] = seen; double a = std::abs(dx), b = std::abs(dy), flat = a + b + (1.41421356237 - 2) * std::min(a, b), turn = 0; if (dx || dy) { if (!m[0] && !m[1]) turn = vh; else { double q = std::fabs(std::atan2(dy, dx) - std::atan2(m[1], m[0])); if (q > M_PI) q = 2 * M_PI - q; turn = q / (M_PI / 4) + (dz ? 1 : 0); } }
    double want = o * flat + (dz > 0 ? up * dz : -dn * dz) + sm * turn + (r ? g.riskHeuristic(c, goal) : 0.) + (sp ? seen : 0); double h = g.getHeuristic(u, goal); sym_assert(std::fabs(h - want) < 1e-6 * (1. + want), "distance, altitude, turning and, as configured, risk and visits"); sym_assert(h >= -1e-9 && std::isfinite(h), "never negative");
  }
  sym_cover("end");
}
