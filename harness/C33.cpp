//! src=gp/library/cell.cpp,gp/library/node.cpp,gp/library/global_planner.cpp cflags=-fwrapv
//# search layouts: every combination of legal and illegal cells of a 3x3x1 and a 3x2x2 box (thorough: 4x3x1) (everything outside illegal), every node type, iteration limits 0..4 and unlimited, goal radius 1 and 3; concrete step costs, symbolic heuristic in its own entry
//# cheapest path: 2x2 box with any step costs in [0,100] and a heuristic of zero, real-number arithmetic
//# planner entries: octree stand-in answering per cell
#include "global_planner/global_planner.h"
#include "sym.h"
#include <cmath>
using namespace global_planner;
static char nm[1024][12];
static const char* nam(const char* b, int k) { static int c = 0; char* s = nm[c++ % 1024]; int i = 0; while (b[i]) { s[i] = b[i]; i++; } if (k > 99) s[i++] = '0' + k / 100; if (k > 9) s[i++] = '0' + k / 10 % 10; s[i++] = '0' + k % 10; s[i] = 0; return s; }
static Cell mk(int x, int y, int z) { return Cell(std::tuple<int, int, int>(x, y, z)); }
struct Box {  // stands for the planner: which cells may be entered, and what a step costs
  int W, H, D; int ok[64]; double risk[64]; bool cheap = true, free_h = false; const double* edge = nullptr; int asked = 0; int max_iterations_ = 1000; double risk_factor_ = 1., max_cell_risk_ = 0.5, up_cost_ = 3., overestimate_factor_ = 1.; std::unordered_map<Cell, double> bubble_risk_cache_;
  Box(int w, int h, int d) : W(w), H(h), D(d) { for (int i = 0; i < 64; i++) ok[i] = -1, risk[i] = 0; }
  int at(const Cell& c) const { int x = c.xIndex(), y = c.yIndex() + 1, z = c.zIndex() - 1; return x < 0 || y < 0 || z < 0 || x >= W || y >= H || z >= D ? -1 : (z * H + y) * W + x; }
  bool legal(const Cell& c) { int i = at(c); if (i < 0) return false; if (ok[i] < 0) ok[i] = sym_concretize(sym_i32(nam("legal", i), 0, 1)); return ok[i]; }
  bool isLegal(const Node& n) { return legal(n.cell_); }
  double getRisk(const Cell& c) { return legal(c) ? 0.1 : 0.9; }
  double getEdgeCost(const Node& u, const Node& v) { int i = at(v.cell_); if (edge) return edge[at(u.cell_) * 4 + i]; double d = cheap ? u.cell_.distance3D(v.cell_) + 0.25 * u.getRotation(v) : 0.; return d + (i < 0 ? 0. : risk[i]); }
  double getHeuristic(const Node& u, const Cell& t) { if (free_h) return sym_f64(nam("h", asked++), 0., 10.); return cheap ? u.cell_.distance3D(t) : 0.; }
  void getOpenNeighbors(const Cell& c, std::vector<CellDistancePair>& n, bool is3d) { for (auto& q : c.getNeighbors()) if (is3d || q.zIndex() == c.zIndex()) n.push_back(std::make_pair(q, 1.)); }
};
struct Count { int pops = 0; void init() { pops = 0; } template <class N> void popNode(N) { pops++; } template <class N> void perNeighbor(N, N) {} };
static bool offered(const NodePtr& n, const Cell& c) { for (auto& q : n->getNeighbors()) if (q->cell_ == c) return true; return false; }
static bool reachable(Box& b, const NodePtr& s, const GoalCell& t) {  // does any sequence of offered legal steps end at the goal?
  std::vector<NodePtr> todo{s}; std::unordered_set<NodePtr, HashNodePtr, EqualsNodePtr> seen; while (!todo.empty()) { NodePtr u = todo.back(); todo.pop_back(); if (!seen.insert(u).second) continue; if (t.withinPlanRadius(u->cell_)) return true; for (auto& v : u->getNeighbors()) if (b.isLegal(*v)) todo.push_back(v); } return false;
}
static void judge(Box& b, const SearchInfo& r, const std::vector<Cell>& path, const NodePtr& s, const GoalCell& t, int limit) {
  sym_assert(r.num_iter >= 0 && r.num_iter <= limit, "the iteration budget is kept");
  if (r.found_path) {
    bool ok = path.size() >= 2 && path[0] == s->parent_ && path[1] == s->cell_; sym_assert(ok, "starts at the start, after its predecessor"); sym_assert(t.withinPlanRadius(path.back()), "ends at the goal"); NodePtr n = s; bool con = true, leg = true, once = true; for (size_t i = 2; i < path.size(); i++) { con = con && offered(n, path[i]); n = n->nextNode(path[i]); leg = leg && b.isLegal(*n); for (size_t j = 2; j < i; j++) once = once && !(path[i] == path[j] && path[i - 1] == path[j - 1]); } sym_assert(con, "connected"); sym_assert(leg, "never enters a cell that may not be entered"); sym_assert(once, "no step twice"); sym_cover("found");
  } else { sym_assert(path.empty(), "no path without success"); sym_assert(r.num_iter == limit || !reachable(b, s, t), "fails only without budget or way"); sym_cover("failed"); }
}
static void layout(int kind, int W, int H, int D, int limit, double radius) {
  Box b(W, H, D); Cell s0 = mk(0, -1, 1), t0 = mk(W - 1, H - 2, D); GoalCell t(t0, radius); Cell p0 = kind == 2 ? mk(-1, -1, 1) : s0; NodePtr s(kind == 0 ? new Node(s0, p0) : kind == 1 ? (Node*)new NodeWithoutSmooth(s0, p0) : new SpeedNode(s0, p0)); std::vector<Cell> path; Count v; SearchInfo r = findSmoothPath(&b, path, s, t, limit, v); sym_assert(v.pops <= limit, "no more nodes are expanded than the budget allows"); judge(b, r, path, s, t, limit);
}
static void old(int W, int H, int D, bool d3) {
  Box b(W, H, D); Cell s = mk(0, -1, 1), t = mk(W - 1, H - 2, D); b.max_iterations_ = sym_concretize(sym_i32("limit", 0, 2)) * 3; if (b.max_iterations_ == 6) b.max_iterations_ = 1000; if (!b.ok[0]) b.ok[0] = 1; std::vector<Cell> path; bool f = findPathOld(&b, path, s, t, mk(-1, -1, 1), d3);
  if (f) { sym_assert(path.size() >= 2 && path[0] == mk(-1, -1, 1) && path[1] == s && path.back() == t, "from start to goal"); bool con = true, leg = true; for (size_t i = 2; i < path.size(); i++) { bool n = false; for (auto& q : path[i - 1].getNeighbors()) n = n || q == path[i]; con = con && n; leg = leg && (path[i] == t || b.legal(path[i])); } sym_assert(con, "connected"); sym_assert(leg, "never enters a cell that may not be entered, unless it is the goal"); sym_cover("found"); }
  else { sym_assert(path.empty(), "no path without success"); if (b.max_iterations_ == 1000) { bool on[64] = {}; on[0] = true; for (int k = 0; k < W * H * D; k++) for (int z = 0; z < D; z++) for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { Cell c = mk(x, y - 1, z + 1); if (on[b.at(c)] && (b.at(c) == 0 || b.legal(c))) for (auto& q : c.getNeighbors()) if (b.at(q) >= 0 && (d3 || q.zIndex() == c.zIndex()) && (b.legal(q) || q == t)) on[b.at(q)] = true; } sym_assert(!on[b.at(t)], "fails only when the goal is unreachable"); } sym_cover("failed"); }
}
//@ time=200
HARNESS C33_layout() { layout(0, 3, 3, 1, 1000, 1.); }
//@ time=200
HARNESS C33_layout_cells() { layout(1, 3, 2, 2, 1000, 1.); }
//@ time=200
HARNESS C33_layout_speed() { layout(2, 3, 3, 1, 1000, 1.); }
//@ time=800 tier=thorough
HARNESS C33_layout_long() { layout(0, 4, 3, 1, 1000, 1.); }
//@ time=800 tier=thorough
HARNESS C33_layout_cells_long() { layout(1, 3, 2, 2, 1000, 3.); }
//@ time=800 tier=thorough
HARNESS C33_layout_speed_long() { layout(2, 4, 3, 1, 1000, 1.); }
//@ time=200
HARNESS C33_radius() { layout(sym_concretize(sym_i32("kind", 0, 2)), 3, 2, 1, 1000, 3.); }
//@ time=200
HARNESS C33_budget() { layout(sym_concretize(sym_i32("kind", 0, 2)), 3, 2, 1, sym_concretize(sym_i32("limit", 0, 4)), 1.); }
//@ time=300 args=--reals
HARNESS C33_heuristic() {  // whatever the heuristic says
  Box b(2, 2, 1); b.free_h = true; Cell s0 = mk(0, -1, 1); GoalCell t(mk(1, 0, 1)); NodePtr s(new NodeWithoutSmooth(s0, s0)); b.ok[0] = b.ok[3] = 1; std::vector<Cell> path; SearchInfo r = findSmoothPath(&b, path, s, t, 50); judge(b, r, path, s, t, 50);
}
//@ time=300 args=--reals
HARNESS C33_cheapest() {  // with a heuristic that never overestimates the path is a cheapest one
  Box b(2, 2, 1); b.cheap = false; for (int i = 0; i < 4; i++) { b.ok[i] = 1; b.risk[i] = sym_f64(nam("cost", i), 0., 100.); } b.ok[sym_concretize(sym_i32("blocked", 1, 3))] = 0; b.ok[3] = 1; Cell s0 = mk(0, -1, 1); GoalCell t(mk(1, 0, 1)); NodePtr s(new NodeWithoutSmooth(s0, s0)); std::vector<Cell> path; SearchInfo r = findSmoothPath(&b, path, s, t, 50); sym_assert(r.found_path, "found"); double c = 0; for (size_t i = 2; i < path.size(); i++) c += b.risk[b.at(path[i])]; sym_assert(c <= b.risk[3] + 1e-9, "not dearer than the direct way"); sym_cover("end");
}
//@ time=300 args=--reals
HARNESS C33_cheapest_edges() {  // every step with a cost of its own
  Box b(2, 2, 1); b.cheap = false; double e[16]; for (int i = 0; i < 16; i++) e[i] = i % 5 && i % 4 && i < 12 ? sym_f64(nam("edge", i), 0., 100.) : 0.; b.edge = e; for (int i = 0; i < 4; i++) b.ok[i] = 1; Cell s0 = mk(0, -1, 1); GoalCell t(mk(1, 0, 1)); NodePtr s(new NodeWithoutSmooth(s0, s0)); std::vector<Cell> path; SearchInfo r = findSmoothPath(&b, path, s, t, 50); sym_assert(r.found_path, "found"); double c = 0; for (size_t i = 2; i < path.size(); i++) c += e[b.at(path[i - 1]) * 4 + b.at(path[i])];
  sym_assert((c <= e[3] + 1e-9) & (c <= e[1] + e[7] + 1e-9) & (c <= e[2] + e[11] + 1e-9) & (c <= e[1] + e[6] + e[11] + 1e-9) & (c <= e[2] + e[9] + e[7] + 1e-9), "no other way is cheaper"); sym_cover("end");
}
//@ time=300 args=--reals
HARNESS C33_cheapest_line() {  // two ways around, by their costs
  Box b(3, 2, 1); b.cheap = false; for (int i = 0; i < 6; i++) { b.ok[i] = 1; b.risk[i] = 1.; } b.ok[4] = b.ok[1] = 1; double u = b.risk[1] = sym_f64("lower", 0., 100.), v = b.risk[4] = sym_f64("upper", 0., 100.); sym_assume(std::fabs(u - v) > 1e-3); Cell s0 = mk(0, -1, 1); GoalCell t(mk(2, -1, 1)); NodePtr s(new NodeWithoutSmooth(s0, s0)); std::vector<Cell> path; SearchInfo r = findSmoothPath(&b, path, s, t, 50); sym_assert(r.found_path, "found"); double c = 0; for (size_t i = 2; i < path.size(); i++) c += b.risk[b.at(path[i])]; sym_assert((c <= 1. + u + 1e-9) & (c <= 1. + v + 1e-9), "the cheaper way"); sym_cover("end");
}
//@ time=200
HARNESS C33_flat_search() { old(3, 3, 1, false); }
//@ time=200
HARNESS C33_simple_search() { old(2, 2, 2, true); }
//@ time=200
HARNESS C33_detour() {  // the last resort: up, across at the given altitude, down
  Box b(2, 2, 3); Cell s = mk(0, -1, 1), t = mk(1, 0, 1); b.ok[0] = 1; b.ok[b.at(mk(0, -1, 3))] = b.ok[b.at(mk(1, 0, 3))] = 1; std::vector<Cell> path; bool f = find2DPath(&b, path, s, t, s, 3.);
  if (f) { sym_assert(path.size() > 3 && path[0] == s && path.back() == t, "from start to goal"); bool con = true, leg = true; int top = 0; for (size_t i = 1; i < path.size(); i++) { bool n = path[i] == path[i - 1]; for (auto& q : path[i - 1].getNeighbors()) n = n || q == path[i]; con = con && n; leg = leg && (path[i] == t || path[i] == s || b.legal(path[i])); top = std::max(top, path[i].zIndex()); } sym_assert(con, "connected"); sym_assert(leg, "never enters a cell that may not be entered"); sym_assert(top == 3, "by the given altitude"); sym_cover("found"); }
  else { sym_assert(path.empty(), "no path without success"); sym_cover("failed"); }
}
static octomap::OcTree* tree(std::function<octomap::OcTreeNode*(double, double, double, unsigned)> f) { octomap::OcTree* t = new octomap::OcTree(1.0); t->f = f; return t; }
static octomap::OcTreeNode FREE, WALL;
//@ time=300 args=--reals
HARNESS C33_cost() {  // the reported cost of a path is the sum of its steps' costs, also when the path pauses at a cell
  GlobalPlanner g; g.setRobotRadius(0.5); FREE.v = -2.f; WALL.v = 3.f; int ox = sym_concretize(sym_i32("wall", 0, 3)); g.updateFullOctomap(tree([ox](double x, double y, double z, unsigned) { return std::floor(x) == ox && std::floor(y) == 0 ? &WALL : &FREE; })); g.curr_pos_.x = 0.5; g.curr_pos_.y = 0.5; g.curr_pos_.z = 3.5; g.curr_vel_.x = sym_concretize(sym_i32("fast", 0, 1)) ? 2. : 0.; g.curr_vel_.y = g.curr_vel_.z = 0;
  g.smooth_factor_ = sym_f64("smooth", 0., 100.); g.risk_factor_ = sym_f64("riskf", 0., 1000.); g.up_cost_ = sym_f64("up", 0., 10.); g.down_cost_ = sym_f64("down", 0., 10.); g.max_cell_risk_ = sym_f64("maxrisk", 0., 1.);
  std::vector<Cell> path{mk(-1, 0, 3), mk(0, 0, 3)}; static const int M[][3] = {{1, 0, 0}, {0, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, -1, 0}, {0, 0, -1}}; for (int i = 0; i < 2; i++) { const int* m = M[sym_concretize(sym_i32(nam("move", i), 0, 5))]; path.push_back(path.back() + mk(m[0], m[1], m[2])); } sym_merge(0);
  PathInfo p = g.getPathInfo(path); double cost = 0, dist = 0, risk = 0, sm = 0; bool blocked = false; for (size_t i = 2; i < path.size(); i++) { Node a(path[i - 1], path[i - 2]), c(path[i], path[i - 1]); double hor = std::hypot(path[i].xIndex() - path[i - 1].xIndex(), path[i].yIndex() - path[i - 1].yIndex()); int up = path[i].zIndex() - path[i - 1].zIndex(); double d = hor + (up > 0 ? g.up_cost_ * up : -g.down_cost_ * up), r = g.risk_factor_ * g.getRisk(c), t = a.getRotation(c); t = g.smooth_factor_ * t * t; dist += d; risk += r; sm += t; cost += d + r + t * (g.curr_vel_.x > 1. ? 2 : 1); blocked = blocked | (g.getRisk(c) > g.max_cell_risk_); sym_assert(std::isfinite(r), "the risk of every step is finite"); sym_assume(std::fabs(g.getRisk(c) - g.max_cell_risk_) > 1e-6); sym_assert(g.isLegal(c) == (path[i].zIndex() + 0.5 < g.max_altitude_ && g.getRisk(c) < g.max_cell_risk_), "legal below the altitude and risk limits"); }
  sym_assert(std::fabs(p.cost - cost) < 1e-6, "cost"); sym_assert((std::fabs(p.dist - dist) < 1e-6) & (std::fabs(p.risk - risk) < 1e-6) & (std::fabs(p.smoothness - sm) < 1e-6), "its parts"); sym_assert(p.is_blocked == blocked, "blocked when a step is too risky"); sym_cover("end");
}
//@ time=300
HARNESS C33_planner() {  // the whole planner in a corridor with one wall cell anywhere
  GlobalPlanner g; g.setRobotRadius(0.5); FREE.v = -3.f; WALL.v = 3.f; g.neighbor_risk_flow_ = 0.; int w = sym_concretize(sym_i32("wall", 0, 7)); static const int WX[] = {9, 1, 2, 1, 0, 2, 2, 1}, WY[] = {9, 0, 0, 1, 0, 1, -1, 99}; g.updateFullOctomap(tree([w](double x, double y, double z, unsigned) { return (std::floor(x) == WX[w] && (std::floor(y) == WY[w] || w == 7)) || std::fabs(y) > 2.5 || x < -1 || x > 4 ? &WALL : &FREE; })); g.max_altitude_ = 4; g.min_altitude_ = 3; g.curr_pos_.x = 0.5; g.curr_pos_.y = 0.5; g.curr_pos_.z = 3.5; g.curr_vel_.x = g.curr_vel_.y = g.curr_vel_.z = 0.; static const char* T[] = {"Node", "NodeWithoutSmooth", "SpeedNode"}; g.default_node_type_ = T[sym_concretize(sym_i32("type", 0, 2))]; static const int L[] = {0, 3, 60}; g.max_iterations_ = L[sym_concretize(sym_i32("limit", 0, 2))]; g.setGoal(GoalCell(2.5, 0.5, 3.5)); Cell s = mk(0, 0, 3), t = mk(2, 0, 3);
  bool ok = g.getGlobalPath(); bool sb = w == 4, tb = w == 2; sym_assert(g.current_cell_blocked_ == sb, "the vehicle's cell is checked"); if (sb || tb) { sym_assert(!ok, "no path from or to an occupied cell"); sym_assert(g.goal_is_blocked_ == tb, "a blocked goal is reported"); sym_cover("blocked"); return; }
  if (!ok) { sym_assert(g.curr_path_.empty() && g.goal_is_blocked_, "failure is reported"); sym_assert(w == 7, "fails only when there is no way"); sym_cover("failed"); return; } const std::vector<Cell>& p = g.curr_path_; sym_assert(p.size() >= 2 && p[1] == s && p.back() == t, "from the vehicle to the goal"); bool leg = true; for (size_t i = 2; i < p.size(); i++) { Node n(p[i], p[i - 1]); leg = leg && (p[i] == p[i - 1] || g.isLegal(n) || (g.max_iterations_ < 60 && g.getRisk(p[i]) <= g.max_cell_risk_)); } sym_assert(leg, "every step is legal"); sym_assert(std::isfinite(g.curr_path_info_.cost) && g.curr_path_info_.cost >= 0, "finite cost"); sym_assert(!g.curr_path_info_.is_blocked, "not blocked"); sym_cover("found");
}
