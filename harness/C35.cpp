//! src=gp/library/cell.cpp,gp/library/node.cpp,gp/library/global_planner.cpp cflags=-fwrapv
//# combination of probabilities: every pair in [0,1], real-number arithmetic
//# cells: altitude index -200..200, cell edge 0.5, 1 and 2 m; map answers: none, or log odds -3.5, -0.4, 0, 0.4 and 3.5 for the cell, its neighbours free, occupied or unknown; any penalty in [0,0.01] and flow in [0,1]; robot radius to map resolution 0.5, 1.5 and 2.5
//# outside the claim: values cached before obstacle points or settings changed (they are recomputed with the next map)
#include "global_planner/global_planner.h"
#include "sym.h"
#include <cmath>
#include <cstring>
#include <new>
using namespace global_planner;
static Cell mk(int x, int y, int z) { return Cell(std::tuple<int, int, int>(x, y, z)); }
static double pr(const char* n) { return sym_f64(n, 0., 1.); }
//@ time=120 args=--reals
HARNESS C35_posterior() { sym_merge(0); double p = pr("p"), q = pr("q"), r = posterior(p, q); sym_assert((r >= 0.) & (r <= 1.), "a probability"); double n = p * q, d = n + (1 - p) * (1 - q) + 0.0001; sym_assert(std::fabs(r * d - n) < 1e-9, "of an obstacle given both"); sym_assert(std::fabs(posterior(q, p) - r) < 1e-9, "in either order"); sym_cover("end"); }
//@ time=120 args=--reals
HARNESS C35_posterior_grows() { sym_merge(0); double p = pr("p"), q = pr("q"), s = pr("more"); sym_assume(s >= p); sym_assert(posterior(s, q) >= posterior(p, q) - 1e-9, "grows with the prior"); sym_assert(posterior(q, s) >= posterior(q, p) - 1e-9, "and the measurement"); sym_cover("end"); }
static double prior(GlobalPlanner& g, double z) { int i = (int)std::round(z), n = (int)g.alt_prior_.size(); return g.alt_prior_[i < 0 ? 0 : i >= n ? n - 1 : i]; }
//@ time=120
HARNESS C35_altitude() { static const double S[] = {0.5, 1.0, 2.0}; CELL_SCALE = S[sym_concretize(sym_i32("scale", 0, 2))]; GlobalPlanner g; int z = sym_i32("z", -200, 200); Cell c = mk(sym_i32("x", -9, 9), 3, z); int k = sym_concretize(z); double a = g.getAltPrior(c); sym_assert(a == prior(g, (k + 0.5) * CELL_SCALE), "the prior of the cell's altitude, clamped to the known range"); sym_assert((a >= 0.) & (a <= 1.), "a probability"); sym_cover("end"); }
//@ time=120
HARNESS C35_accumulated() { GlobalPlanner g; sym_assert(g.accumulated_alt_prior_.size() == g.alt_prior_.size(), "one sum per altitude"); double s = 0; bool ok = true; for (size_t i = 0; i < g.alt_prior_.size(); i++) { s += g.alt_prior_[i]; ok = ok && std::fabs(g.accumulated_alt_prior_[i] - s) < 1e-9; } sym_assert(ok, "sums"); sym_cover("end"); }
struct Map { octomap::OcTreeNode n[8]; int at[3] = {0, 0, 3}; int self = 0, side = 0; int calls = 0; unsigned depth = 0; bool centre = true; };
static const float LO[] = {-3.5f, -0.4f, 0.f, 0.4f, 3.5f};
static octomap::OcTree* tree(Map* m, double res) {  // self/side: 0 unknown, 1..5 the log odds above
  for (int i = 0; i < 5; i++) m->n[i].v = LO[i]; octomap::OcTree* t = new octomap::OcTree(res); t->f = [m](double x, double y, double z, unsigned d) -> octomap::OcTreeNode* { m->calls++; m->depth = d; double s = CELL_SCALE; int i = (int)std::floor(x / s), j = (int)std::floor(y / s), k = (int)std::floor(z / s); m->centre = m->centre && std::fabs(x - (i + 0.5) * s) < 1e-9 && std::fabs(y - (j + 0.5) * s) < 1e-9 && std::fabs(z - (k + 0.5) * s) < 1e-9; bool me = i == m->at[0] && j == m->at[1] && k == m->at[2]; int w = me ? m->self : m->side; return w ? &m->n[w - 1] : nullptr; }; return t;
}
static double single(GlobalPlanner& g, const Cell& c, int w, bool seen) { if (c.zIndex() < 1) return 1.; double a = prior(g, c.zPos()); if (!w) return g.explore_penalty_ * a; double q = 1. - 1. / (1. + std::exp((double)LO[w - 1])); double r = a * q / (a * q + (1 - a) * (1 - q) + 0.0001); return seen || LO[w - 1] > 0 ? r : g.explore_penalty_ * r; }
//@ time=200 args=--reals
HARNESS C35_cell() {
  static const double S[] = {0.5, 1.0, 2.0}; CELL_SCALE = S[sym_concretize(sym_i32("scale", 0, 2))]; GlobalPlanner g; Map m; bool none = sym_concretize(sym_i32("nomap", 0, 1)); m.at[2] = sym_concretize(sym_i32("z", -2, 27)); m.self = sym_concretize(sym_i32("self", 0, 5)); g.explore_penalty_ = sym_f64("penalty", 0., 0.01); if (!none) g.updateFullOctomap(tree(&m, 0.25)); bool seen = sym_concretize(sym_i32("seen", 0, 1)); Cell c = mk(0, 0, m.at[2]); if (seen) g.occupied_.insert(c); double r = g.getSingleCellRisk(c), want = none ? 1. : single(g, c, m.self, seen);
  sym_assert(std::fabs(r - want) < 1e-9, "own risk"); sym_assert((r >= 0.) & (r <= 1.), "a probability"); sym_assume(std::fabs(r - 0.5) > 1e-6); sym_assert(g.isOccupied(c) == (r > 0.5), "occupied when an obstacle is more likely than not"); if (!none && m.at[2] >= 1) sym_assert(m.centre && m.depth == (CELL_SCALE > 1.5 ? 15u : CELL_SCALE > 0.9 ? 16u : 16u), "the map is asked at the cell's centre and size"); sym_cover("end");
}
//@ time=300 args=--reals
HARNESS C35_risk() {
  CELL_SCALE = 1.; GlobalPlanner g; Map m; m.at[2] = sym_concretize(sym_i32("z", -1, 3)); m.self = sym_concretize(sym_i32("self", 0, 5)); m.side = sym_concretize(sym_i32("side", 0, 2)) * 2; static const double R[] = {0.5, 1.5, 2.5}; double rad = R[sym_concretize(sym_i32("radius", 0, 2))]; g.explore_penalty_ = sym_f64("penalty", 0., 0.01); g.neighbor_risk_flow_ = sym_f64("flow", 0., 1.); g.setRobotRadius(rad * 0.5); Cell c = mk(0, 0, m.at[2]); if (sym_concretize(sym_i32("before", 0, 1))) sym_assert(g.getRisk(c) >= 1., "occupied without a map"); g.updateFullOctomap(tree(&m, 0.5)); double own = single(g, c, m.self, false), sum = 0.; int n = (int)std::ceil(rad); std::vector<Cell> f = c.getFlowNeighbors(n); for (auto& q : f) sum += single(g, q, q == c ? m.self : m.side, false); double want = own + g.neighbor_risk_flow_ * sum;
  double r = g.getRisk(c); int calls = m.calls; double again = g.getRisk(c); sym_assert(std::fabs(r - want) < 1e-6, "own risk plus the share of its surroundings within the robot's radius"); sym_assert((r >= own - 1e-9) & (r < 1000.), "finite and not below its own"); sym_assert(again == r, "the same when asked again"); sym_assert(m.calls == calls, "from the cache"); m.self = m.self == 5 ? 1 : 5; g.updateFullOctomap(tree(&m, 0.5)); double own2 = single(g, c, m.self, false); double want2 = own2 + g.neighbor_risk_flow_ * (sum - own + own2); sym_assert(std::fabs(g.getRisk(c) - want2) < 1e-6, "a new map is taken into account"); sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C35_step() {  // the risk of a step: the mean over the cells swept times its length
  GlobalPlanner g; Map m; m.self = sym_concretize(sym_i32("self", 0, 5)); m.side = sym_concretize(sym_i32("side", 0, 2)) * 2; g.explore_penalty_ = sym_f64("penalty", 0., 0.01); g.neighbor_risk_flow_ = sym_f64("flow", 0., 1.); g.setRobotRadius(0.5); g.updateFullOctomap(tree(&m, 1.)); static const int D[][3] = {{0, 0, 0}, {1, 0, 0}, {-1, 1, 0}, {0, 0, 1}, {2, 1, 0}, {0, 0, -1}}; const int* d = D[sym_concretize(sym_i32("step", 0, 5))]; Node n(mk(d[0], d[1], 3 + d[2]), mk(0, 0, 3)); std::unordered_set<Cell> s = n.getCells(); double sum = 0; for (auto& q : s) sum += g.getRisk(q); double l = std::sqrt((double)d[0] * d[0] + d[1] * d[1] + d[2] * d[2]), r = g.getRisk(n); sym_assert(std::fabs(r - (s.empty() ? 0. : sum / s.size() * l)) < 1e-6, "risk of a step"); sym_assert((r >= 0.) & (r < 1000.), "finite"); sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C35_heuristics() {  // estimates are defined at every altitude
  GlobalPlanner g; Map m; m.self = 1; m.side = 1; g.setRobotRadius(0.5); g.explore_penalty_ = 0.005; g.updateFullOctomap(tree(&m, 1.)); static const int Z[] = {-1000, -40, -1, 0, 1, 3, 24, 25, 26, 90, 1000}; int zu = Z[sym_concretize(sym_i32("zu", 0, 10))], zg = Z[sym_concretize(sym_i32("zg", 0, 10))], x = sym_concretize(sym_i32("x", 0, 2)); Cell u = mk(x, 0, zu), t = mk(0, 0, zg); double r = g.riskHeuristic(u, t); sym_assert(std::isfinite(r) & (std::fabs(r) < 1e9), "finite"); int a = std::max(0, std::min(24, zu)), b = std::max(0, std::min(24, zg)); double zr = 7. * 0.005 * g.risk_factor_ * std::fabs(g.accumulated_alt_prior_[a] - g.accumulated_alt_prior_[b]), xr = (x - 1.) * 7. * 0.005 * g.risk_factor_ * prior(g, zu + 0.5); if (!(u == t)) sym_assert(std::fabs(r - (xr + zr + g.getRisk(t) * g.risk_factor_)) < 1e-6, "risk through unknown space to the goal"); else sym_assert(r == 0., "none at the goal"); Node n(u, mk(x - 1, 0, zu)); sym_assert(std::isfinite(g.getHeuristic(n, t)), "finite in total"); sym_cover("end");
}
static double fresh(int fill) { void* b = ::operator new(sizeof(GlobalPlanner)); std::memset(b, fill, sizeof(GlobalPlanner)); GlobalPlanner* g = new (b) GlobalPlanner; g->setRobotRadius(0.5); Cell c = mk(0, 0, 3); sym_assert(g->isOccupied(c) && !g->isLegal(Node(c, mk(1, 0, 3))), "without a map every cell counts as occupied and may not be entered"); return g->getRisk(c); }
//@ time=60
HARNESS C35_no_map() { static const int F[] = {0x40, 0x41, 0xc0, 0xff}; double a = fresh(0), b = fresh(F[sym_concretize(sym_i32("leftover", 0, 3))]); sym_assert(a >= 1., "at least its own share"); sym_assert(a == b, "and nothing depends on what was in memory before"); sym_cover("end"); }
