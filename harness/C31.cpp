//! src=gp/library/cell.cpp cflags=-fwrapv
//# positions within 1e5 m of the origin; cell edge 0.5, 1 and 2 m in bit-exact arithmetic (coordinates at least 1e-200 from zero), every edge from 0.5 to 2 m in real-number arithmetic (positions a micrometre away from a cell border)
//# indices within +-100000 ; signed overflow wraps; neighbourhood radius 0..5
#include "global_planner/cell.h"
#include "sym.h"
#include <cmath>
using namespace global_planner;
static Cell mk(int x, int y, int z) { return Cell(std::tuple<int, int, int>(x, y, z)); }
static int ix(const char* n) { return sym_i32(n, -100000, 100000); }
static double scale() { static const double S[] = {0.5, 1.0, 2.0}; return S[sym_concretize(sym_i32("scale", 0, 2))]; }
static bool holds(double p, int i, double c, double s) { return (i * s <= p) & (p < (i + 1) * s) & (std::fabs(p - c) <= s * 0.5) & (c > i * s) & (c < (i + 1) * s); }
static void contains(double s) {
  CELL_SCALE = s; double x = sym_f64("x", -1e5, 1e5), y = sym_f64("y", -1e5, 1e5), z = sym_f64("z", -1e5, 1e5); sym_assume((std::fabs(x) > 1e-200) & (std::fabs(y) > 1e-200) & (std::fabs(z) > 1e-200)); Cell c(x, y, z);
  sym_assert(holds(x, c.xIndex(), c.xPos(), s), "x"); sym_assert(holds(y, c.yIndex(), c.yPos(), s), "y"); sym_assert(holds(z, c.zIndex(), c.zPos(), s), "z"); geometry_msgs::Point p; p.x = x; p.y = y; p.z = z; sym_assert(Cell(p) == c, "from a point message"); Cell g(x, y); sym_assert((g.xIndex() == c.xIndex()) & (g.yIndex() == c.yIndex()) & (g.zIndex() == 0), "on the ground"); sym_cover("end");
}
//@ time=200
HARNESS C31_contains_half() { contains(0.5); }
//@ time=200
HARNESS C31_contains_one() { contains(1.0); }
//@ time=200
HARNESS C31_contains_two() { contains(2.0); }
//@ time=200 args=--reals
HARNESS C31_contains_any_scale() {
  double s = sym_f64("scale", 0.5, 2.); CELL_SCALE = s; double x = sym_f64("x", -1e4, 1e4); int ax = sym_concretize(sym_i32("axis", 0, 2)); Cell c(ax == 0 ? x : 0.25, ax == 1 ? x : 0.25, ax == 2 ? x : 0.25); int i = ax == 0 ? c.xIndex() : ax == 1 ? c.yIndex() : c.zIndex(); double p = ax == 0 ? c.xPos() : ax == 1 ? c.yPos() : c.zPos(); sym_assert((i * s <= x + 1e-6) & (x - 1e-6 < (i + 1) * s), "in the cell"); sym_assert(std::fabs(p - x) <= s * 0.5 + 1e-6, "half an edge from the centre"); sym_cover("end");
}
//@ time=200
HARNESS C31_centre() { double s = scale(); CELL_SCALE = s; Cell c = mk(ix("i"), ix("j"), ix("k")); Cell d(c.toPoint()); sym_assert(d == c, "a cell contains its centre"); geometry_msgs::Point p = c.toPoint(); sym_assert((p.x == c.xPos()) & (p.y == c.yPos()) & (p.z == c.zPos()), "toPoint is the centre"); sym_assert((c.xPos() == s * (c.xIndex() + 0.5)) & (c.yPos() == s * (c.yIndex() + 0.5)) & (c.zPos() == s * (c.zIndex() + 0.5)), "centre"); sym_cover("end"); }
//@ time=120
HARNESS C31_disjoint() { double s = scale(); CELL_SCALE = s; double x = sym_f64("x", -1e5, 1e5), y = sym_f64("y", -1e5, 1e5); Cell a(x, 1., 2.), b(y, 1., 2.); sym_assert((x > y) | (a.xIndex() <= b.xIndex()), "positions keep their order"); sym_assert((x - y < s + 1e-6) | (a.xIndex() > b.xIndex()), "an edge length apart is another cell"); sym_assert((a == b) == (a.xIndex() == b.xIndex()), "same cell"); sym_cover("end"); }
static bool less(const int* a, const int* b) { return (a[0] < b[0]) | ((a[0] == b[0]) & ((a[1] < b[1]) | ((a[1] == b[1]) & (a[2] < b[2])))); }
//@ time=200
HARNESS C31_order() {
  int a[3] = {ix("a0"), ix("a1"), ix("a2")}, b[3] = {ix("b0"), ix("b1"), ix("b2")}; Cell A = mk(a[0], a[1], a[2]), B = mk(b[0], b[1], b[2]); bool eq = (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]);
  sym_assert((A == B) == eq, "equality"); sym_assert((A != B) == !eq, "inequality"); sym_assert((A < B) == less(a, b), "order"); sym_assert((A > B) == less(b, a), "greater"); sym_assert((A <= B) == !less(b, a), "at most"); sym_assert((A >= B) == !less(a, b), "at least"); sym_assert((A < B) | (B < A) | (A == B), "total"); sym_assert(!((A < B) & (B < A)), "antisymmetric"); sym_cover("end");
}
//@ time=200
HARNESS C31_transitive() { int v[9]; static const char* N[] = {"a0", "a1", "a2", "b0", "b1", "b2", "c0", "c1", "c2"}; for (int i = 0; i < 9; i++) v[i] = ix(N[i]); sym_merge(0); Cell A = mk(v[0], v[1], v[2]), B = mk(v[3], v[4], v[5]), C = mk(v[6], v[7], v[8]); bool ab = A < B, bc = B < C, ac = A < C; sym_assert(!(ab & bc) | ac, "transitive"); sym_cover("end"); }
//@ time=60
HARNESS C31_hash() {
  std::hash<Cell> h; int a[3], b[3]; static const char* N[] = {"a0", "a1", "a2", "b0", "b1", "b2"}; for (int i = 0; i < 3; i++) { a[i] = ix(N[i]); b[i] = ix(N[3 + i]); } Cell A = mk(a[0], a[1], a[2]), B = mk(b[0], b[1], b[2]); sym_assume((a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2])); sym_assert(h(A) == h(B), "equal cells hash equally"); sym_cover("end");
}
static bool is(const Cell& c, const int* o, int dx, int dy, int dz) { return (c.xIndex() == o[0] + dx) & (c.yIndex() == o[1] + dy) & (c.zIndex() == o[2] + dz); }
//@ time=200
HARNESS C31_neighbours() {
  int o[3] = {ix("i"), ix("j"), ix("k")}; Cell c = mk(o[0], o[1], o[2]); std::vector<Cell> n = c.getNeighbors(), d = c.getDiagonalNeighbors(); sym_assert(n.size() == 10 && d.size() == 4, "number of neighbours"); int found = 0;
  for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) for (int dz = -1; dz <= 1; dz++) { bool adj = (dx || dy || dz) && (dz == 0 || (dx == 0 && dy == 0)), diag = dz == 0 && dx && dy; int k = 0, m = 0; for (auto& q : n) k += is(q, o, dx, dy, dz); for (auto& q : d) m += is(q, o, dx, dy, dz); sym_assert(k == adj, "each adjacent cell is a neighbour exactly once"); sym_assert(m == diag, "each diagonal cell exactly once"); found += adj; } sym_assert(found == 10, "ten"); sym_cover("end");
}
//@ time=200
HARNESS C31_flow_neighbours() {
  int r = sym_concretize(sym_i32("radius", 0, 5)); int o[3] = {ix("i"), ix("j"), ix("k")}; Cell c = mk(o[0], o[1], o[2]); std::vector<Cell> n = c.getFlowNeighbors(r); sym_assert(n.size() < 1200, "bounded"); int seen[13][13][13] = {}; bool near = true;
  for (auto& q : n) { int dx = q.xIndex() - o[0], dy = q.yIndex() - o[1], dz = q.zIndex() - o[2]; bool in = dx >= -6 && dx <= 6 && dy >= -6 && dy <= 6 && dz >= -6 && dz <= 6; sym_assert(in, "a cell nearby"); if (in) { seen[dx + 6][dy + 6][dz + 6]++; near = near && dx * dx + dy * dy + dz * dz < (r + 1) * (r + 1); } } sym_assert(near, "nothing beyond the radius");
  bool all = true, once = true; for (int dx = -6; dx <= 6; dx++) for (int dy = -6; dy <= 6; dy++) for (int dz = -6; dz <= 6; dz++) { int k = seen[dx + 6][dy + 6][dz + 6]; once = once && k <= 1; if (dx * dx + dy * dy + dz * dz <= r * r) all = all && k == 1; } sym_assert(all, "every cell within the radius"); sym_assert(once, "no cell twice"); sym_cover("end");
}
//@ time=200 args=--reals
HARNESS C31_distances() {
  double s = scale(); CELL_SCALE = s; int dx = sym_concretize(sym_i32("dx", -4, 4)), dy = sym_concretize(sym_i32("dy", -4, 4)), dz = sym_concretize(sym_i32("dz", -3, 3)); sym_merge(0); int i = sym_i32("i", -1000, 1000), j = sym_i32("j", -1000, 1000), k = sym_i32("k", -1000, 1000); Cell a = mk(i, j, k), b = mk(i + dx, j + dy, k + dz); double X = s * abs(dx), Y = s * abs(dy), Z = s * abs(dz);
  sym_assert((std::fabs(a.distance2D(b) - std::sqrt(X * X + Y * Y)) < 1e-6) & (std::fabs(a.distance3D(b) - std::sqrt(X * X + Y * Y + Z * Z)) < 1e-6), "straight distances"); double dg = std::max(X, Y) + (1.41421356237 - 1) * std::min(X, Y); sym_assert((std::fabs(a.diagDistance2D(b) - dg) < 1e-6) & (std::fabs(a.diagDistance3D(b) - dg - Z) < 1e-6), "grid distances"); sym_assert(std::fabs(a.manhattanDist(b.xPos(), b.yPos(), b.zPos()) - (X + Y + Z)) < 1e-6, "axis distances"); sym_assert(a + (b - a) == b && (b - a) == mk(dx, dy, dz), "differences"); sym_cover("end");
}
//@ time=120 args=--reals
HARNESS C31_goal() {
  double s = scale(); CELL_SCALE = s; double r = sym_f64("radius", 0., 50.), x = sym_f64("x", -100., 100.), y = sym_f64("y", -100., 100.), z = sym_f64("z", -100., 100.); int i = sym_i32("i", -50, 50), j = sym_i32("j", -50, 50), k = sym_i32("k", -50, 50); GoalCell g(mk(i, j, k), r); geometry_msgs::Point p; p.x = x; p.y = y; p.z = z; double d = std::fabs(g.xPos() - x) + std::fabs(g.yPos() - y) + std::fabs(g.zPos() - z); sym_assume(std::fabs(d - r) > 1e-6);
  sym_assert(g.withinPositionRadius(p) == (d < r), "within the radius"); sym_assert((g.xIndex() == i) & (g.yIndex() == j) & (g.zIndex() == k), "the goal's cell"); sym_cover("end");
}
//@ time=120 args=--reals
HARNESS C31_goal_plan() {
  double s = scale(); CELL_SCALE = s; double r = sym_f64("radius", 0., 50.); int i = sym_i32("i", -50, 50), j = sym_i32("j", -50, 50), k = sym_i32("k", -50, 50); int a = sym_i32("a", -50, 50), b = sym_i32("b", -50, 50), c = sym_i32("c", -50, 50); GoalCell g(s * (i + 0.25), s * (j + 0.75), s * (k + 0.5), r); double d = s * (std::abs(i - a) + std::abs(j - b) + std::abs(k - c)); sym_assume(std::fabs(d - r / 2) > 1e-6); sym_assert(g.withinPlanRadius(mk(a, b, c)) == (d < r / 2), "within the planning radius"); sym_cover("end");
}
