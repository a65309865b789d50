//! src=gp/library/cell.cpp,gp/library/node.cpp cflags=-fwrapv
//# nodes anywhere within +-1000 cells, speed-aware steps up to 5 cells per axis, turns between steps of up to 2 cells
//# swept cells: every step up to 3 horizontal and 1 vertical (thorough: 5 and 2) cells from 25 starting cells on both sides of zero
#include "global_planner/node.h"
#include "sym.h"
#include <cmath>
using namespace global_planner;
static char nm[256][12];
static const char* nam(const char* b, int k) { static int c = 0; char* s = nm[c++ % 256]; int i = 0; while (b[i]) { s[i] = b[i]; i++; } s[i++] = '0' + k; s[i] = 0; return s; }
static Cell mk(int x, int y, int z) { return Cell(std::tuple<int, int, int>(x, y, z)); }
static Cell any(const char* b) { return mk(sym_i32(nam(b, 0), -1000, 1000), sym_i32(nam(b, 1), -1000, 1000), sym_i32(nam(b, 2), -1000, 1000)); }
static bool same(const Cell& a, const Cell& b) { return (a.xIndex() == b.xIndex()) & (a.yIndex() == b.yIndex()) & (a.zIndex() == b.zIndex()); }
template <typename N> static void identity(bool parents) {
  N a(any("a"), any("p")), b(any("b"), any("q")); bool eq = same(a.cell_, b.cell_) & (!parents | same(a.parent_, b.parent_)); sym_assert(a.isEqual(b) == eq, "equal exactly when they denote the same"); sym_assert((a == b) == eq, "operator"); sym_assert((a != b) == !eq, "different"); NodePtr pa(new N(a)), pb(new N(b)); sym_assert((EqualsNodePtr()(pa, pb) != 0) == eq, "through pointers"); sym_cover("end");
}
template <typename N> static void hashes(bool parents) { Cell c = any("a"), p = any("p"), q = any("q"); N a(c, p), b(c, parents ? p : q); sym_assert(a.hash() == b.hash(), "equal nodes hash equally"); NodePtr pa(new N(a)), pb(new N(b)); sym_assert(HashNodePtr()(pa) == HashNodePtr()(pb) && HashNodePtr()(pa) == a.hash(), "through pointers"); sym_cover("end"); }
//@ time=60
HARNESS C32_identity() { identity<Node>(true); }
//@ time=60
HARNESS C32_identity_speed() { identity<SpeedNode>(true); }
//@ time=60
HARNESS C32_identity_cell() { identity<NodeWithoutSmooth>(false); }
//@ time=60
HARNESS C32_hash() { hashes<Node>(true); }
//@ time=60
HARNESS C32_hash_speed() { hashes<SpeedNode>(true); }
//@ time=60
HARNESS C32_hash_cell() { hashes<NodeWithoutSmooth>(false); }
//@ time=100
HARNESS C32_order() {
  Node a(any("a"), any("p")), b(any("b"), any("q")); bool lt = (a.cell_ < b.cell_) | (same(a.cell_, b.cell_) & (a.parent_ < b.parent_)), gt = (b.cell_ < a.cell_) | (same(a.cell_, b.cell_) & (b.parent_ < a.parent_)); sym_assert((a < b) == lt, "less"); sym_assert((a > b) == gt, "greater"); sym_assert((a <= b) == !gt, "at most"); sym_assert((a >= b) == !lt, "at least"); sym_assert((a < b) | (a > b) | (a == b), "total"); sym_cover("end");
}
static int step(const char* n, int r) { return sym_concretize(sym_i32(n, -r, r)); }
template <typename N> static void next() {
  Cell c = any("a"), p = any("p"), t = any("t"); N n(c, p); NodePtr v = n.nextNode(t); sym_assert(same(v->cell_, t) & same(v->parent_, c), "a successor comes from the node's cell"); sym_assert(std::fabs(n.getLength() - std::sqrt((double)squared(c.xIndex() - p.xIndex()) + squared(c.yIndex() - p.yIndex()) + squared(c.zIndex() - p.zIndex()))) < 1e-6, "length"); sym_assert(typeid(*v) == typeid(N), "of the same kind"); sym_cover("end");
}
//@ time=100 args=--reals
HARNESS C32_next() { next<Node>(); }
//@ time=100 args=--reals
HARNESS C32_next_cell() { next<NodeWithoutSmooth>(); }
//@ time=100 args=--reals
HARNESS C32_next_speed() { next<SpeedNode>(); }
template <typename N> static void grown() {
  Cell c = any("a"), p = any("p"); N n(c, p); std::vector<NodePtr> v = n.getNeighbors(); std::vector<Cell> w = c.getNeighbors(); sym_assert(v.size() == w.size(), "one successor per adjacent cell"); for (size_t i = 0; i < w.size(); i++) { int k = 0; for (auto& q : v) k += same(q->cell_, w[i]) & same(q->parent_, c); sym_assert(k == 1, "to each adjacent cell"); sym_assert(typeid(*v[i]) == typeid(N), "of the same kind"); } sym_cover("end");
}
//@ time=100
HARNESS C32_neighbours() { grown<Node>(); }
//@ time=100
HARNESS C32_neighbours_cell() { grown<NodeWithoutSmooth>(); }
//@ time=200 args=--reals
HARNESS C32_neighbours_speed() {  // continue as before, or change the step by one cell, as long as the step is not too long
  int d[3] = {step("dx", 5), step("dy", 5), step("dz", 2)}; sym_merge(0); double r = SPEEDNODE_RADIUS; Cell p = any("p"), c = p + mk(d[0], d[1], d[2]); SpeedNode n(c, p); std::vector<NodePtr> v = n.getNeighbors(); sym_assert(!v.empty() && same(v[0]->cell_, c + (c - p)), "the step repeated"); int want = 1;
  for (auto& o : mk(0, 0, 0).getNeighbors()) { Cell s = mk(d[0], d[1], d[2]) + o; double l = std::sqrt((double)squared(s.xIndex()) + squared(s.yIndex()) + squared(s.zIndex())); if (l > 0 && l < r) { want++; int k = 0; for (auto& q : v) k += same(q->cell_, c + s); sym_assert(k == 1, "each step of allowed length"); } }
  sym_assert((int)v.size() == want, "nothing else"); for (auto& q : v) { sym_assert(same(q->parent_, c), "from the node's cell"); sym_assert(typeid(*q) == typeid(SpeedNode), "of the same kind"); } sym_cover("end");
}
static double turn(int ax, int ay, int bx, int by) { if ((ax == 0 && ay == 0) || (bx == 0 && by == 0)) return 0; double cr = ax * by - ay * bx, dt = ax * bx + ay * by; return std::fabs(std::atan2(cr, dt)) / (M_PI / 4); }
//@ time=300 args=--reals
HARNESS C32_turn() {
  int a[3] = {step("ax", 2), step("ay", 2), step("az", 1)}, b[3] = {step("bx", 2), step("by", 2), step("bz", 1)}; Cell p = any("p"), c = p + mk(a[0], a[1], a[2]), e = c + mk(b[0], b[1], b[2]); Node u(c, p), v(e, c); double xy = turn(a[0], a[1], b[0], b[1]), z = ((a[2] == 0) != (b[2] == 0)) ? 0.5 : 0.; sym_assert(std::fabs(u.getXYRotation(v) - xy) < 1e-6, "number of 45 degree turns"); sym_assert(std::fabs(u.getRotation(v) - xy - z) < 1e-6, "plus half a turn between level and vertical motion"); sym_assert(std::fabs(v.getRotation(u) - u.getRotation(v)) < 1e-6, "the same the other way round");
  NodeWithoutSmooth w(c, p); sym_assert(w.getRotation(v) == 0., "ignored by the coarse search"); SpeedNode q(c, p); sym_assert(q.getRotation(v) == u.getRotation(v), "same for fast nodes"); bool heading = (a[0] * b[1] == a[1] * b[0]) && a[0] * b[0] + a[1] * b[1] > 0; bool level = a[0] || a[1], blevel = b[0] || b[1]; if (level && blevel) sym_assert((u.getRotation(v) < 1e-6) == (heading && (a[2] == 0) == (b[2] == 0)), "no cost exactly when the direction does not change"); sym_cover("end");
}
static void swept_(int dx, int dy, int dz, int o);
static void swept(int r, int rz) { int a = step("dx", r), b = step("dy", r), c = step("dz", rz), o = sym_concretize(sym_i32("origin", -12, 12)); swept_(a, b, c, o); }
static void swept_(int dx, int dy, int dz, int o) {
  int d[3] = {dx, dy, dz}; Cell p = mk(o, -o, 2 * o + 1), c = p + mk(d[0], d[1], d[2]); Node n(c, p); std::unordered_set<Cell> s = n.getCells(); int m = std::max(std::abs(d[0]), std::max(std::abs(d[1]), std::abs(d[2]))); if (m == 0) { sym_assert(s.empty(), "nothing swept without a step"); return; } sym_assert(s.count(c) == 1, "the end cell");
  if (d[2] == 0) sym_assert(s.count(p) == 1, "the start cell"); bool chain = true, on = true; for (auto& q : s) { double t = ((q.xIndex() - p.xIndex()) * d[0] + (q.yIndex() - p.yIndex()) * d[1] + (q.zIndex() - p.zIndex()) * d[2]) / (double)(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]); t = std::max(0., std::min(1., t)); on = on && std::fabs(q.xIndex() - p.xIndex() - t * d[0]) <= 1. && std::fabs(q.yIndex() - p.yIndex() - t * d[1]) <= 1. && std::fabs(q.zIndex() - p.zIndex() - t * d[2]) <= 1.; }
  for (int i = 1; i <= 2 * m; i++) { double t = i / (2. * m); bool have = false; for (auto& q : s) have = have || (std::fabs(q.xPos() - p.xPos() - t * d[0]) <= 0.5 && std::fabs(q.yPos() - p.yPos() - t * d[1]) <= 0.5 && std::fabs(q.zPos() - p.zPos() - t * d[2]) <= 0.5); chain = chain && have; } sym_assert(on, "nothing away from the step"); sym_assert(chain, "no gap"); }
//@ time=300
HARNESS C32_swept() { swept(3, 1); sym_cover("end"); }
//@ time=300
HARNESS C32_swept_far() {  // as long as speed-aware steps get
  int k = sym_concretize(sym_i32("length", 4, 10)), w = sym_concretize(sym_i32("side", 0, 5)), z = sym_concretize(sym_i32("up", -1, 1)), q = sym_concretize(sym_i32("quarter", 0, 3)), o = sym_concretize(sym_i32("origin", 0, 1)); int a = k, b = w == 0 ? 0 : w == 1 ? 1 : w == 2 ? k / 2 : w == 3 ? k - 1 : w == 4 ? k : -2; int x = q == 0 ? a : q == 1 ? -b : q == 2 ? -a : b, y = q == 0 ? b : q == 1 ? a : q == 2 ? -b : -a; swept_(x, y, z, o ? -3 : 2); sym_cover("end");
}
//@ time=800 tier=thorough
HARNESS C32_swept_long() { swept(5, 2); sym_cover("end"); }
