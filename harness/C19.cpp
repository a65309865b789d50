//! src=lp/nodes/star_planner.cpp,lp/nodes/tree_node.cpp,avoidance/common.cpp,avoidance/histogram.cpp
//# the candidate generation (histogram, cost matrix and selection, decided by C16-C18) is replaced by one that hands out arbitrary finite non-negative costs for 2 or 3 of 5 directions at each expanded node, and records what it was asked for
//# up to 3 expanded nodes with 2 children (thorough 4 expanded nodes), node distance 1 m, path length 0.9..15 m, heuristic weight 0..50; goal anywhere within 50 m; real-number arithmetic (costs compared with a tolerance of 0.01)
//# outside the claim: no candidates requested at all, larger trees
#include "local_planner/star_planner.h"
#include "local_planner/planner_functions.h"
#include "local_planner/tree_node.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;
namespace avoidance {
#ifdef THOROUGH
static const int NSEL = 5;
#else
static const int NSEL = 3;
#endif
static std::vector<Eigen::Vector3f> asked; static const Eigen::Vector3f* cloudAt; static std::vector<std::vector<candidateDirection>> given;
static Eigen::Vector3f histAt, P0, V0, G, L; static bool ok = true; static int mode = 0; static float w_obs, maxS, minS, margin; static size_t cloudSize;
static const PolarPoint DIR[5] = {PolarPoint(3.f, -3.f, 1.f), PolarPoint(-3.f, 177.f, 1.f), PolarPoint(3.f, 87.f, 1.f), PolarPoint(-3.f, -93.f, 1.f), PolarPoint(57.f, -3.f, 1.f)};  // 0/1 and 2/3 are opposite
void generateNewHistogram(Histogram& h, const pcl::PointCloud<pcl::PointXYZI>& c, const Eigen::Vector3f& p) { histAt = p; if (c.size() != cloudSize) ok = false; for (int i = 0; i < 60; i++) if (h.get_dist(15, i) != 0.f) ok = false; h.set_dist(15, 3, 2.f); }
void getCostMatrix(const Histogram& h, const Eigen::Vector3f& goal, const Eigen::Vector3f& position, const Eigen::Vector3f& velocity, const costParameters& cp, float sm, const Eigen::Vector3f& cl, const float mx, const float mn, Eigen::MatrixXf& m, std::vector<uint8_t>& img) {
  if (h.get_dist(15, 3) != 2.f || !(goal == G) || !(position == histAt) || !(cl == L) || cp.obstacle_cost_param != w_obs || mx != maxS || mn != minS || sm != margin) ok = false;
  asked.push_back(position); asked.push_back(velocity); m.resize(1, 1); m(0, 0) = 1.f + asked.size();
}
static char nm[64][8];
void getBestCandidatesFromCostMatrix(const Eigen::MatrixXf& m, unsigned int n, std::vector<candidateDirection>& v) {
  int k = given.size(); if (m(0, 0) != 3.f + 2 * k || !v.empty()) ok = false;
  int sel = mode == 0 ? sym_concretize(sym_i32((nm[40 + k][0] = 's', nm[40 + k][1] = '0' + k, nm[40 + k]), 0, NSEL - 1)) : mode == 1 ? 0 : 4;
  for (unsigned i = 0; i < n; i++) { int q = 8 * k + i; nm[q][0] = 'c'; nm[q][1] = '0' + k; nm[q][2] = '0' + i; PolarPoint d = DIR[(sel + i * 2 + (mode == 1 ? k : 0)) % 5]; v.push_back(candidateDirection(sym_f32(nm[q], 0.f, 1000.f), d.e, d.z)); }
  given.push_back(v);
}
}
static void tree(int expand, int children, bool symGoal, bool symLen) {
  P0 = Eigen::Vector3f(2.f, -3.f, 5.f); V0 = Eigen::Vector3f(0.5f, 1.f, 0.f); L = Eigen::Vector3f(1.f, -2.f, 4.f); G = Eigen::Vector3f(12.f, 7.f, 6.f);
  if (symGoal) { int g = sym_concretize(sym_i32("goal", 0, 2)); G = g == 0 ? Eigen::Vector3f(2.f, 20.f, 6.f) : g == 1 ? Eigen::Vector3f(-9.f, -40.f, 6.f) : Eigen::Vector3f(2.f, -3.f, 25.f); }
  maxS = symLen ? sym_concretize(sym_i32("len", 0, 2)) * 1.2f + 0.9f : 15.f; minS = 0.3f; margin = 25.f; w_obs = 7.f;
  StarPlanner s; avoidance::LocalPlannerNodeConfig c; c.children_per_node_ = children; c.n_expanded_nodes_ = expand; c.tree_node_distance_ = 1.0; c.max_sensor_range_ = maxS; c.min_sensor_range_ = minS; c.smoothing_margin_degrees_ = margin;
  float wh = sym_f32("w_heuristic", 0.f, 50.f); c.tree_heuristic_weight_ = wh; s.dynamicReconfigureSetStarParams(c, 0); costParameters cp; cp.obstacle_cost_param = w_obs; s.setParams(cp);
  pcl::PointCloud<pcl::PointXYZI> cl; pcl::PointXYZI pt; pt.x = 1.f; pt.y = 2.f; pt.z = 3.f; pt.intensity = 0.f; cl.push_back(pt); cloudSize = 1;
  s.setPointcloud(cl); s.setPose(P0, V0); s.setGoal(G); s.setClosestPointOnLine(L);
  s.tree_.push_back(TreeNode(3, P0, V0)); s.closed_set_.push_back(7); s.path_node_positions_.push_back(G);  // left over from the last run
  s.buildLookAheadTree();
  int n = s.tree_.size(), ex = given.size();
  sym_assert(ok, "the candidates of a node are computed from the obstacle cloud around that node alone, for the goal and limits in force");
  sym_assert((n >= 1) & (ex >= 1) & (ex <= expand), "at most the configured number of nodes is expanded"); sym_assert((int)s.closed_set_.size() == ex, "the expanded nodes are recorded");
  sym_assert(n <= 1 + expand * children, "at most the configured number of children per node");
  sym_assert((s.tree_[0].getPosition() == P0) & (s.tree_[0].getVelocity() == V0) & (s.tree_[0].depth_ == 0), "the root is the vehicle");
  int nextChild = 1;
  for (int e = 0; e < ex; e++) {
    int o = s.closed_set_[e]; sym_assert((o >= 0) & (o < n), "expanded nodes are tree nodes");
    sym_assert(s.tree_[o].closed_, "an expanded node is closed"); for (int f = 0; f < e; f++) sym_assert(s.closed_set_[f] != o, "no node is expanded twice");
    sym_assert((asked[2 * e] == s.tree_[o].getPosition()) & (asked[2 * e + 1] == s.tree_[o].getVelocity()), "candidates are computed at the node they are attached to");
    sym_assert(e == 0 ? o == 0 : (s.tree_[o].getPosition() - P0).norm() < maxS + 1e-4f, "only nodes within the configured length of the vehicle are expanded");
    // best-first: no node that was open then and in range was cheaper
    if (e) for (int i = 0; i < nextChild; i++) { bool closedBefore = false; for (int f = 0; f < e; f++) closedBefore |= s.closed_set_[f] == i; if (!closedBefore && (s.tree_[i].getPosition() - P0).norm() < maxS - 1e-4f) sym_assert(s.tree_[o].total_cost_ <= s.tree_[i].total_cost_, "the cheapest open node is expanded"); }
    // its children
    int kids = 0;
    for (size_t q = 0; q < given[e].size(); q++) {
      Eigen::Vector3f at = polarHistogramToCartesian(given[e][q].toPolar(1.f), s.tree_[o].getPosition()); bool close = false;
      for (int i = 0; i < nextChild; i++) close |= (s.tree_[i].getPosition() - at).norm() < 0.2f;
      if (close) continue;
      sym_assert(nextChild < n, "every candidate that is not close to another node becomes a node"); TreeNode& k = s.tree_[nextChild];
      sym_assert((k.origin_ == o) & (k.depth_ == s.tree_[o].depth_ + 1), "a node's depth is one more than its parent's"); sym_assert(k.origin_ < nextChild, "parents precede their children");
      sym_assert((k.getPosition() - at).norm() < 1e-3f, "a node lies at the node distance in its candidate's direction"); sym_assert((k.getVelocity() - (at - s.tree_[o].getPosition())).norm() < 1e-3f, "and has the velocity that leads there");
      float hp = (G - s.tree_[o].getPosition()).norm() * wh, h = (G - k.getPosition()).norm() * wh, g0 = s.tree_[o].total_cost_ - hp, g1 = k.total_cost_ - h;
      sym_assert(std::isfinite(k.total_cost_), "the accumulated cost is finite"); sym_assert(g1 >= g0 - 0.01f, "the accumulated cost is not below the parent's");
      sym_assert(std::fabs(g1 - g0 - given[e][q].cost) < 0.01f, "and grows by the candidate's cost");
      nextChild++; kids++;
    }
    sym_assert(kids <= children, "no more children than configured");
  }
  sym_assert(nextChild == n, "there are no other nodes"); sym_assert(std::fabs(s.tree_[0].total_cost_ - (G - P0).norm() * wh) < 0.01f, "the root's cost is its heuristic");
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sym_assert((s.tree_[i].getPosition() - s.tree_[j].getPosition()).norm() >= 0.2f - 1e-4f, "no two nodes are closer than the minimum separation");
  // stopping early only when nothing is left
  if (ex < expand) for (int i = 0; i < n; i++) sym_assert(s.tree_[i].closed_ || !((s.tree_[i].getPosition() - P0).norm() < maxS - 1e-4f), "expansion stops early only when no node is left");
  // path
  int m = s.path_node_positions_.size(), deepest = 0; sym_assert(m >= 1, "there is a path");
  for (int i = 0; i < n; i++) if (!s.tree_[i].closed_ && s.tree_[i].depth_ > deepest) deepest = s.tree_[i].depth_;
  int end = 0; if (m > 1) { end = -1; for (int i = 0; i < n; i++) if (s.tree_[i].getPosition() == s.path_node_positions_[0]) end = i; }
  sym_assert(end >= 0, "the path starts at a tree node"); sym_assert((s.tree_[end].depth_ == deepest) & (!s.tree_[end].closed_ | (deepest == 0)), "the path leads to a deepest unexpanded node");
  for (int i = 0; i < m; i++) { sym_assert(s.path_node_positions_[i] == s.tree_[end].getPosition(), "the path is the chain of parents"); if (i == m - 1) sym_assert(end == 0, "down to the vehicle's position"); else { sym_assert(end != 0, "down to the vehicle's position"); end = s.tree_[end].origin_; } }
  if (m > 1) sym_assert((s.path_node_positions_[1] - P0).norm() < maxS + 1e-4f, "the path is cut to the configured length");
  sym_cover("end");
}
//@ time=300 args=--reals
HARNESS C19_two() { sym_merge(0); tree(2, 3, false, false); }
//@ time=600 args=--reals tier=thorough
HARNESS C19_two_goals() { sym_merge(0); tree(2, 3, true, false); }
//@ time=300 args=--reals
HARNESS C19_three() { sym_merge(0); mode = 0; tree(3, 2, false, false); }
//@ time=300 args=--reals
HARNESS C19_length() { sym_merge(0); mode = 1; tree(4, 2, false, true); }
//@ time=300 args=--reals
HARNESS C19_goals() { sym_merge(0); mode = 2; tree(3, 2, true, true); }
//@ time=800 args=--reals tier=thorough
HARNESS C19_deep() { sym_merge(0); mode = 1; tree(4, 3, true, true); }
