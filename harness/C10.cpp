//! src=avoidance/transform_buffer.cpp
//# histories of up to 3 insertions (thorough 6) with arbitrary stamps (any nanosecond in [0,0.9] s, in any order, duplicates included), retention 0.25 s, then one look-up at any time in the same range; two frame pairs
//# values: distinct concrete translations and headings per insertion; the interpolation claim is in the weights, for any query time between concrete stamps (all orders and repetitions of four stamps, gaps 1 ns..retention; float tolerance 1e-3)
//# outside the claim: longer histories; look-ups concurrent with insertions (both hold the buffer's mutex for their whole body); frame names containing the joining text
#include "avoidance/transform_buffer.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;
#ifdef THOROUGH
static const int N = 6;
#else
static const int N = 3;
#endif
static const char* TN[] = {"t0", "t1", "t2", "t3", "t4", "t5"};
static const double X[] = {1., 10., 30., 70., 150., 400.}, Y[] = {-3., -7., -20., -50., -144., -260.};
static ros::Time at(uint32_t ns) { ros::Time t; t.sec = 5; t.nsec = ns; return t; }
static tf::StampedTransform tfAt(int i, uint32_t ns) { tf::StampedTransform t; t.setOrigin(tf::Vector3(X[i], Y[i], 2. * X[i])); t.setRotation(tf::Quaternion(0, 0, 0, 1)); t.stamp_ = at(ns); return t; }
static const uint32_t WIN = 250000000u;
// one history on pair a->b; reference: accepted iff newer than the last accepted; dropped when older than newest - window
struct Hist { int idx[8]; int n = 0; uint32_t t[8]; };
static const uint32_t STAMPS[] = {100000000u, 200000000u, 300000000u, 451000000u};
static void feed(tf_buffer::TransformBuffer& b, Hist& h, int count, bool concreteStamps) {
  for (int i = 0; i < count; i++) {
    uint32_t ns = concreteStamps ? STAMPS[sym_concretize(sym_i32(TN[i], 0, 3))] : (uint32_t)sym_i32(TN[i], 0, 900000000); h.t[i] = ns;
    bool newer = h.n == 0 || sym_fork(ns > h.t[h.idx[h.n - 1]]);
    bool r = b.insertTransform("a", "b", tfAt(i, ns));
    sym_assert(r == newer, "accepted exactly when newer than the last accepted transform");
    if (newer) { h.idx[h.n++] = i; while (sym_fork(ns - h.t[h.idx[0]] > WIN)) { for (int k = 1; k < h.n; k++) h.idx[k - 1] = h.idx[k]; h.n--; } }
  }
}
static void history(int count, bool concreteStamps = false) {
  stub::now() = ros::Time(1.0); tf_buffer::TransformBuffer b(0.25f);
  Hist h; feed(b, h, count, concreteStamps);
  uint32_t q = (uint32_t)sym_i32("q", 0, 900000000); tf::StampedTransform out; out.setOrigin(tf::Vector3(-1, -2, -3));
  bool got = b.getTransform("a", "b", at(q), out);
  int j = -1; for (int k = 0; k + 1 < h.n; k++) if (j < 0 && sym_fork((q >= h.t[h.idx[k]]) & (q <= h.t[h.idx[k + 1]]))) j = k;
  if (h.n == 0 || (h.n == 1 && sym_fork(q != h.t[h.idx[0]]))) sym_assert(!got, "never extrapolates");
  if (h.n >= 2) sym_assert(got == (j >= 0), "answers exactly when the time lies between two retained stamps");
  if (got && j >= 0) {
    sym_assert(out.stamp_ == at(q), "the answer carries the requested time");
    if (concreteStamps) {
      int e = h.idx[j], l = h.idx[j + 1]; double x = out.getOrigin().x(), y = out.getOrigin().y(), z = out.getOrigin().z();
    sym_assert((x >= X[e] - 1e-3) & (x <= X[l] + 1e-3), "the answer lies between the two neighbours");
    sym_assert((std::fabs(z - 2. * x) <= 1e-2) & (y <= Y[e] + 1e-3) & (y >= Y[l] - 1e-3), "the answer lies between the two neighbours in every coordinate");
    sym_assert((q != h.t[e]) | ((std::fabs(x - X[e]) <= 1e-3) & (std::fabs(y - Y[e]) <= 1e-3)), "at the earlier stamp the answer is the earlier transform");
    sym_assert((q != h.t[l]) | ((std::fabs(x - X[l]) <= 1e-3) & (std::fabs(y - Y[l]) <= 1e-3)), "at the later stamp the answer is the later transform");
    }
  }
  sym_cover("end");
}
HARNESS C10_none() { stub::now() = ros::Time(1.0); tf_buffer::TransformBuffer b(0.25f); tf::StampedTransform o; sym_assert(!b.getTransform("a", "b", at(sym_i32("q", 0, 900000000)), o), "no history, no answer"); sym_cover("end"); }
HARNESS C10_one() { history(1); }
//@ time=120
HARNESS C10_two() { history(2); }
//@ time=120
HARNESS C10_three() { history(3); }
//@ time=120 ttime=600 tier=thorough
HARNESS C10_many() { history(N); }
//@ time=120 ttime=600
HARNESS C10_values() { history(N < 4 ? N : 4, true); }  // which neighbours answer: stamps from a set of four (all orders and repetitions), any query time

static const uint32_t GAPS[] = {1u, 1000u, 100000000u, 249999999u};
//@ time=120
HARNESS C10_weights() {  // fixed neighbours, any time between them: translation and heading move proportionally to time
  stub::now() = ros::Time(1.0); tf_buffer::TransformBuffer b(0.25f);
  uint32_t gap = GAPS[sym_concretize(sym_i32("gap", 0, 3))], t0 = 300000000u; int w = sym_concretize(sym_i32("which", 0, 1));
  b.insertTransform("a", "b", tfAt(0, t0 - gap)); b.insertTransform("a", "b", tfAt(1, t0)); b.insertTransform("a", "b", tfAt(2, t0 + gap));
  uint32_t base = w ? t0 : t0 - gap; uint32_t d = (uint32_t)sym_i32("d", 0, gap); int e = w, l = w + 1; sym_assume((w == 0) | (d > 0)); sym_assume((w == 1) | (d < gap));
  tf::StampedTransform out; bool got = b.getTransform("a", "b", at(base + d), out);
  if (gap == 249999999u && w == 0) { sym_assert(!got, "dropped transforms are not used"); sym_cover("dropped"); return; }
  sym_assert(got, "between two retained stamps");
  double r = (double)d / gap;
  sym_assert(std::fabs(out.getOrigin().x() - (X[e] + (X[l] - X[e]) * r)) <= 1e-3 && std::fabs(out.getOrigin().y() - (Y[e] + (Y[l] - Y[e]) * r)) <= 1e-3 && std::fabs(out.getOrigin().z() - 2 * (X[e] + (X[l] - X[e]) * r)) <= 1e-3, "translation weighted by time");
  sym_cover("end");
}
HARNESS C10_rotation() {
  stub::now() = ros::Time(1.0); tf_buffer::TransformBuffer b(0.25f); tf::StampedTransform p = tfAt(0, 100), n = tfAt(1, 1100);
  double y0 = sym_concretize(sym_i32("y0", -3, 3)) * M_PI / 4, y1 = y0 + sym_concretize(sym_i32("dy", -3, 3)) * M_PI / 4; int k = sym_concretize(sym_i32("k", 0, 4));
  tf::Quaternion a, c; a.setRPY(0, 0, y0); c.setRPY(0, 0, y1); p.setRotation(a); n.setRotation(c);
  b.insertTransform("a", "b", p); b.insertTransform("a", "b", n);
  tf::StampedTransform out; sym_assert(b.getTransform("a", "b", at(100 + 250 * k), out), "between two retained stamps");
  double want = y0 + (y1 - y0) * k / 4., got = tf::getYaw(out.getRotation()), d = std::fabs(got - want - 2 * M_PI * std::floor((got - want) / (2 * M_PI) + 0.5));
  sym_assert(d <= 1e-5, "rotation interpolated by time, the shorter way"); sym_cover("end");
}
HARNESS C10_pairs() {  // histories of different frame pairs are independent
  stub::now() = ros::Time(1.0); tf_buffer::TransformBuffer b(0.25f); uint32_t q = (uint32_t)sym_i32("q", 0, 900000000), s = (uint32_t)sym_i32("s", 0, 900000000);
  b.insertTransform("a", "b", tfAt(0, 100000000u)); b.insertTransform("a", "b", tfAt(1, 300000000u));
  sym_assert(b.insertTransform("b", "a", tfAt(2, s)), "first transform of another pair is always accepted");
  sym_assert(b.insertTransform("a", "c", tfAt(2, s)), "first transform of another pair is always accepted");
  tf::StampedTransform o; bool got = b.getTransform("a", "b", at(q), o); sym_assert(got == ((q >= 100000000u) & (q <= 300000000u)), "other pairs do not change the history");
  if (q != s) { sym_assert(!b.getTransform("b", "a", at(q), o) && !b.getTransform("a", "c", at(q), o), "other pairs have their own history"); }
  sym_assert(!b.getTransform("c", "b", at(q), o), "an unknown pair has no answer");
  // names that read the same when written one after the other are still different pairs
  sym_assert(b.insertTransform("cam", "0_link", tfAt(0, 800000000u)) && b.insertTransform("cam0", "_link", tfAt(1, s)) && b.insertTransform("cam0_", "link", tfAt(2, s)), "pairs are told apart by both names");
  sym_cover("end");
}
