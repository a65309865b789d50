//! src=avoidance/avoidance_node.cpp,avoidance/common.cpp,slp/nodes/safe_landing_planner_node.cpp,slp/nodes/safe_landing_planner.cpp,slp/nodes/safe_landing_planner_visualization.cpp
//# elapsed times: any pair in [0,40] s with nanosecond resolution; every previous status and hover flag; sequences of 3 health checks (thorough 6) with arbitrary elapsed times
//# landing planner: four critical and three termination timeouts; its periodic loop with any times of the last planner run, of start-up and of the last status message in [0,40] s
//# outside the claim: the local planner's own loop around this check (see C24); delivery of messages by the middleware; wrap-around of the clock
#include "avoidance/avoidance_node.h"
#include "safe_landing_planner/safe_landing_planner_node.hpp"
#include "sym.h"
#include <cmath>
using namespace avoidance;
#ifdef THOROUGH
static const int K = 6;
#else
static const int K = 3;
#endif
static const char* LS[] = {"last_s0", "last_s1", "last_s2", "last_s3", "last_s4", "last_s5"}; static const char* LN[] = {"last_ns0", "last_ns1", "last_ns2", "last_ns3", "last_ns4", "last_ns5"};
static const char* SS[] = {"start_s0", "start_s1", "start_s2", "start_s3", "start_s4", "start_s5"}; static const char* SN[] = {"start_ns0", "start_ns1", "start_ns2", "start_ns3", "start_ns4", "start_ns5"};
struct El { ros::Duration d; int64_t ns; };
static El elapsed(const char* s, const char* n) { int a = sym_i32(s, 0, 39), b = sym_i32(n, 0, 999999999); El e; e.d.sec = a; e.d.nsec = b; e.ns = (int64_t)a * 1000000000ll + b; return e; }
static int64_t nsOf(double t) { return (int64_t)(t * 1e9 + 0.5); }

HARNESS C11_check() {
  AvoidanceNode n(ros::NodeHandle(""), ros::NodeHandle("~"));
  int prev = sym_i32("prev", 0, 8); n.setSystemStatus((MAV_STATE)prev); bool before = sym_bool("hover"), hover = before;
  sym_assert((int)n.getSystemStatus() == prev, "the status is what was last set");
  El l = elapsed("last_s", "last_ns"), s = elapsed("start_s", "start_ns");
  const int64_t term = nsOf(n.timeout_termination_), crit = nsOf(n.timeout_critical_), start = nsOf(n.timeout_startup_);
  sym_assert((crit > 0) & (crit < term) & (start >= 0) & (start < term), "the critical timeout is the shorter one and the grace ends before termination");
  n.checkFailsafe(l.d, s.d, hover);
  int st = (int)n.getSystemStatus();
  bool isTerm = (l.ns > term) & (s.ns > term), isCrit = !isTerm & (l.ns > crit) & (s.ns > start);
  sym_assert(!isTerm | (st == (int)MAV_STATE::MAV_STATE_FLIGHT_TERMINATION), "terminating when data stays away");
  sym_assert(!isCrit | (st == (int)MAV_STATE::MAV_STATE_CRITICAL), "critical when data is late");
  sym_assert(!isCrit | hover, "hover requested when data is late");
  sym_assert(isTerm | isCrit | before | (st == (int)MAV_STATE::MAV_STATE_ACTIVE), "active otherwise when not hovering");
  sym_assert(isTerm | isCrit | (hover == before), "no hover requested otherwise");
  sym_assert(isTerm | isCrit | !before | (st == prev), "a hovering planner keeps its status while data is not late");
  sym_cover("end");
}
HARNESS C11_sequence() {
  AvoidanceNode n(ros::NodeHandle(""), ros::NodeHandle("~")); bool hover = false;
  const int64_t term = nsOf(n.timeout_termination_), crit = nsOf(n.timeout_critical_), start = nsOf(n.timeout_startup_);
  for (int k = 0; k < K; k++) {
    hover = false;  // every planning cycle starts without a hover request
    El l = elapsed(LS[k], LN[k]), s = elapsed(SS[k], SN[k]);
    n.checkFailsafe(l.d, s.d, hover); stub::published<mavros_msgs::CompanionProcessStatus>().clear(); n.publishSystemStatus();
    bool isTerm = (l.ns > term) & (s.ns > term), isCrit = !isTerm & (l.ns > crit) & (s.ns > start);
    int want = isTerm ? 8 : isCrit ? 5 : 4;
    auto& p = stub::published<mavros_msgs::CompanionProcessStatus>();
    sym_assert(p.size() == 1 && p[0].second.component == 196, "one status message with the avoidance component id");
    if (p.size() == 1) sym_assert(p[0].second.state == want, "the message carries the state that follows from the elapsed times");
  }
  sym_cover("end");
}
HARNESS C11_message() {
  AvoidanceNode n(ros::NodeHandle(""), ros::NodeHandle("~")); int st = sym_i32("state", 0, 8); n.setSystemStatus((MAV_STATE)st);
  n.publishSystemStatus(); n.publishSystemStatus();
  auto& p = stub::published<mavros_msgs::CompanionProcessStatus>();
  sym_assert(p.size() == 2, "one message per call");
  for (auto& m : p) { sym_assert(m.second.state == st, "the message carries the state"); sym_assert(m.second.component == 196, "the avoidance component id"); }
  sym_assert((int)n.getSystemStatus() == st, "sending does not change the state"); sym_cover("end");
}

HARNESS C11_landing_check() {
  SafeLandingPlannerNode n(ros::NodeHandle(""));
  int c = sym_concretize(sym_i32("crit_choice", 0, 3)), t = sym_concretize(sym_i32("term_choice", 0, 2));
  static const double C[] = {0.5, 0.25, 1.0, 4.0}, T[] = {15.0, 5.0, 20.0};
  n.safe_landing_planner_->timeout_critical_ = C[c]; n.safe_landing_planner_->timeout_termination_ = T[t]; const int64_t crit = nsOf(C[c]), term = nsOf(T[t]);
  int prev = sym_i32("prev", 0, 8); n.status_msg_.state = prev;
  El l = elapsed("last_s", "last_ns"), s = elapsed("start_s", "start_ns");
  n.checkFailsafe(l.d, s.d); int st = n.status_msg_.state;
  bool isTerm = (l.ns > term) & (s.ns > term), isCrit = !isTerm & (l.ns > crit) & (s.ns > crit);
  sym_assert(!isTerm | (st == 8), "landing planner: terminating when data stays away");
  sym_assert(!isCrit | (st == 5), "landing planner: critical when data is late");
  sym_assert(isTerm | isCrit | (st == prev), "landing planner: unchanged otherwise");
  sym_cover("end");
}

// the periodic loop of the landing planner: what it reports follows from the times at which it runs
//@ time=120
HARNESS C11_landing_loop() {
  SafeLandingPlannerNode n(ros::NodeHandle("")); n.transformed_cloud_mutex_.reset(new std::mutex); n.cloud_msg_mutex_.reset(new std::mutex); n.cloud_ready_cv_.reset(new std::condition_variable);
  const int64_t T0 = 1000ll * 1000000000ll;
  El l = elapsed("last_s", "last_ns"), s = elapsed("start_s", "start_ns"), m = elapsed("status_s", "status_ns");
  stub::now() = ros::Time(1000, 0); ros::Time t = stub::now();
  auto ago = [&](El e) { ros::Time r; bool z = e.d.nsec == 0; r.sec = 1000u - e.d.sec - (z ? 0 : 1); r.nsec = z ? 0 : 1000000000 - e.d.nsec; return r; };
  n.last_algo_time_ = ago(l); n.start_time_ = ago(s); n.t_status_sent_ = ago(m); n.cloud_transformed_ = true; n.status_msg_.state = sym_i32("prev", 0, 8);
  n.cmdLoopCallback(ros::TimerEvent());
  const int64_t crit = 500000000ll, term = 15000000000ll;
  bool isTerm = (l.ns > term) & (s.ns > term), isCrit = !isTerm & (l.ns > crit) & (s.ns > crit);
  auto& p = stub::published<mavros_msgs::CompanionProcessStatus>();
  sym_assert((p.size() == 1) == (m.ns > 200000000ll) && p.size() <= 1, "a status message whenever the last one is older than 0.2 s");
  if (p.size() == 1) { sym_assert(p[0].second.component == 196, "the avoidance component id"); sym_assert(p[0].second.state == (isTerm ? 8 : isCrit ? 5 : 4), "landing planner: the message carries the state that follows from the elapsed times"); sym_cover("sent"); }
  sym_assert((n.last_algo_time_ == t) & !n.cloud_transformed_, "the run is recorded");
  sym_cover("end");
}
// waiting for a cloud: nothing terminates before the termination timeout, everything after it reports termination
static int ticks; static SafeLandingPlannerNode* slp; static int arrive;
HARNESS C11_landing_wait() {
  SafeLandingPlannerNode n(ros::NodeHandle("")); n.transformed_cloud_mutex_.reset(new std::mutex); n.cloud_msg_mutex_.reset(new std::mutex); n.cloud_ready_cv_.reset(new std::condition_variable);
  stub::now() = ros::Time(1000, 0); n.start_time_ = ros::Time(990, 0); n.last_algo_time_ = stub::now(); n.t_status_sent_ = stub::now(); n.cloud_transformed_ = false;
  arrive = sym_i32("arrive", 1, 8); int step = sym_i32("step_s", 1, 9); ticks = 0; slp = &n; static int st; st = step;
  std::function<void()> f = [] { ticks++; stub::now().sec += st; if (ticks == arrive) slp->cloud_transformed_ = true; }; stub::onSpin() = &f;
  n.cmdLoopCallback(ros::TimerEvent()); stub::onSpin() = nullptr;
  auto& p = stub::published<mavros_msgs::CompanionProcessStatus>(); int late = 0;
  for (int k = 1; k <= 8; k++) late += ((k <= arrive) & (k * step > 15)) ? 1 : 0;
  sym_assert(p.size() >= (size_t)late, "a status message for every wait beyond the termination timeout");
  for (size_t i = 0; i < p.size(); i++) { if ((int)i < late) sym_assert(p[i].second.state == 8, "waiting too long reports termination"); sym_assert(p[i].second.component == 196, "the avoidance component id"); }
  if (late == 0 && p.size() == 1) { sym_assert(p[0].second.state == 5, "late but not terminating"); sym_cover("late"); }
  sym_cover("end");
}
