//! src=slp/nodes/safe_landing_planner_node.cpp,slp/nodes/safe_landing_planner.cpp,slp/nodes/safe_landing_planner_visualization.cpp,avoidance/common.cpp
//# cycle: any time since start, the last evaluation and the last heartbeat (0..40 s, nanoseconds), time-outs of five pairs of 0..20 s (two while waiting), cloud present or arriving after 1-3 waits of any length up to 10 s, the evaluation taking any time up to 1 s, every state reported before; poses with every double bit pattern; the evaluation itself (C25-C28) replaced by one that records its inputs
//# cloud thread: every schedule of up to 8 (thorough 10) events (cloud arriving while waiting, sleeping or transforming; spurious wake-up; evaluation; transform becoming available; transform failing; exit); clouds of 3 points, one of them not a number; transforms are translations
//# start: the thread's first pass runs at the moment it is started; outside the claim: data races on the plain flag between the threads
#include "safe_landing_planner/safe_landing_planner_node.hpp"
#include "sym.h"
#include <cmath>
#ifdef THOROUGH
#define NEV 10
#else
#define NEV 8
#endif
using namespace avoidance;
typedef safe_landing_planner::SLPGridMsg Msg;
typedef mavros_msgs::CompanionProcessStatus Status;
static bool eqf(float a, float b) { return (a == b) | ((a != a) & (b != b)); }
static char nm[256][12];
static const char* nam(const char* b, int k) { static int c = 0; char* s = nm[c++ % 256]; int i = 0; while (b[i]) { s[i] = b[i]; i++; } if (k > 9) s[i++] = '0' + k / 10; s[i++] = '0' + k % 10; s[i] = 0; return s; }
static SafeLandingPlannerNode* D = nullptr; static int ran = 0; static Eigen::Vector3f rPos; static Eigen::Quaternionf rQ; static float rX; static size_t rN; static ros::Duration took; static std::function<void()> onWait; static bool started = false, ready = false, runNow = false;
namespace avoidance {
void SafeLandingPlannerVisualization::visualizeSafeLandingPlanner(const SafeLandingPlanner&, const geometry_msgs::Point&, const geometry_msgs::Point&, safe_landing_planner::SafeLandingPlannerNodeConfig&) {}
void SafeLandingPlanner::runSafeLandingPlanner() { ran++; rPos = position_; rN = cloud_.points.size(); rX = rN ? cloud_.points[0].x : -1.f; stub::now() += took; pos_index_ = Eigen::Vector2i(3, 4); }
}
namespace std {
void condition_variable::wait(unique_lock<mutex>& l) { l.unlock(); if (onWait) onWait(); l.lock(); }
void thread::_M_start_thread(_State_ptr s, void (*)()) { started = true; if (D) ready = D->cloud_msg_mutex_ && D->transformed_cloud_mutex_ && D->cloud_ready_cv_; if (runNow) s->_M_run(); }
}
struct Det : SafeLandingPlannerNode { Det(bool m = true) : SafeLandingPlannerNode(ros::NodeHandle("")) { D = this; if (m) { transformed_cloud_mutex_.reset(new std::mutex); cloud_msg_mutex_.reset(new std::mutex); cloud_ready_cv_.reset(new std::condition_variable); } Grid& g = safe_landing_planner_->previous_grid_; g.resize(1.f, 1.f); } };
static sensor_msgs::PointCloud2 cloud(int k) { sensor_msgs::PointCloud2 m; m.header.frame_id = k % 2 ? "camA" : "camB"; m.header.stamp = ros::Time(500 + k, 0); m.stub_xyz = {100.f * k, 1.f, 2.f, NAN, NAN, NAN, 100.f * k + 50.f, 3.f, 4.f}; m.width = 3; m.height = 1; m.is_dense = false; return m; }
static bool coarse = false;
static ros::Time past(const char* b) { if (coarse) return ros::Time(sym_i32(nam(b, 0), 960, 999), 750000000); uint32_t s = sym_i32(nam(b, 0), 960, 1000), n = sym_i32(nam(b, 1), 0, 999999999); ros::Time t(s, n); sym_assume(t <= ros::Time(1000, 0)); return t; }
static void cycle(int need) {
  coarse = need > 0; stub::now() = ros::Time(1000, 0); Det d; ran = 0; auto& p = *d.safe_landing_planner_; d.start_time_ = past("start"); d.last_algo_time_ = past("algo"); d.t_status_sent_ = past("sent"); int which = sym_concretize(sym_i32("timeouts", 0, need ? 1 : 4)); static const int TT[5] = {120, 16, 1, 80, 0}, CC[5] = {4, 24, 0, 80, 160}; int T = TT[which], C = CC[which];
  p.timeout_termination_ = T / 8.; p.timeout_critical_ = C / 8.; ros::Duration dT(T / 8.), dC(C / 8.); d.status_msg_.state = sym_i32("before", 0, 8); took = coarse ? ros::Duration(0, 300000000) : ros::Duration(0, sym_i32("took", 0, 999999999)); ros::Time start = d.start_time_, last = d.last_algo_time_, sent = d.t_status_sent_;
  geometry_msgs::PoseStamped pm; pm.pose.position.x = sym_f64_any("px"); pm.pose.position.y = sym_f64_any("py"); pm.pose.position.z = sym_f64_any("pz"); pm.pose.orientation.w = 1.; if (!need) d.positionCallback(pm); d.cloud_transformed_ = need == 0; stub::published<Msg>().clear(); auto& st = stub::published<Status>(); st.clear();
  int spins = 0, late = 0; bool right = true; std::function<void()> f = [&] { spins++; stub::now() += ros::Duration(sym_i32(nam("wait", spins), 0, 10), coarse ? 500000000 : 0); right = right & (st.size() == (size_t)late); if (spins == need) { d.positionCallback(pm); d.cloud_transformed_ = true; } if (stub::now() - ros::Time(1000, 0) > dT) late++; if (spins > 4) sym_exit(); };
  stub::onSpin() = &f; d.cmdLoopCallback(ros::TimerEvent()); stub::onSpin() = nullptr; ros::Time end = stub::now(), began = end - took;
  sym_assert(spins == need, "a cycle waits for a cloud"); sym_assert((ran == 1) & !d.cloud_transformed_, "and evaluates it once"); sym_assert(eqf(rPos.x(), (float)pm.pose.position.x) & eqf(rPos.y(), (float)pm.pose.position.y) & eqf(rPos.z(), (float)pm.pose.position.z), "at the latest position"); sym_assert((stub::publishedOn<Msg>("grid_slp") == 1) && stub::published<Msg>()[0].second.curr_pos_index.x == 3. && stub::published<Msg>()[0].second.curr_pos_index.y == 4., "and publishes the grid"); sym_assert(d.last_algo_time_ == end, "the evaluation's end is noted");
  sym_assert(right, "a cloud missing for longer than the termination timeout is reported at every wait"); ros::Duration since = began - last, up = began - start; bool term = (since > dT) & (up > dT), crit = (since > dC) & (up > dC); int want = term ? 8 : crit ? 5 : 4;
  for (int i = 0; i < late; i++) sym_assert((st.size() > (size_t)i) && (st[i].second.state == 8) & (st[i].second.component == 196), "as flight termination");
  sym_assert(d.status_msg_.state == want, "the status follows the age of the last evaluation"); bool beat = (late == 0) && (began - sent > ros::Duration(0.2)); sym_assert(st.size() == (size_t)(late + (beat ? 1 : 0)), "a heartbeat follows when the last one is older than 0.2 s");
  if (beat) { sym_assert((st.back().first == "mavros/companion_process/status") && (st.back().second.state == want) & (st.back().second.component == 196) & (st.back().second.header.stamp == end) & (d.t_status_sent_ == end), "with the current state and time"); }
  sym_cover("end");
}
// schedules of the cloud thread
static int events, newest, taken, handed, woke; static bool tfOk, pendingAtWake; static int e_;
static int ev(int k) { if (events == 0) { D->should_exit_ = true; return -1; } events--; return sym_concretize(sym_i32(nam("event", e_++), 0, k - 1)); }
static void arrive() { if (!D->cloud_msg_mutex_->try_lock()) return; D->cloud_msg_mutex_->unlock(); newest++; D->pointCloudCallback(cloud(newest)); }
static void check() {
  if (!D->cloud_transformed_) return; auto& c = D->safe_landing_planner_->cloud_; sym_assert((taken >= 0) & (taken >= handed), "the cloud handed over is one that arrived and none older than the last"); handed = taken;
  sym_assert((c.points.size() == 2) && ((c.points[0].x == 100.f * taken + 10.f) & (c.points[0].y == 21.f) & (c.points[0].z == 32.f) & (c.points[1].x == 100.f * taken + 60.f) & (c.points[1].y == 23.f) & (c.points[1].z == 34.f)), "the newest one when its transform was known, in the local frame, without invalid points"); sym_assert(c.header.frame_id == "local_origin", "with its frame");
}
static void waiting() {
  sym_assert(!D->should_exit_, "the thread ends when asked to"); check(); if (woke) sym_assert(D->cloud_transformed_, "a cloud that woke the thread is handed over before it waits again"); woke = 0;
  for (;;) { int e = ev(4); if (e == 0) { arrive(); woke = 1; } else if (e == 1) { if (newest < 0) { D->should_exit_ = true; } woke = newest >= 0; } else if (e == 2) { if (!D->cloud_transformed_) sym_exit(); int was = ran; D->cmdLoopCallback(ros::TimerEvent()); sym_assert((ran == was + 1) & (rN == 2) & (rX == 100.f * handed + 10.f), "the evaluation uses it"); sym_assert(!D->cloud_transformed_, "once"); continue; } else if (e == 3) D->should_exit_ = true; if (D->should_exit_) woke = 0; return; }
}
static void sleeping() { if (D->should_exit_) return; sym_assert(!D->cloud_transformed_, "sleeps only for a transform"); int e = ev(3); if (e == 0) arrive(); if (e == 1) { if (tfOk) sym_exit(); tfOk = true; } if (e == 2) D->should_exit_ = true; }
static bool canTf(const std::string& a, const std::string& b, const ros::Time& t) { if (newest < 0) return false; sym_assert(a == "local_origin" && b == (newest % 2 ? "camA" : "camB") && t == ros::Time(500 + newest, 0), "the transform of the newest cloud at its time"); if (tfOk) taken = newest; return tfOk; }
static bool failTf(const std::string& f, const std::string& src) { sym_assert(f == "local_origin" && src == (taken % 2 ? "camA" : "camB"), "into the local frame from the cloud's"); int e = ev(3); if (e == 0) return true; if (e == 1) arrive(); return false; }
static void begin(Det& d) { newest = taken = handed = -1; ran = 0; woke = 0; events = NEV; d.tf_listener_.t.setIdentity(); d.tf_listener_.t.setOrigin(tf::Vector3(10., 20., 30.)); d.tf_listener_.canF = canTf; d.tf_listener_.failF = failTf; onWait = waiting; static std::function<void()> sl = sleeping; stub::onSleep() = &sl; stub::now() = ros::Time(1000, 0); took = ros::Duration(0, 0); d.cloud_transformed_ = false; }
static void finish() { check(); stub::onSleep() = nullptr; onWait = nullptr; D->should_exit_ = true; sym_cover("end"); }
//@ time=200
HARNESS C37_cycle() { cycle(0); }
//@ time=250
HARNESS C37_cycle_wait1() { cycle(1); }
//@ time=250
HARNESS C37_cycle_wait2() { cycle(2); }
//@ time=800 tier=thorough assert-ms=200000
HARNESS C37_cycle_wait3() { cycle(3); }
//@ time=200
HARNESS C37_thread_transform() { sym_merge(0); Det d; begin(d); tfOk = true; d.pointCloudTransformThread(); finish(); }
//@ time=200
HARNESS C37_thread_no_transform() { sym_merge(0); Det d; begin(d); tfOk = false; d.pointCloudTransformThread(); finish(); }
//@ time=100
HARNESS C37_start() {  // the thread may run before anything else
  sym_merge(0); Det d(false); begin(d); events = 3; tfOk = true; started = false; runNow = true; d.startNode(); runNow = false; sym_assert(started & ready, "the cloud thread starts when all it needs exists"); finish();
}
//@ time=100
HARNESS C37_inputs() {
  Det d; geometry_msgs::PoseStamped a, b; a.pose.position.x = sym_f64_any("ax"); b.pose.position.x = sym_f64_any("bx"); b.pose.position.y = sym_f64_any("by"); b.pose.position.z = sym_f64_any("bz"); b.pose.orientation.x = sym_f64_any("qx"); b.pose.orientation.y = sym_f64_any("qy"); b.pose.orientation.z = sym_f64_any("qz"); b.pose.orientation.w = sym_f64_any("qw"); d.positionCallback(a); d.positionCallback(b);
  d.cloud_transformed_ = true; ran = 0; took = ros::Duration(0, 0); stub::now() = ros::Time(1000, 0); d.cmdLoopCallback(ros::TimerEvent()); auto& p = *d.safe_landing_planner_; sym_assert(eqf(rPos.x(), (float)b.pose.position.x) & eqf(rPos.y(), (float)b.pose.position.y) & eqf(rPos.z(), (float)b.pose.position.z) & d.position_received_, "the evaluation uses the latest position"); (void)p;
  Msg m; m.header.seq = sym_i32("seq", 0, 1000); m.grid_size = sym_f64_any("size"); m.mean.data.push_back(sym_f32_any("mean")); d.cloud_transformed_ = false; d.rawGridCallback(m); auto& r = d.safe_landing_planner_->raw_grid_; sym_assert(d.cloud_transformed_ & (r.header.seq == m.header.seq) & (r.mean.data.size() == 1), "a recorded grid stands for a cloud"); sym_cover("end");
}
