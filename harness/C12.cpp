//! src=avoidance/avoidance_node.cpp,avoidance/common.cpp
//# notifications: each of the 14 tracked names with any one character replaced by any other, with one character missing or any one added (so every near miss of a tracked name), any finite real value up to 1e9 and any integer value up to 2^31; two notifications in a row (thorough three)
//# polling: one pass with any subset of the requests failing and any replies; missions of up to 4 items (thorough 6), any speed type, speed and current flags, command any 16-bit value
//# outside the claim: longer missions; names differing in more than one character
#include "avoidance/avoidance_node.h"
#include "sym.h"
#include <cmath>
#include <time.h>
using namespace avoidance;
extern "C" int nanosleep(const struct timespec*, struct timespec*) { return 0; }
#ifdef THOROUGH
static const int R = 3, NM = 6;
#else
static const int R = 2, NM = 4;
#endif
static const char* const NAMES[14] = {"MPC_ACC_DOWN_MAX", "MPC_ACC_HOR", "MPC_ACC_UP_MAX", "MPC_JERK_MIN", "MPC_JERK_MAX", "MPC_LAND_SPEED", "MPC_TKO_SPEED", "MPC_XY_CRUISE", "MPC_Z_VEL_MAX_DN", "MPC_Z_VEL_MAX_UP", "CP_DIST", "NAV_ACC_RAD", "MPC_YAWRAUTO_MAX", "MPC_AUTO_MODE"};
static float& slot(ModelParameters& p, int k) {
  switch (k) {
    case 0: return p.param_mpc_acc_down_max; case 1: return p.param_mpc_acc_hor; case 2: return p.param_mpc_acc_up_max; case 3: return p.param_mpc_jerk_min; case 4: return p.param_mpc_jerk_max; case 5: return p.param_mpc_land_speed;
    case 6: return p.param_mpc_tko_speed; case 7: return p.param_mpc_xy_cruise; case 8: return p.param_mpc_z_vel_max_dn; case 9: return p.param_mpc_z_vel_max_up; case 10: return p.param_cp_dist; case 11: return p.param_nav_acc_rad;
    default: return p.param_mpc_yawrauto_max;
  }
}
static const char* KN[] = {"name0", "name1", "name2"}; static const char* VN[] = {"real0", "real1", "real2"}; static const char* IN[] = {"int0", "int1", "int2"};
struct Ref { float f[13]; int mode; };
static void start(AvoidanceNode& n, Ref& r) { for (int k = 0; k < 13; k++) { slot(n.px4_, k) = 0.5f + k; r.f[k] = 0.5f + k; } n.px4_.param_mpc_auto_mode = 77; r.mode = 77; }
static void same(AvoidanceNode& n, Ref& r) {
  ModelParameters p = n.getPX4Parameters();
  for (int k = 0; k < 13; k++) sym_assert(slot(p, k) == r.f[k], NAMES[k]);
  sym_assert(p.param_mpc_auto_mode == r.mode, "MPC_AUTO_MODE");
}
HARNESS C12_params() {
  AvoidanceNode n(ros::NodeHandle(""), ros::NodeHandle("~")); Ref r; start(n, r);
  { ModelParameters d; sym_assert(d.param_mpc_auto_mode == -1, "tracked parameters start undefined"); for (int k = 0; k < 13; k++) sym_assert(std::isnan(slot(d, k)), "tracked parameters start undefined"); }
  for (int i = 0; i < R; i++) {
    int k = sym_concretize(sym_i32(KN[i], 0, 13)); mavros_msgs::Param m; m.param_id = NAMES[k]; m.value.real = sym_f64(VN[i], -1e9, 1e9); m.value.integer = sym_i32(IN[i], -2147483647, 2147483647);
    n.px4ParamsCallback(m);
    if (k == 13) r.mode = (int)m.value.integer; else r.f[k] = (float)m.value.real;
    same(n, r);
  }
  sym_cover("end");
}
//@ time=120
HARNESS C12_near_names() {
  AvoidanceNode n(ros::NodeHandle(""), ros::NodeHandle("~")); Ref r; start(n, r);
  int k = sym_concretize(sym_i32("name", 0, 13)), how = sym_concretize(sym_i32("how", 0, 3)); std::string name = NAMES[k]; int L = (int)name.size();
  mavros_msgs::Param m; m.value.real = sym_f64("real", -1e9, 1e9); m.value.integer = sym_i32("int", -1000, 1000); bool hit = false;
  if (how == 0) { int j = sym_concretize(sym_i32("pos", 0, L - 1)); char c = (char)sym_i32("chr", 0, 255); hit = c == name[j]; name[j] = c; }
  if (how == 1) { int j = sym_concretize(sym_i32("pos", 0, L - 1)); name.erase(j, 1); }
  if (how == 2) { int j = sym_concretize(sym_i32("pos", 0, L)); name.insert((size_t)j, 1, (char)sym_i32("chr", 0, 255)); }
  if (how == 3) name = "";
  m.param_id = name;
  n.px4ParamsCallback(m);
  ModelParameters p = n.getPX4Parameters();
  for (int q = 0; q < 13; q++) { bool h = hit & (q == k); sym_assert(slot(p, q) == (h ? (float)m.value.real : r.f[q]), "an unknown name changes nothing, a known one only its own parameter"); }
  sym_assert(p.param_mpc_auto_mode == (hit & (k == 13) ? (int)m.value.integer : r.mode), "an unknown name changes nothing (auto mode)");
  sym_cover("end");
}
static const int POLLED[] = {1, 0, 2, 7, 8, 9, 10, 5, 4, 11, 12};
static AvoidanceNode* self; static int calls; static double val[14]; static bool ok[14], succ[14]; static bool asked[14];
static const char* PV[] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10", "v11", "v12"}; static const char* PO[] = {"o0", "o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8", "o9", "o10", "o11", "o12"}; static const char* PS[] = {"s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "s12"};
//@ time=120
HARNESS C12_poll() {
  AvoidanceNode n(ros::NodeHandle(""), ros::NodeHandle("~")); Ref r; start(n, r); self = &n; calls = 0;
  for (int k = 0; k < 13; k++) { val[k] = sym_f64(PV[k], -1e9, 1e9); ok[k] = sym_bool(PO[k]); succ[k] = sym_bool(PS[k]); asked[k] = false; }
  std::function<bool(mavros_msgs::ParamGet&)> f = [](mavros_msgs::ParamGet& g) {
    self->should_exit_ = true; calls++;
    for (int k = 0; k < 13; k++) if (g.request.param_id == NAMES[k]) { asked[k] = true; g.response.value.real = val[k]; g.response.success = succ[k]; return ok[k]; }
    return false;
  };
  stub::onCall<mavros_msgs::ParamGet>() = &f;
  n.checkPx4Parameters();
  stub::onCall<mavros_msgs::ParamGet>() = nullptr;
  for (int k : POLLED) sym_assert(asked[k], "every polled parameter is requested");
  ModelParameters p = n.getPX4Parameters();
  for (int k = 0; k < 13; k++) sym_assert(slot(p, k) == (asked[k] & ok[k] & succ[k] ? (float)val[k] : r.f[k]), "a successful reply is stored in the parameter it was requested for, a failed one changes nothing");
  sym_assert(p.param_mpc_auto_mode == r.mode, "polling leaves the mode alone"); sym_cover("end");
}
static const char* CM[] = {"cmd0", "cmd1", "cmd2", "cmd3", "cmd4", "cmd5"}; static const char* P1[] = {"type0", "type1", "type2", "type3", "type4", "type5"}; static const char* P2[] = {"speed0", "speed1", "speed2", "speed3", "speed4", "speed5"}; static const char* CU[] = {"cur0", "cur1", "cur2", "cur3", "cur4", "cur5"};
//@ time=120 ttime=600
HARNESS C12_mission() {
  AvoidanceNode n(ros::NodeHandle(""), ros::NodeHandle("~")); int N = sym_concretize(sym_i32("items", 0, NM));
  sym_assert(std::isnan(n.getMissionItemSpeed()), "undefined before any mission");
  mavros_msgs::WaypointList m; float want = NAN; bool have = false; bool done = false; float last = 0.f; bool lastHave = false;
  for (int i = 0; i < N; i++) {
    mavros_msgs::Waypoint w; w.command = (uint16_t)sym_i32(CM[i], 0, 65535); w.is_current = sym_bool(CU[i]); w.param1 = (float)sym_i32(P1[i], 0, 3); w.param2 = sym_f32(P2[i], -100.f, 100.f); w.param3 = 50.f; m.waypoints.push_back(w);
    bool speed = (w.command == 178) & (w.param1 <= 1.f) & (w.param2 > 0.f);
    last = speed ? w.param2 : last; lastHave = lastHave | speed;
    bool now = !done & (w.is_current != 0); have = now ? lastHave : have; want = now ? last : 0.f + (have ? want : 0.f); done = done | (w.is_current != 0);
  }
  n.missionCallback(m);
  float got = n.getMissionItemSpeed();
  sym_assert(have | std::isnan(got), "undefined when no speed change precedes the current item");
  sym_assert(!have | (got == want), "the latest speed change at or before the current item");
  // a second mission without any speed change leaves it as it was
  mavros_msgs::WaypointList e; n.missionCallback(e); sym_assert((n.getMissionItemSpeed() == got) | (std::isnan(got) & std::isnan(n.getMissionItemSpeed())), "an empty mission changes nothing");
  sym_cover("end");
}
