//! src=avoidance/common.cpp
//# every double bit pattern (NaN and infinities included) for pose, orientation, velocity, control points and duration; the message holds arbitrary earlier content
//# yaw round trip through the orientation: every multiple of 15 degrees; elsewhere the yaw is the one tf extracts (tf is a stub implementing its published formula)
#include "avoidance/common.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;
static bool eq(double a, double b) { return (a == b) | ((a != a) & (b != b)); }
static bool allNan(const mavros_msgs::PositionTarget& p) {
  return (p.position.x != p.position.x) & (p.position.y != p.position.y) & (p.position.z != p.position.z) & (p.velocity.x != p.velocity.x) & (p.velocity.y != p.velocity.y) & (p.velocity.z != p.velocity.z) &
         (p.acceleration_or_force.x != p.acceleration_or_force.x) & (p.acceleration_or_force.y != p.acceleration_or_force.y) & (p.acceleration_or_force.z != p.acceleration_or_force.z) & (p.yaw != p.yaw) & (p.yaw_rate != p.yaw_rate);
}
static void dirty(mavros_msgs::Trajectory& t) {
  double gp = sym_f64_any("old_position"), gv = sym_f64_any("old_velocity"), ga = sym_f64_any("old_acceleration"); float gy = sym_f32_any("old_yaw"), gr = sym_f32_any("old_yawrate");
  for (mavros_msgs::PositionTarget* p : {&t.point_1, &t.point_2, &t.point_3, &t.point_4, &t.point_5}) { p->position.x = p->position.y = p->position.z = gp; p->velocity.x = p->velocity.y = p->velocity.z = gv; p->acceleration_or_force.x = p->acceleration_or_force.y = p->acceleration_or_force.z = ga; p->yaw = gy; p->yaw_rate = gr; }
  t.point_valid = {false, true, true, true, true}; t.time_horizon = {1, 2, 3, 4, 5}; t.type = 9;
}
HARNESS C06_trajectory() {
  mavros_msgs::Trajectory t; dirty(t);
  geometry_msgs::PoseStamped p; geometry_msgs::Twist v;
  p.pose.position.x = sym_f64_any("px"); p.pose.position.y = sym_f64_any("py"); p.pose.position.z = sym_f64_any("pz");
  v.linear.x = sym_f64_any("vx"); v.linear.y = sym_f64_any("vy"); v.linear.z = sym_f64_any("vz"); v.angular.z = sym_f64("wz", -10., 10.);
  double yaw = 0.25; p.pose.orientation = tf::createQuaternionMsgFromYaw(yaw);
  stub::now() = ros::Time(sym_f64_grid("t", 0., 1000., -4));
  transformToTrajectory(t, p, v);
  sym_assert(t.type == 0, "way-point representation");
  sym_assert(eq(t.point_1.position.x, p.pose.position.x) & eq(t.point_1.position.y, p.pose.position.y) & eq(t.point_1.position.z, p.pose.position.z), "position transferred unchanged");
  sym_assert(eq(t.point_1.velocity.x, v.linear.x) & eq(t.point_1.velocity.y, v.linear.y) & eq(t.point_1.velocity.z, v.linear.z), "velocity transferred unchanged");
  sym_assert((t.point_1.acceleration_or_force.x != t.point_1.acceleration_or_force.x) & (t.point_1.acceleration_or_force.y != t.point_1.acceleration_or_force.y) & (t.point_1.acceleration_or_force.z != t.point_1.acceleration_or_force.z), "no acceleration commanded");
  sym_assert(std::fabs(t.point_1.yaw - yaw) < 1e-5, "yaw of the orientation");
  sym_assert(t.point_1.yaw_rate == (float)-v.angular.z, "yaw rate from the angular velocity");
  sym_assert(allNan(t.point_2) & allNan(t.point_3) & allNan(t.point_4) & allNan(t.point_5), "all other points hold only not-a-number placeholders");
  sym_assert(t.point_valid[0] && !t.point_valid[1] && !t.point_valid[2] && !t.point_valid[3] && !t.point_valid[4], "only point one is flagged valid");
  bool th = true; for (int i = 0; i < 5; i++) th = th & (t.time_horizon[i] != t.time_horizon[i]);
  sym_assert(th, "no time horizon");
  sym_assert(t.header.stamp.toSec() == stub::now().toSec(), "stamped with the current time");
  sym_cover("end");
}
HARNESS C06_yaw() {
  mavros_msgs::Trajectory t; geometry_msgs::PoseStamped p; geometry_msgs::Twist v;
  p.pose.orientation.x = sym_f64("qx", -1., 1.); p.pose.orientation.y = sym_f64("qy", -1., 1.); p.pose.orientation.z = sym_f64("qz", -1., 1.); p.pose.orientation.w = sym_f64("qw", -1., 1.);
  transformToTrajectory(t, p, v);
  sym_assert(std::fabs(t.point_1.yaw - tf::getYaw(p.pose.orientation)) <= 1e-6, "yaw is the orientation's yaw");
  sym_cover("end");
}
HARNESS C06_yaw_grid() {
  int k = sym_concretize(sym_i32("k", -11, 12));
  mavros_msgs::Trajectory t; geometry_msgs::PoseStamped p; geometry_msgs::Twist v;
  p.pose.orientation = tf::createQuaternionMsgFromYaw(k * M_PI / 12);
  transformToTrajectory(t, p, v);
  double d = std::fabs(t.point_1.yaw - k * M_PI / 12); sym_assert(d <= 1e-5 || std::fabs(d - 2 * M_PI) <= 1e-5, "commanded yaw is transferred");
  sym_cover("end");
}
HARNESS C06_bezier() {
  mavros_msgs::Trajectory t; dirty(t);
  std::array<Eigen::Vector4d, 5> cp; static const char *N[5][4] = {{"a0", "a1", "a2", "a3"}, {"b0", "b1", "b2", "b3"}, {"c0", "c1", "c2", "c3"}, {"d0", "d1", "d2", "d3"}, {"e0", "e1", "e2", "e3"}};
  for (int i = 0; i < 5; i++) for (int j = 0; j < 4; j++) cp[i][j] = j < 3 ? sym_f64(N[i][j], -1000., 1000.) : sym_f64(N[i][j], -7., 7.);
  double dur = sym_f64_any("duration");
  transformToBezier(t, cp, dur);
  sym_assert(t.type == 1, "Bezier representation");
  mavros_msgs::PositionTarget* q[5] = {&t.point_1, &t.point_2, &t.point_3, &t.point_4, &t.point_5};
  for (int i = 0; i < 5; i++) {
    sym_assert(q[i]->position.x == (double)(float)cp[i][1] && q[i]->position.y == (double)(float)cp[i][0] && q[i]->position.z == -(double)(float)cp[i][2], "control point carried in the autopilot bridge's frame");
    sym_assert(std::fabs(q[i]->yaw - (M_PI / 2 - cp[i][3])) <= 2e-4, "yaw of the control point carried");
    sym_assert(t.point_valid[i], "all control points valid");
  }
  sym_assert(eq(t.time_horizon[4], (float)dur), "duration carried");
  for (int i = 0; i < 4; i++) sym_assert(t.time_horizon[i] != t.time_horizon[i], "only the last horizon entry is set");
  sym_cover("end");
}
HARNESS C06_unused() {
  mavros_msgs::Trajectory t; dirty(t); mavros_msgs::PositionTarget o = t.point_2; fillUnusedTrajectoryPoint(t.point_3);
  sym_assert(allNan(t.point_3), "unused points hold only not-a-number placeholders"); sym_assert(eq(t.point_2.position.x, o.position.x) & eq(t.point_2.velocity.y, o.velocity.y) & eq(t.point_2.yaw, o.yaw), "other points untouched"); sym_cover("end");
}
