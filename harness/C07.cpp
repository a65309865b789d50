//! src=avoidance/common.cpp
//# vectors: every float/double bit pattern; headings: every float in [-2pi,2pi]; yaw and pitch of every unit quaternion against the direction of the rotated body x axis (0.05 degree, pitch 0.3), and of attitudes built from multiples of 15 degrees
//# outside the claim: yaw within 3 degrees of the vertical; other entry's angles between the multiples of 15 degrees are covered through the direction formula
#include "avoidance/common.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;
static bool eq(double a, double b) { return (a == b) | ((a != a) & (b != b)); }
static bool eqv(const Eigen::Vector3f& a, const Eigen::Vector3f& b) { return eq(a.x(), b.x()) & eq(a.y(), b.y()) & eq(a.z(), b.z()); }
static Eigen::Vector3f any() { float x = sym_f32_any("x"), y = sym_f32_any("y"), z = sym_f32_any("z"); return Eigen::Vector3f(x, y, z); }
HARNESS C07_frames() {
  Eigen::Vector3f v = any(), n = toNED(v), e = toENU(v);
  sym_assert(eq(n.x(), v.y()) & eq(n.y(), v.x()) & eq(n.z(), -v.z()), "east-north-up to north-east-down swaps the horizontal axes and negates the vertical one");
  sym_assert(eq(e.x(), v.y()) & eq(e.y(), v.x()) & eq(e.z(), -v.z()), "and back the same way");
  sym_assert(eqv(toENU(n), v) & eqv(toNED(e), v) & eqv(toNED(n), v), "the conversion is its own inverse");
  sym_cover("end");
}
HARNESS C07_headings() {
  float y = sym_f32("yaw", -720.f, 720.f), r = sym_f32("yaw_rad", -12.f, 12.f), p = sym_f32_any("pitch");
  sym_assert(std::fabs(yawToNEDdeg(y) - (90. - y)) <= 1e-3 && std::fabs(yawToENUdeg(y) - (90. - y)) <= 1e-3, "heading from east counter-clockwise <-> from north clockwise");
  sym_assert(std::fabs(yawToENUdeg(yawToNEDdeg(y)) - y) <= 1e-3, "degrees back and forth");
  sym_assert(std::fabs(yawToNEDrad(r) - (M_PI / 2 - r)) <= 1e-5 && std::fabs(yawToENUrad(r) - (M_PI / 2 - r)) <= 1e-5 && std::fabs(yawToENUrad(yawToNEDrad(r)) - r) <= 1e-5, "radians back and forth");
  sym_assert(eq(pitchtoNED(p), -p) & eq(pitchToENU(pitchtoNED(p)), p), "pitch changes sign");
  sym_cover("end");
}
HARNESS C07_types() {
  Eigen::Vector3f v = any(), a(sym_f32_any("ax"), sym_f32_any("ay"), sym_f32_any("az")); float in = sym_f32_any("i");
  sym_assert(eqv(toEigen(toPoint(v)), v) & eqv(toEigen(toVector3(v)), v) & eqv(toEigen(toXYZ(v)), v) & eqv(toEigen(toXYZI(v, in)), v), "vector conversions keep every component");
  geometry_msgs::Point p; p.x = sym_f64("px", -1e6, 1e6); p.y = sym_f64("py", -1e6, 1e6); p.z = sym_f64("pz", -1e6, 1e6);
  sym_assert(toEigen(p).x() == (float)p.x && toEigen(p).y() == (float)p.y && toEigen(p).z() == (float)p.z, "message point to vector");
  geometry_msgs::Point q = toPoint(v); geometry_msgs::Vector3 w = toVector3(v); pcl::PointXYZI i1 = toXYZI(v, in), i2 = toXYZI(v.x(), v.y(), v.z(), in), i3 = toXYZI(toXYZ(v), in);
  sym_assert(eq(q.x, v.x()) & eq(q.y, v.y()) & eq(q.z, v.z()) & eq(w.x, v.x()) & eq(w.y, v.y()) & eq(w.z, v.z()), "components stay in place");
  sym_assert(eq(i1.intensity, in) & eq(i2.intensity, in) & eq(i3.intensity, in) & eq(i1.x, v.x()) & eq(i1.y, v.y()) & eq(i1.z, v.z()) & eq(i2.x, v.x()) & eq(i2.y, v.y()) & eq(i2.z, v.z()) & eq(i3.x, v.x()) & eq(i3.y, v.y()) & eq(i3.z, v.z()), "intensity points keep coordinates and intensity");
  geometry_msgs::Twist t = toTwist(v, a);
  sym_assert(eqv(toEigen(t.linear), v) & eqv(toEigen(t.angular), a), "twist keeps both parts");
  Eigen::Quaternionf qf(sym_f32_any("qw"), sym_f32_any("qx"), sym_f32_any("qy"), sym_f32_any("qz")); geometry_msgs::Quaternion gq = toQuaternion(qf); Eigen::Quaternionf q2 = toEigen(gq);
  sym_assert(eq(gq.x, qf.x()) & eq(gq.y, qf.y()) & eq(gq.z, qf.z()) & eq(gq.w, qf.w()) & eq(q2.x(), qf.x()) & eq(q2.y(), qf.y()) & eq(q2.z(), qf.z()) & eq(q2.w(), qf.w()), "quaternions keep every component");
  geometry_msgs::PoseStamped ps = toPoseStamped(v, qf);
  sym_assert(eqv(toEigen(ps.pose.position), v) & eq(ps.pose.orientation.w, qf.w()) & eq(ps.pose.orientation.x, qf.x()) & eq(ps.pose.orientation.y, qf.y()) & eq(ps.pose.orientation.z, qf.z()), "stamped pose keeps position and orientation");
  sym_cover("end");
}
static Eigen::Quaternionf unitQ() {  // any unit quaternion (in float precision)
  float x = sym_f32("qx", -1.f, 1.f), y = sym_f32("qy", -1.f, 1.f), z = sym_f32("qz", -1.f, 1.f), r = 1.f - (x * x + y * y + z * z);
  sym_assume(r >= 0.f); float w = std::sqrt(r);
  return Eigen::Quaternionf(sym_fork(sym_bool("neg")) ? -w : w, x, y, z);
}
HARNESS C07_yaw() {  // the body x axis rotated by q points to (1-2(yy+zz), 2(wz+xy), 2(xz-wy)); its horizontal direction is the yaw
  Eigen::Quaternionf q = unitQ(); double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  float hx = 1.f - 2.f * (q.y() * q.y() + q.z() * q.z()), hy = 2.f * (q.w() * q.z() + q.x() * q.y());
  sym_assume((std::fabs(hx) > 0.05f) | (std::fabs(hy) > 0.05f)); (void)w; (void)x; (void)y; (void)z;
  double d = std::fabs(getYawFromQuaternion(q) - std::atan2(hy, hx) * 57.29577951308232);
  sym_assert((d <= 0.05) | (std::fabs(d - 360.) <= 0.05), "yaw is the horizontal direction the body x axis points to");
  sym_cover("end");
}
HARNESS C07_pitch() {
  Eigen::Quaternionf q(sym_f32("qw", -1.f, 1.f), sym_f32("qx", -1.f, 1.f), sym_f32("qy", -1.f, 1.f), sym_f32("qz", -1.f, 1.f)); float s = 2.f * (q.w() * q.y() - q.z() * q.x());
  bool notUnit = std::fabs(q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z() - 1.f) > 1e-3f;
  sym_merge(0); double p = getPitchFromQuaternion(q);
  if (s >= 1.f) sym_assert(notUnit | (std::fabs(p - 90.) <= 0.05), "straight down is at most a right angle");
  else if (s <= -1.f) sym_assert(notUnit | (std::fabs(p + 90.) <= 0.05), "straight up is at most a right angle");
  else sym_assert(notUnit | (std::fabs(p - std::asin(s) * 57.29577951308232) <= 0.3), "pitch is the inclination of the body x axis");
  sym_cover("end");
}
HARNESS C07_attitude_grid() {
  int iy = sym_concretize(sym_i32("iy", -11, 12)), ip = sym_concretize(sym_i32("ip", -5, 5)), ir = sym_concretize(sym_i32("ir", -1, 1));
  double y = iy * M_PI / 12, p = ip * M_PI / 12, ro = ir * 0.3;
  Eigen::Quaterniond qd = quaternionFromRPY(Eigen::Vector3d(ro, p, y)); Eigen::Quaternionf q = qd.cast<float>();
  double d = std::fabs(getYawFromQuaternion(q) - y * 180 / M_PI); sym_assert(d <= 1e-2 || std::fabs(d - 360) <= 1e-2, "yaw of an attitude");
  sym_assert(std::fabs(getPitchFromQuaternion(q) - p * 180 / M_PI) <= 2e-2, "pitch of an attitude");
  sym_cover("end");
}
static void sameOrientation(const Eigen::Quaterniond& r, const Eigen::Quaterniond& q, double s) {
  sym_assert(std::fabs(r.w() - s * q.w()) <= 1e-6, "the same orientation after converting back and forth (w)"); sym_assert(std::fabs(r.x() - s * q.x()) <= 1e-6, "the same orientation after converting back and forth (x)");
  sym_assert(std::fabs(r.y() - s * q.y()) <= 1e-6, "the same orientation after converting back and forth (y)"); sym_assert(std::fabs(r.z() - s * q.z()) <= 1e-6, "the same orientation after converting back and forth (z)");
}
HARNESS C07_orientation() {
  Eigen::Quaterniond q(sym_f64("w", -1., 1.), sym_f64("x", -1., 1.), sym_f64("y", -1., 1.), sym_f64("z", -1., 1.)), id = Eigen::Quaterniond::Identity();
  // q and -q are the same orientation; the sign the code picks is taken from the identity
  sameOrientation(orientationToENU(orientationToNED(q)), q, orientationToENU(orientationToNED(id)).w() > 0 ? 1. : -1.);
  sameOrientation(orientationToNED(orientationToENU(q)), q, orientationToNED(orientationToENU(id)).w() > 0 ? 1. : -1.);
  sym_cover("end");
}
HARNESS C07_turn() {
  float want = sym_f32("desired", -31.f, 31.f), cur = sym_f32("current", -3.1415f, 3.1415f);
  double v = getAngularVelocity(want, cur), d = 2 * v;
  sym_assert(std::fabs(d) <= M_PI + 1e-4, "turns by at most half a turn");
  double k = ((double)want - cur - d) / (2 * M_PI); double n = std::floor(k + 0.5);
  sym_assert(std::fabs(((double)want - cur - d) - 2 * M_PI * n) <= 1e-4, "turns towards the desired heading");
  sym_cover("end");
}
HARNESS C07_nextyaw() {
  Eigen::Vector3f u(sym_f32("ux", -100.f, 100.f), sym_f32("uy", -100.f, 100.f), sym_f32("uz", -100.f, 100.f)), w(sym_f32("wx", -100.f, 100.f), sym_f32("wy", -100.f, 100.f), sym_f32("wz", -100.f, 100.f));
  float r = nextYaw(u, w);
  sym_assert(std::fabs(r - std::atan2(w.y() - u.y(), w.x() - u.x())) <= 1e-6f, "heading from one point to the other");
  if (w.y() > u.y()) sym_assert(r >= 0.f, "left"); if (w.y() < u.y()) sym_assert(r <= 0.f, "right"); if (w.x() > u.x()) sym_assert(std::fabs(r) <= 1.5708f, "ahead"); if (w.x() < u.x()) sym_assert(std::fabs(r) >= 1.5707f, "behind");
  sym_cover("end");
}
