//! src=lp/nodes/local_planner.cpp,lp/nodes/planner_functions.cpp,lp/nodes/star_planner.cpp,lp/nodes/tree_node.cpp,avoidance/common.cpp,avoidance/histogram.cpp
//# every one of the 60 directions; any histogram distance 0..40 m in every direction, any sensor limits with 0.05 <= min <= 1, 2 <= max <= 30 m; 0, 1 or 2 sensor views, each with any centre [-180,180], opening [1,350], pitch [-90,90] and vertical opening [1,180]; any vehicle yaw; vehicle at one of two fixed positions
//# directions whose cell borders lie within 0.02 degree of the border of a view are not checked (float rounding); a cell counts as visible when one of its two borders at the centre of the first row above the horizon is inside a view
//# real-number arithmetic (rounding covered by the 0.02 degree margin); all 60 directions for one view, every 6th for two (thorough: all)
//# the report produced through determineStrategy from a cloud of one point 1..11 m away in one of 2 (thorough 5) horizontal directions
#include "local_planner/local_planner.h"
#include "local_planner/star_planner.h"
#include "local_planner/tree_node.h"
#include "sym.h"
#include <cmath>
using namespace avoidance;
static double off(double a, double b) { double d = a - b; d -= 360. * std::floor(d / 360. + .5); return std::fabs(d); }
static void limits(LocalPlanner& p) {
  avoidance::LocalPlannerNodeConfig c = avoidance::LocalPlannerNodeConfig::__getDefault__();
  c.max_sensor_range_ = sym_f32("max", 2.f, 30.f); c.min_sensor_range_ = sym_f32("min", 0.05f, 1.f);
  p.dynamicReconfigureSetParams(c, 0);
}
static void frame(LocalPlanner& p, const sensor_msgs::LaserScan& m) {
  sym_assert(m.ranges.size() == 60, "one range per azimuth of the histogram");
  sym_assert(m.header.frame_id == "local_origin", "report is in the local frame");
  sym_assert(std::fabs(m.angle_increment - 6. * M_PI / 180.) < 1e-7, "increment is the histogram's resolution");
  sym_assert(m.range_max == p.getSensorRange() && m.range_max == p.max_sensor_range_ && m.range_min == p.min_sensor_range_, "limits are the sensor's limits");
}
static const char *NY[] = {"y0", "y1"}, *NH[] = {"h0", "h1"}, *NP[] = {"p0", "p1"}, *NV[] = {"v0", "v1"};
static char nm[60][8];
enum { VIEW, VEHICLE, PITCH };
static void setup(LocalPlanner& p, int nf, int mode, int pos, Histogram& hist, float* d) {
  limits(p);
  p.position_ = pos ? Eigen::Vector3f(4.5f, -7.25f, 3.f) : Eigen::Vector3f(0.f, 0.f, 0.f);
  p.yaw_fcu_frame_deg_ = mode == VEHICLE ? sym_f32("vehicle_yaw", -180.f, 180.f) : 63.f;
  for (int i = 0; i < nf; i++) {
    float y = mode == VIEW ? sym_f32(NY[i], -180.f, 180.f) : i ? 140.f : -30.f, h = mode == PITCH ? (i ? 40.f : 200.f) : sym_f32(NH[i], 1.f, 350.f);
    float pi = mode == PITCH ? sym_f32(NP[i], -90.f, 90.f) : 0.f, v = mode == PITCH ? sym_f32(NV[i], 1.f, 180.f) : 60.f;
    p.setFOV(i, FOV(y, pi, h, v));
  }
  for (int j = 0; j < 60; j++) { nm[j][0] = 'd'; nm[j][1] = '0' + j / 10; nm[j][2] = '0' + j % 10; d[j] = sym_f32(nm[j], 0.f, 40.f); hist.set_dist(0, j, d[j]); hist.set_dist(7, j, 5.f); }
}
// the receiver counts from north (+y) with increasing azimuth; direction i of the report is azimuth 6i+3, which is cell (6i+3+180)/6 of the histogram
static int cellOf(int i) { return (int)std::floor((6. * i + 3. + 180.) / 6.) % 60; }
static void value(const sensor_msgs::LaserScan& m, int i, float d) {
  float r = m.ranges[i];
  sym_assert(std::isnan(r) | (d > m.range_min ? r == d : (r > m.range_max) & (r <= m.range_max + 0.02f)), "a visible direction carries the histogram's distance, or just over the maximum range when free");
}
static void geometry(int nf, int mode, int pos, int step, int first) {  // against view geometry written down independently
  LocalPlanner p; Histogram hist(ALPHA_RES); float d[60]; setup(p, nf, mode, pos, hist, d);
  p.updateObstacleDistanceMsg(hist);
  sensor_msgs::LaserScan m; p.getObstacleDistanceData(m); frame(p, m);
  if (m.ranges.size() == 60) for (int i = first; i < 60; i += step) {
    double fcu = 90. - (6. * i + 3.) - p.yaw_fcu_frame_deg_;
    bool in = false, out = true;
    for (int k = 0; k < nf; k++) {
      const FOV& f = p.fov_fcu_frame_[k];
      double b1 = off(fcu + 3., f.yaw_deg) - f.h_fov_deg / 2., b2 = off(fcu - 3., f.yaw_deg) - f.h_fov_deg / 2., e = std::fabs(3. + f.pitch_deg) - f.v_fov_deg / 2.;
      in = in | (((b1 < -0.02) | (b2 < -0.02)) & (e < -0.02)); out = out & (((b1 > 0.02) & (b2 > 0.02)) | (e > 0.02));
    }
    bool nan = std::isnan(m.ranges[i]);
    sym_assert(!in | !nan, "a visible direction has a value"); sym_assert(!out | nan, "a direction outside every view is not-a-number");
    value(m, i, d[cellOf(i)]);
  }
  sym_cover("end");
}
#ifdef THOROUGH
static const int S2 = 1, DSTEP = 1;
#else
static const int S2 = 6, DSTEP = 3;
#endif
//@ time=120 args=--reals
HARNESS C14_none() { geometry(0, VEHICLE, 0, 1, 0); }
//@ time=120 args=--reals
HARNESS C14_view0() { geometry(1, VIEW, 0, 4, 0); }
//@ time=120 args=--reals
HARNESS C14_vehicle0() { geometry(1, VEHICLE, 1, 4, 0); }
//@ time=120 args=--reals
HARNESS C14_view1() { geometry(1, VIEW, 1, 4, 1); }
//@ time=120 args=--reals
HARNESS C14_vehicle1() { geometry(1, VEHICLE, 0, 4, 1); }
//@ time=120 args=--reals
HARNESS C14_view2() { geometry(1, VIEW, 0, 4, 2); }
//@ time=120 args=--reals
HARNESS C14_vehicle2() { geometry(1, VEHICLE, 1, 4, 2); }
//@ time=120 args=--reals
HARNESS C14_view3() { geometry(1, VIEW, 1, 4, 3); }
//@ time=120 args=--reals
HARNESS C14_vehicle3() { geometry(1, VEHICLE, 0, 4, 3); }
//@ time=120 args=--reals
HARNESS C14_pitch() { geometry(2, PITCH, 0, 1, 0); }
//@ time=120 ttime=800 args=--reals
HARNESS C14_two() { geometry(2, VIEW, 1, S2, 2); }
//@ time=120 ttime=800 args=--reals
HARNESS C14_two_vehicle() { geometry(2, VEHICLE, 1, S2, 5); }
//@ time=120 args=--reals
HARNESS C14_cloud() {  // from a cloud: only when collision prevention is on
  LocalPlanner p; p.setDefaultPx4Parameters(); 
  avoidance::LocalPlannerNodeConfig c = avoidance::LocalPlannerNodeConfig::__getDefault__(); c.n_expanded_nodes_ = 0; p.dynamicReconfigureSetParams(c, 0);
  bool on = sym_fork(sym_bool("on")); p.px4_.param_cp_dist = on ? 4.f : -1.f;
  p.setState(Eigen::Vector3f(1.f, 2.f, 3.f), Eigen::Vector3f(0.f, 0.f, 0.f), Eigen::Quaternionf(1.f, 0.f, 0.f, 0.f));
  p.setFOV(0, FOV(0.f, 0.f, 350.f, 60.f));
  int dir = 1 + DSTEP * sym_concretize(sym_i32("dir", 0, 4 / DSTEP)); float r = sym_f32("r", 1.f, 11.f);
  double az = (10 * dir * 6. + 3.) * M_PI / 180.; float ux = (float)std::sin(az), uy = (float)std::cos(az);
  pcl::PointXYZI q; q.x = 1.f + ux * r; q.y = 2.f + uy * r; q.z = 3.05f; q.intensity = 0.f; p.final_cloud_.push_back(q);
  p.distance_data_.range_max = -1.f;
  p.create2DObstacleRepresentation(p.px4_.param_cp_dist > 0.f);
  sensor_msgs::LaserScan m; p.getObstacleDistanceData(m);
  if (!on) sym_assert(m.range_max == -1.f && m.ranges.empty(), "no report is made when the autopilot does not ask for it");
  else {
    frame(p, m);
    if (m.ranges.size() == 60) for (int i = 0; i < 60; i++) {
      if (i == 10 * dir) sym_assert(std::fabs(m.ranges[i] - r) < 0.02f, "the direction of the obstacle carries its distance");
      else sym_assert(std::isnan(m.ranges[i]) | (m.ranges[i] > m.range_max), "the other directions are free");
    }
  }
  sym_cover("end");
}
//@ time=120 args=--reals
HARNESS C14_cycles() {  // consecutive planning cycles: the report shows the newest cloud only
  LocalPlanner p; p.setDefaultPx4Parameters();
  avoidance::LocalPlannerNodeConfig c = avoidance::LocalPlannerNodeConfig::__getDefault__(); c.n_expanded_nodes_ = 0; p.dynamicReconfigureSetParams(c, 0);
  p.setState(Eigen::Vector3f(1.f, 2.f, 3.f), Eigen::Vector3f(0.f, 0.f, 0.f), Eigen::Quaternionf(1.f, 0.f, 0.f, 0.f));
  p.setFOV(0, FOV(0.f, 0.f, 350.f, 60.f));
  int k1 = sym_concretize(sym_i32("first", 0, 2)), k2 = sym_concretize(sym_i32("second", 0, 2)); float r1 = sym_f32("r1", 1.f, 11.f), r2 = sym_f32("r2", 1.f, 11.f);
  for (int cycle = 0; cycle < 2; cycle++) {
    int k = cycle ? k2 : k1; float r = cycle ? r2 : r1; p.final_cloud_.points.clear();
    if (k) { double az = (10 * k * 6. + 3.) * M_PI / 180.; pcl::PointXYZI q; q.x = 1.f + (float)std::sin(az) * r; q.y = 2.f + (float)std::cos(az) * r; q.z = 3.05f; q.intensity = 0.f; p.final_cloud_.push_back(q); }
    p.create2DObstacleRepresentation(true);
    sensor_msgs::LaserScan m; p.getObstacleDistanceData(m); frame(p, m);
    if (m.ranges.size() == 60) for (int i = 0; i < 60; i++) {
      if (k && i == 10 * k) sym_assert(std::fabs(m.ranges[i] - r) < 0.02f, "the direction of the obstacle carries its distance in every cycle");
      else sym_assert(std::isnan(m.ranges[i]) | (m.ranges[i] > m.range_max), "the other directions are free, whatever was there in the cycle before");
    }
  }
  sym_cover("end");
}
