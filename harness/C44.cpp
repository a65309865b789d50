//! src=avoidance/rviz_world_loader.cpp cflags=-include,world_env.h
//# world files: 1..3 objects, one of them of any type (cube, sphere, cylinder, mesh with a fixed or a model:// resource, unknown), any position, orientation and size
//# models: GAZEBO_MODEL_PATH unset, with one or with two locations, HOME set or not; in every location the model's path is absent or of any file type
//# drone: any pose (1000 m) and orientation; outside the claim: reading and parsing YAML (yaml-cpp is replaced by a tree model), malformed files, empty locations in GAZEBO_MODEL_PATH
#include "avoidance/rviz_world_loader.h"
#include <cmath>
using namespace avoidance;
typedef visualization_msgs::Marker M;
typedef visualization_msgs::MarkerArray MA;
static const char* TYPES[] = {"cube", "sphere", "cylinder", "mesh", "mesh", "pyramid"};
static YAML::Node vec(const char* n, const float* v, int k) { std::vector<YAML::Node> s; for (int i = 0; i < k; i++) s.push_back(YAML::Node::scalar(v[i])); return YAML::Node::list(s); }
struct Obj { int t; float p[3], q[4], s[3]; };
static Obj any(int t, int i) { static const char* N[3][10] = {{"px0", "py0", "pz0", "qx0", "qy0", "qz0", "qw0", "sx0", "sy0", "sz0"}, {"px1", "py1", "pz1", "qx1", "qy1", "qz1", "qw1", "sx1", "sy1", "sz1"}, {"px2", "py2", "pz2", "qx2", "qy2", "qz2", "qw2", "sx2", "sy2", "sz2"}}; Obj o; o.t = t; for (int k = 0; k < 3; k++) o.p[k] = sym_f32(N[i][k], -1000.f, 1000.f); for (int k = 0; k < 4; k++) o.q[k] = sym_f32(N[i][3 + k], -1.f, 1.f); for (int k = 0; k < 3; k++) o.s[k] = sym_f32(N[i][7 + k], 0.f, 1000.f); return o; }
static YAML::Node yaml(const Obj& o, int i) { YAML::Node n; n.put("type", YAML::Node::scalar(std::string(TYPES[o.t]))).put("name", YAML::Node::scalar(std::string("thing"))).put("frame_id", YAML::Node::scalar(std::string(i == 1 ? "map" : "local_origin"))).put("mesh_resource", YAML::Node::scalar(std::string(o.t == 3 ? "package://avoidance/a.dae" : o.t == 4 ? "model://box/meshes/b.dae" : ""))).put("position", vec("p", o.p, 3)).put("orientation", vec("q", o.q, 4)).put("scale", vec("s", o.s, 3)); return n; }
static std::string asked; static std::vector<std::string> there;
static bool onceOn(const std::string& t) { int n = 0; for (auto& s : stub::subs()) n += s.topic == t; return n == 1; }
static WorldVisualizer* start(const char* key, const char* ns) { stub::now() = ros::Time(1000, 5); stub::params<std::string>()[key] = "/worlds/w.yaml"; auto* w = new WorldVisualizer(ros::NodeHandle(""), ns); sym_assert(onceOn("mavros/local_position/pose"), "the world display listens to the vehicle's pose"); sym_assert(stub::timers().size() == 1, "and has one cycle"); auto& t = stub::timers()[0]; sym_assert((t.period == ros::Duration(2.0)) & t.autostart & !t.oneshot, "which repeats every two seconds"); return w; }
static void placed(const M& m, const float* p, const float* q, const float* s) {
  bool ok = true; ok &= (m.pose.position.x == (double)p[0]) & (m.pose.position.y == (double)p[1]) & (m.pose.position.z == (double)p[2]); sym_assert(ok, "at its position");
  sym_assert((m.pose.orientation.x == (double)q[0]) & (m.pose.orientation.y == (double)q[1]) & (m.pose.orientation.z == (double)q[2]) & (m.pose.orientation.w == (double)q[3]), "with its orientation");
  sym_assert((m.scale.x == (double)s[0]) & (m.scale.y == (double)s[1]) & (m.scale.z == (double)s[2]), "and its size");
}
//@ time=60 args=--reals
HARNESS C44_world() {
  int n = sym_concretize(sym_i32("objects", 1, 3)), k = sym_concretize(sym_i32("which", 0, 2)), t = sym_concretize(sym_i32("type", 0, 5)); sym_assume(k < n); bool priv = sym_fork(sym_bool("private")); stub::env()["GAZEBO_MODEL_PATH"] = "/models"; stub::env()["HOME"] = "/home/u"; stub::onStat() = [](const std::string& p, unsigned& m) { m = S_IFREG | 0644; return p == "/models/box/meshes/b.dae" || p == "/worlds/w.yaml" ? 0 : -1; };
  std::vector<Obj> o; for (int i = 0; i < n; i++) o.push_back(any(i == k ? t : (i + 1) % 3, i)); std::vector<YAML::Node> l; for (int i = 0; i < n; i++) l.push_back(yaml(o[i], i)); stub::yaml()["/worlds/w.yaml"] = YAML::Node::list(l);
  start(priv ? "/planner/world_name" : "world_name", priv ? "/planner" : ""); auto& out = stub::published<MA>();
  for (int cycle = 0; cycle < 2; cycle++) {
    out.clear(); stub::timers()[0].callback(ros::TimerEvent()); if (t == 5) { sym_assert(out.empty(), "a world with an object of unknown type is not shown in part"); sym_cover("unknown"); continue; }
    sym_assert(out.size() == 1 && out[0].first == "world", "the world is shown once a cycle"); auto& a = out[0].second.markers; sym_assert(a.size() == (size_t)n, "with every object of the file"); sym_cover("shown");
    for (int i = 0; i < n; i++) {
      const M& m = a[i]; for (int j = 0; j < i; j++) sym_assert(m.id != a[j].id || m.ns != a[j].ns, "each as an object of its own"); placed(m, o[i].p, o[i].q, o[i].s); sym_assert(m.header.frame_id == (i == 1 ? "map" : "local_origin") && m.header.stamp == stub::now(), "in its frame, now"); sym_assert(m.action == M::ADD && m.lifetime == ros::Duration(), "until it is replaced");
      int want[] = {M::CUBE, M::SPHERE, M::CYLINDER, M::MESH_RESOURCE, M::MESH_RESOURCE}; sym_assert((int)m.type == want[o[i].t], "with its shape");
      if (o[i].t < 3) sym_assert((m.color.a > 0.f) & (m.color.a <= 1.f), "visibly"); else { sym_assert(m.mesh_resource == (o[i].t == 3 ? "package://avoidance/a.dae" : "file:///models/box/meshes/b.dae"), "from its mesh"); sym_assert(m.mesh_use_embedded_materials, "in the mesh's own colours"); }
    }
  }
}
static std::vector<std::string> locations(int gz, bool home) { std::vector<std::string> v; if (gz) { stub::env()["GAZEBO_MODEL_PATH"] = gz == 1 ? "/a" : "/b c:/a/models"; if (gz == 1) v = {"/a"}; else v = {"/b c", "/a/models"}; } if (home) { stub::env()["HOME"] = "/home/u"; v.push_back("/home/u/.gazebo/models"); } return v; }
static std::string found;
static const char* anyModels(const std::string& model) {
  static const unsigned KIND[] = {0, S_IFREG, S_IFDIR, S_IFSOCK, S_IFBLK, S_IFCHR, S_IFIFO}; static std::map<std::string, unsigned> fs; auto v = locations(sym_concretize(sym_i32("gazebo", 0, 2)), sym_fork(sym_bool("home"))); static const char* N[] = {"kind0", "kind1", "kind2"}; found.clear();
  for (size_t i = 0; i < v.size(); i++) { unsigned k = KIND[sym_concretize(sym_i32(N[i], 0, 6))]; if (k) fs[v[i] + model] = k | 0644; if (k == S_IFREG && found.empty()) found = "file://" + v[i] + model; }
  stub::onStat() = [](const std::string& p, unsigned& m) { if (p == "/worlds/w.yaml") { m = S_IFREG | 0644; return 0; } auto i = fs.find(p); if (i == fs.end()) return -1; m = i->second; return 0; }; return "";
}
//@ time=120 args=--reals
HARNESS C44_models() {
  anyModels("/box/meshes/b.dae"); Obj o = any(4, 0); stub::yaml()["/worlds/w.yaml"] = YAML::Node::list({yaml(o, 0)}); start("world_name", ""); auto& out = stub::published<MA>(); stub::timers()[0].callback(ros::TimerEvent());
  if (found.empty()) { sym_assert(out.empty(), "without its model the world is not shown in part"); sym_cover("missing"); return; }
  sym_cover("found"); sym_assert(out.size() == 1 && out[0].second.markers.size() == 1 && out[0].second.markers[0].mesh_resource == found, "a model is taken from the first location that has its file");
}
//@ time=120 args=--reals
HARNESS C44_drone() {
  anyModels("/matrice_100/meshes/Matrice_100.dae"); geometry_msgs::PoseStamped p; p.pose.position.x = sym_f64("x", -1000., 1000.); p.pose.position.y = sym_f64("y", -1000., 1000.); p.pose.position.z = sym_f64("z", -1000., 1000.); p.pose.orientation.x = sym_f64("qx", -1., 1.); p.pose.orientation.y = sym_f64("qy", -1., 1.); p.pose.orientation.z = sym_f64("qz", -1., 1.); p.pose.orientation.w = sym_f64("qw", -1., 1.);
  start("world_name", ""); auto& out = stub::published<M>(); sym_assert(stub::deliver("mavros/local_position/pose", p) == 1, "the pose is received once");
  if (found.empty()) { sym_assert(out.empty(), "without its model the drone is not shown"); sym_cover("missing"); return; }
  sym_assert(out.size() == 1 && out[0].first == "drone", "the drone is shown at every pose"); const M& m = out[0].second; sym_cover("shown"); sym_assert(m.mesh_resource == found && (int)m.type == M::MESH_RESOURCE && m.mesh_use_embedded_materials, "as its model"); sym_assert(m.action == M::ADD && m.lifetime == ros::Duration() && m.header.frame_id == "local_origin" && m.header.stamp == stub::now(), "in the local frame, until it moves");
  sym_assert((m.pose.position.x == p.pose.position.x) & (m.pose.position.y == p.pose.position.y) & (m.pose.position.z == p.pose.position.z), "where it is"); sym_assert((m.pose.orientation.x == p.pose.orientation.x) & (m.pose.orientation.y == p.pose.orientation.y) & (m.pose.orientation.z == p.pose.orientation.z) & (m.pose.orientation.w == p.pose.orientation.w), "as it is turned"); sym_assert((m.scale.x > 0.) & (m.scale.x == m.scale.y) & (m.scale.y == m.scale.z), "undistorted");
}
HARNESS C44_noWorld() {
  stub::params<std::string>()["/other/world_name"] = "/worlds/w.yaml"; bool priv = sym_fork(sym_bool("private")); if (priv) stub::params<std::string>()["world_name"] = "/worlds/w.yaml"; new WorldVisualizer(ros::NodeHandle(""), priv ? "/planner" : ""); geometry_msgs::PoseStamped p; stub::deliver("mavros/local_position/pose", p); for (auto& t : stub::timers()) t.callback(ros::TimerEvent()); sym_assert(stub::published<M>().empty() && stub::published<MA>().empty(), "outside the simulation nothing is shown"); sym_cover("end");
}
