// Environment model: minimal stand-ins for the ROS, tf, PCL and octomap APIs that PX4-Avoidance uses.
// Message types carry the fields of the ROS definitions; publishers record what is published; the clock, tf and the
// octree answer what the harness put into stub::*.
#pragma once
#include <array>
#include <atomic>
#include <condition_variable>
#include <cfloat>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Dense>

namespace boost {
using std::shared_ptr;
using std::make_shared;
typedef std::recursive_mutex recursive_mutex;
typedef std::mutex mutex;
using std::bind;
template <class S> using function = std::function<S>;
template <class M> struct lock_guard { explicit lock_guard(M&) {} };
}
namespace stub_ph { struct P {}; }
using std::placeholders::_1; using std::placeholders::_2; using std::placeholders::_3;

// ------------------------------------------------------------------ time
namespace ros {
struct Duration {
  int32_t sec = 0, nsec = 0;
  Duration() {}
  Duration(int32_t s, int32_t n) : sec(s), nsec(n) { norm(); }
  explicit Duration(double t) { fromSec(t); }
  void norm() { while (nsec < 0) { nsec += 1000000000; sec--; } while (nsec >= 1000000000) { nsec -= 1000000000; sec++; } }  // as ROS's normalizeSecNSecSigned
  void set(int64_t t) { int64_t s = t / 1000000000ll, n = t % 1000000000ll; if (n < 0) { n += 1000000000ll; s--; } sec = (int32_t)s; nsec = (int32_t)n; }
  Duration& fromSec(double t) { double s = std::floor(t); sec = (int32_t)s; nsec = (int32_t)std::round((t - s) * 1e9); if (nsec >= 1000000000) { sec++; nsec -= 1000000000; } return *this; }
  Duration& fromNSec(int64_t t) { set(t); return *this; }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  int64_t toNSec() const { return (int64_t)sec * 1000000000ll + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool sleep() const;
  Duration operator+(const Duration& o) const { Duration r; r.set(toNSec() + o.toNSec()); return r; }
  Duration operator-(const Duration& o) const { Duration r; r.set(toNSec() - o.toNSec()); return r; }
  Duration operator-() const { Duration r; r.set(-toNSec()); return r; }
  Duration operator*(double s) const { return Duration(toSec() * s); }
  Duration& operator+=(const Duration& o) { *this = *this + o; return *this; }
  Duration& operator-=(const Duration& o) { *this = *this - o; return *this; }
  bool operator==(const Duration& o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Duration& o) const { return !(*this == o); }
  bool operator>(const Duration& o) const { return sec > o.sec || (sec == o.sec && nsec > o.nsec); }
  bool operator<(const Duration& o) const { return sec < o.sec || (sec == o.sec && nsec < o.nsec); }
  bool operator>=(const Duration& o) const { return !(*this < o); }
  bool operator<=(const Duration& o) const { return !(*this > o); }
};
typedef Duration WallDuration;
struct Time {
  uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) { fromSec(t); }
  static Time now();
  static void init() {}
  static bool waitForValid() { return true; }
  Time& fromSec(double t) { double s = std::floor(t); sec = (uint32_t)s; nsec = (uint32_t)std::round((t - s) * 1e9); if (nsec >= 1000000000u) { sec++; nsec -= 1000000000u; } return *this; }
  Time& fromNSec(uint64_t t) { sec = (uint32_t)(t / 1000000000ull); nsec = (uint32_t)(t % 1000000000ull); return *this; }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  uint64_t toNSec() const { return (uint64_t)sec * 1000000000ull + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool is_zero() const { return isZero(); }
  Duration operator-(const Time& o) const { Duration r; r.set((int64_t)toNSec() - (int64_t)o.toNSec()); return r; }
  Time operator+(const Duration& d) const { Time r; r.fromNSec((uint64_t)((int64_t)toNSec() + d.toNSec())); return r; }
  Time operator-(const Duration& d) const { Time r; r.fromNSec((uint64_t)((int64_t)toNSec() - d.toNSec())); return r; }
  Time& operator+=(const Duration& d) { *this = *this + d; return *this; }
  Time& operator-=(const Duration& d) { *this = *this - d; return *this; }
  bool operator==(const Time& o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time& o) const { return !(*this == o); }
  bool operator>(const Time& o) const { return sec > o.sec || (sec == o.sec && nsec > o.nsec); }
  bool operator<(const Time& o) const { return sec < o.sec || (sec == o.sec && nsec < o.nsec); }
  bool operator>=(const Time& o) const { return !(*this < o); }
  bool operator<=(const Time& o) const { return !(*this > o); }
};
typedef Time WallTime;
}
namespace stub {
inline ros::Time& now() { static ros::Time t(1000, 0); return t; }          // what ros::Time::now() answers
inline std::function<void()>*& onNow() { static std::function<void()>* f = nullptr; return f; }
}
inline ros::Time ros::Time::now() { if (stub::onNow()) (*stub::onNow())(); return stub::now(); }

// ------------------------------------------------------------------ messages
#define STUB_MSG(T) typedef std::shared_ptr<T> Ptr; typedef std::shared_ptr<T const> ConstPtr;
#define STUB_PTR(T) typedef std::shared_ptr<T> T##Ptr; typedef std::shared_ptr<T const> T##ConstPtr;
namespace std_msgs {
struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; };
struct UInt32 { uint32_t data = 0; STUB_MSG(UInt32) };
struct Int32 { int32_t data = 0; STUB_MSG(Int32) };
struct String { std::string data; STUB_MSG(String) };
struct Bool { uint8_t data = 0; STUB_MSG(Bool) };
struct Float64 { double data = 0; STUB_MSG(Float64) };
struct Float32 { float data = 0; STUB_MSG(Float32) };
struct ColorRGBA { float r = 0, g = 0, b = 0, a = 0; STUB_MSG(ColorRGBA) };
struct MultiArrayDimension { std::string label; uint32_t size = 0, stride = 0; };
struct MultiArrayLayout { std::vector<MultiArrayDimension> dim; uint32_t data_offset = 0; };
struct Int64MultiArray { MultiArrayLayout layout; std::vector<int64_t> data; STUB_MSG(Int64MultiArray) };
struct Float64MultiArray { MultiArrayLayout layout; std::vector<double> data; STUB_MSG(Float64MultiArray) };
struct Float32MultiArray { MultiArrayLayout layout; std::vector<float> data; STUB_MSG(Float32MultiArray) };
}
namespace geometry_msgs {
struct Point { double x = 0, y = 0, z = 0; STUB_MSG(Point) };
inline bool operator==(const Point& a, const Point& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
inline bool operator!=(const Point& a, const Point& b) { return !(a == b); }
struct Point32 { float x = 0, y = 0, z = 0; STUB_MSG(Point32) };
struct Vector3 { double x = 0, y = 0, z = 0; STUB_MSG(Vector3) };
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; STUB_MSG(Quaternion) };
struct Pose { Point position; Quaternion orientation; STUB_MSG(Pose) };
struct Twist { Vector3 linear, angular; STUB_MSG(Twist) };
struct PoseStamped { std_msgs::Header header; Pose pose; STUB_MSG(PoseStamped) };
struct PointStamped { std_msgs::Header header; Point point; STUB_MSG(PointStamped) };
struct TwistStamped { std_msgs::Header header; Twist twist; STUB_MSG(TwistStamped) };
struct Vector3Stamped { std_msgs::Header header; Vector3 vector; STUB_MSG(Vector3Stamped) };
struct PoseArray { std_msgs::Header header; std::vector<Pose> poses; STUB_MSG(PoseArray) };
struct Transform { Vector3 translation; Quaternion rotation; STUB_MSG(Transform) };
struct TransformStamped { std_msgs::Header header; std::string child_frame_id; Transform transform; STUB_MSG(TransformStamped) };
struct PoseWithCovariance { Pose pose; double covariance[36] = {0}; };
struct TwistWithCovariance { Twist twist; double covariance[36] = {0}; };
STUB_PTR(PoseStamped) STUB_PTR(PointStamped) STUB_PTR(TwistStamped)
}
namespace nav_msgs {
struct Path { std_msgs::Header header; std::vector<geometry_msgs::PoseStamped> poses; STUB_MSG(Path) };
struct GridCells { std_msgs::Header header; float cell_width = 0, cell_height = 0; std::vector<geometry_msgs::Point> cells; STUB_MSG(GridCells) };
struct Odometry { std_msgs::Header header; std::string child_frame_id; geometry_msgs::PoseWithCovariance pose; geometry_msgs::TwistWithCovariance twist; STUB_MSG(Odometry) };
}
namespace sensor_msgs {
struct LaserScan { std_msgs::Header header; float angle_min = 0, angle_max = 0, angle_increment = 0, time_increment = 0, scan_time = 0, range_min = 0, range_max = 0; std::vector<float> ranges, intensities; STUB_MSG(LaserScan) };
struct Range { std_msgs::Header header; uint8_t radiation_type = 0; float field_of_view = 0, min_range = 0, max_range = 0, range = 0; STUB_MSG(Range) };
struct CameraInfo { std_msgs::Header header; uint32_t height = 0, width = 0; double K[9] = {0}, R[9] = {0}, P[12] = {0}; std::vector<double> D; STUB_MSG(CameraInfo) };
struct Image { std_msgs::Header header; uint32_t height = 0, width = 0; std::string encoding; uint8_t is_bigendian = 0; uint32_t step = 0; std::vector<uint8_t> data; STUB_MSG(Image) };
struct PointField { enum { INT8 = 1, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 }; std::string name; uint32_t offset = 0; uint8_t datatype = 0; uint32_t count = 0; };
struct PointCloud2 { std_msgs::Header header; uint32_t height = 0, width = 0; std::vector<PointField> fields; uint8_t is_bigendian = 0; uint32_t point_step = 0, row_step = 0; std::vector<uint8_t> data; uint8_t is_dense = 0; std::vector<float> stub_xyz; STUB_MSG(PointCloud2) };
STUB_PTR(PointCloud2)
struct PointCloud2Modifier { PointCloud2& c; explicit PointCloud2Modifier(PointCloud2& m) : c(m) {} template <class... A> void setPointCloud2Fields(int, A...) {} template <class... A> void setPointCloud2FieldsByString(int, A...) {} void resize(size_t n) { c.stub_xyz.resize(3 * n); c.width = n; c.height = 1; } size_t size() const { return c.stub_xyz.size() / 3; } };
template <class T> struct PointCloud2Iterator { float* p; PointCloud2Iterator(PointCloud2& m, const std::string& f) : p(m.stub_xyz.data() + (f == "y" ? 1 : f == "z" ? 2 : 0)) {} T& operator*() { return *p; } PointCloud2Iterator& operator++() { p += 3; return *this; } };
namespace image_encodings { static const char* const MONO8 = "mono8"; static const char* const RGB8 = "rgb8"; }
}
namespace visualization_msgs {
struct Marker {
  enum { ARROW = 0, CUBE, SPHERE, CYLINDER, LINE_STRIP, LINE_LIST, CUBE_LIST, SPHERE_LIST, POINTS, TEXT_VIEW_FACING, MESH_RESOURCE, TRIANGLE_LIST }; enum { ADD = 0, MODIFY = 0, DELETE = 2, DELETEALL = 3 };
  std_msgs::Header header; std::string ns; int32_t id = 0, type = 0, action = 0; geometry_msgs::Pose pose; geometry_msgs::Vector3 scale; std_msgs::ColorRGBA color; ros::Duration lifetime; uint8_t frame_locked = 0; std::vector<geometry_msgs::Point> points; std::vector<std_msgs::ColorRGBA> colors; std::string text, mesh_resource; uint8_t mesh_use_embedded_materials = 0; STUB_MSG(Marker) };
struct MarkerArray { std::vector<Marker> markers; STUB_MSG(MarkerArray) };
}
namespace mavros_msgs {
struct PositionTarget { std_msgs::Header header; uint8_t coordinate_frame = 0; uint16_t type_mask = 0; geometry_msgs::Point position; geometry_msgs::Vector3 velocity, acceleration_or_force; float yaw = 0, yaw_rate = 0; STUB_MSG(PositionTarget) };
struct Trajectory { enum { MAV_TRAJECTORY_REPRESENTATION_WAYPOINTS = 0, MAV_TRAJECTORY_REPRESENTATION_BEZIER = 1 };
  std_msgs::Header header; uint8_t type = 0; PositionTarget point_1, point_2, point_3, point_4, point_5; std::array<uint8_t, 5> point_valid{{0, 0, 0, 0, 0}}; std::array<uint16_t, 5> command{{0, 0, 0, 0, 0}}; std::array<float, 5> time_horizon{{0, 0, 0, 0, 0}}; STUB_MSG(Trajectory) };
struct State { std_msgs::Header header; uint8_t connected = 0, armed = 0, guided = 0, manual_input = 0; std::string mode; uint8_t system_status = 0; STUB_MSG(State) };
struct CompanionProcessStatus { std_msgs::Header header; uint8_t state = 0, component = 0; STUB_MSG(CompanionProcessStatus) };
struct Altitude { std_msgs::Header header; float monotonic = 0, amsl = 0, local = 0, relative = 0, terrain = 0, bottom_clearance = 0; STUB_MSG(Altitude) };
struct ParamValue { int64_t integer = 0; double real = 0; };
struct Param { std_msgs::Header header; std::string param_id; ParamValue value; uint16_t param_index = 0, param_count = 0; STUB_MSG(Param) };
struct ParamGetRequest { std::string param_id; };
struct ParamGetResponse { uint8_t success = 0; ParamValue value; };
struct ParamGet { ParamGetRequest request; ParamGetResponse response; };
struct SetMode { struct { uint8_t base_mode = 0; std::string custom_mode; } request; struct { uint8_t mode_sent = 0; } response; };
struct Waypoint { uint8_t frame = 0; uint16_t command = 0; uint8_t is_current = 0, autocontinue = 0; float param1 = 0, param2 = 0, param3 = 0, param4 = 0; double x_lat = 0, y_long = 0, z_alt = 0; };
struct WaypointList { uint16_t current_seq = 0; std::vector<Waypoint> waypoints; STUB_MSG(WaypointList) };
}

// ------------------------------------------------------------------ ros node API
#define ROS_INFO(...) ((void)0)
#define ROS_WARN(...) ((void)0)
#define ROS_ERROR(...) ((void)0)
#define ROS_DEBUG(...) ((void)0)
#define ROS_FATAL(...) ((void)0)
#define ROS_INFO_ONCE(...) ((void)0)
#define ROS_WARN_ONCE(...) ((void)0)
#define ROS_INFO_THROTTLE(...) ((void)0)
#define ROS_WARN_THROTTLE(...) ((void)0)
#define ROS_ERROR_THROTTLE(...) ((void)0)
#define ROS_INFO_STREAM(x) ((void)0)
#define ROS_WARN_STREAM(x) ((void)0)
#define ROS_ERROR_STREAM(x) ((void)0)
#define ROS_DEBUG_STREAM(x) ((void)0)
#define ROS_ASSERT(x) ((void)0)
#define NODELET_DEBUG(...) ((void)0)
#define NODELET_INFO(...) ((void)0)
#define NODELET_WARN(...) ((void)0)
#define NODELET_ERROR(...) ((void)0)
#define PLUGINLIB_EXPORT_CLASS(a, b)
namespace stub {
template <class M> inline std::vector<std::pair<std::string, M>>& published() { static std::vector<std::pair<std::string, M>> v; return v; }
template <class M> inline int publishedOn(const std::string& topic) { int n = 0; for (auto& p : published<M>()) if (p.first == topic) n++; return n; }
template <class S> inline std::function<bool(S&)>*& onCall() { static std::function<bool(S&)>* f = nullptr; return f; }  // answers service calls
inline int& rosOk() { static int k = 1 << 20; return k; }                 // ros::ok() holds this many more times
inline std::function<void()>*& onSleep() { static std::function<void()>* f = nullptr; return f; }  // runs when a thread sleeps
inline std::function<void()>*& onMain() { static std::function<void()>* f = nullptr; return f; }  // runs when a node's main hands over to the middleware
inline std::function<void()>*& onSpin() { static std::function<void()>* f = nullptr; return f; }  // runs when callbacks are dispatched
}
namespace ros {
struct TimerEvent { Time last_expected, last_real, current_expected, current_real; };
inline bool Duration::sleep() const { if (stub::onSleep()) (*stub::onSleep())(); return true; }
struct CallbackQueue { void callAvailable(WallDuration = WallDuration()) { if (stub::onSpin()) (*stub::onSpin())(); } void callAvailable(double) {} void clear() {} };
inline CallbackQueue* getGlobalCallbackQueue() { static CallbackQueue q; return &q; }
struct TimerOptions { Duration period; std::function<void(const TimerEvent&)> callback; CallbackQueue* callback_queue = nullptr; bool oneshot = false, autostart = true; TimerOptions() {} template <class F> TimerOptions(Duration d, F f, CallbackQueue* q, bool o = false, bool a = true) : period(d), callback(f), callback_queue(q), oneshot(o), autostart(a) {} };
}
namespace stub {  // what the nodes asked of the middleware
struct Sub { std::string topic; const void* type; std::function<void(const std::shared_ptr<const void>&)> f; };
inline std::vector<Sub>& subs() { static std::vector<Sub> v; return v; }
inline std::vector<ros::TimerOptions>& timers() { static std::vector<ros::TimerOptions> v; return v; }
inline std::vector<ros::CallbackQueue*>& served() { static std::vector<ros::CallbackQueue*> v; return v; }  // queues with a running spinner
inline std::string& calledService() { static std::string s; return s; }
template <class T> inline std::map<std::string, T>& params() { static std::map<std::string, T> m; return m; }
template <class M> inline const void* typeKey() { static char c; return &c; }
template <class T> struct Msg { typedef typename std::decay<T>::type type; static const type& get(const std::shared_ptr<const void>& p) { return *static_cast<const type*>(p.get()); } };
template <class T> struct PtrMsg { typedef T type; static std::shared_ptr<const T> get(const std::shared_ptr<const void>& p) { return std::static_pointer_cast<const T>(p); } };
template <class T> struct Msg<const std::shared_ptr<const T>&> : PtrMsg<T> {}; template <class T> struct Msg<std::shared_ptr<const T>> : PtrMsg<T> {};
template <class M, class F> inline auto hand(F& f, const std::shared_ptr<const void>& p, int) -> decltype((void)f(std::shared_ptr<const M>())) { f(std::static_pointer_cast<const M>(p)); }
template <class M, class F> inline auto hand(F& f, const std::shared_ptr<const void>& p, long) -> decltype((void)f(std::declval<const M&>())) { f(*static_cast<const M*>(p.get())); }
template <class M> inline int deliver(const std::string& topic, const M& m) { int n = 0; std::shared_ptr<const M> c(new M(m)); for (size_t i = 0; i < subs().size(); i++) if (subs()[i].topic == topic && subs()[i].type == typeKey<M>()) { subs()[i].f(c); n++; } return n; }  // how many callbacks took it
template <class C> inline std::function<void(C&, uint32_t)>& reconfigure() { static std::function<void(C&, uint32_t)> f; return f; }
}
namespace ros {
struct Timer { void start() {} void stop() {} };
struct Subscriber { std::string topic; void shutdown() { for (size_t i = 0; i < stub::subs().size(); i++) if (stub::subs()[i].topic == topic) stub::subs()[i].topic = " shut down"; } std::string getTopic() const { return topic; } };
struct Publisher { std::string topic; template <class M> void publish(const M& m) const { stub::published<M>().push_back({topic, m}); } template <class M> void publish(const std::shared_ptr<M>& m) const { stub::published<M>().push_back({topic, *m}); } uint32_t getNumSubscribers() const { return 1; } std::string getTopic() const { return topic; } void shutdown() {} };
struct ServiceClient { std::string service; template <class S> bool call(S& s) { stub::calledService() = service; return stub::onCall<S>() ? (*stub::onCall<S>())(s) : false; } };
struct AsyncSpinner { CallbackQueue* q; AsyncSpinner(uint32_t, CallbackQueue* k = nullptr) : q(k) {} void start() { stub::served().push_back(q); } void stop() {} };
struct Rate { explicit Rate(double) {} bool sleep() { return true; } };
struct NodeHandle {
  std::string ns_; std::string name(const std::string& t) const { return !t.empty() && t[0] == '/' ? t : ns_ + t; }
  NodeHandle(const std::string& n = "") : ns_(n) {}
  template <class M> Publisher advertise(const std::string& t, uint32_t, bool = false) const { Publisher p; p.topic = name(t); return p; }
  template <class R, class C> Subscriber subscribe(const std::string& t, uint32_t, void (C::*f)(R), C* o) const { Subscriber s; s.topic = name(t); stub::subs().push_back({s.topic, stub::typeKey<typename stub::Msg<R>::type>(), [f, o](const std::shared_ptr<const void>& p) { (o->*f)(stub::Msg<R>::get(p)); }}); return s; }
  template <class M, class F> Subscriber subscribe(const std::string& t, uint32_t, F f) const { Subscriber s; s.topic = name(t); typedef typename std::decay<M>::type T; stub::subs().push_back({s.topic, stub::typeKey<T>(), [f](const std::shared_ptr<const void>& p) mutable { stub::hand<T>(f, p, 0); }}); return s; }
  Timer createTimer(const TimerOptions& o) const { stub::timers().push_back(o); return Timer(); }
  template <class F> Timer createTimer(Duration d, F f) const { stub::timers().push_back(TimerOptions(d, f, nullptr)); return Timer(); }
  template <class C> Timer createTimer(Duration d, void (C::*f)(const TimerEvent&), C* o) const { stub::timers().push_back(TimerOptions(d, [f, o](const TimerEvent& e) { (o->*f)(e); }, nullptr)); return Timer(); }
  template <class S> ServiceClient serviceClient(const std::string& n) const { ServiceClient c; c.service = name(n); return c; }
  template <class T> bool param(const std::string& n, T& v, const T& d) const { if (getParam(n, v)) return true; v = d; return false; }
  template <class T> T param(const std::string& n, const T& d) const { T v; param(n, v, d); return v; }
  template <class T> bool getParam(const std::string& n, T& v) const { auto& m = stub::params<T>(); auto i = m.find(name(n)); if (i == m.end()) return false; v = i->second; return true; }
  template <class T> void setParam(const std::string& n, const T& v) const { stub::params<T>()[name(n)] = v; }
  void setParam(const std::string& n, const char* v) const { stub::params<std::string>()[name(n)] = v; }
  bool hasParam(const std::string& n) const { return stub::params<std::string>().count(name(n)) + stub::params<double>().count(name(n)) + stub::params<int>().count(name(n)) + stub::params<bool>().count(name(n)) > 0; }
  std::string getNamespace() const { return ""; }
  void setCallbackQueue(CallbackQueue*) {}
};
inline bool ok() { return --stub::rosOk() > 0; }
inline void init(int, char**, const std::string&) {}
inline void spin() { if (stub::onMain()) (*stub::onMain())(); }
inline void spinOnce() {}
inline void shutdown() {}
namespace this_node { inline std::string getName() { return "node"; } }
namespace names { inline std::map<std::string, std::string> getRemappings() { return {}; } }
namespace package { inline std::string getPath(const std::string&) { return "/x"; } }
namespace param { template <class T> bool get(const std::string&, T&) { return false; } }
}
namespace nodelet {
typedef std::map<std::string, std::string> M_string; typedef std::vector<std::string> V_string;
struct Nodelet { virtual ~Nodelet() {} virtual void onInit() = 0; ros::NodeHandle n_; ros::NodeHandle& getNodeHandle() { return n_; } ros::NodeHandle& getPrivateNodeHandle() { return n_; } ros::NodeHandle& getMTNodeHandle() { return n_; } std::string getName() const { return "nodelet"; } };
struct Loader { Loader(bool = true) {} bool load(const std::string&, const std::string&, const M_string&, const V_string&) { return true; } };
}
namespace dynamic_reconfigure {
template <class C> struct Server { typedef std::function<void(C&, uint32_t)> CallbackType; Server() {} template <class A> Server(A&) {} template <class A> Server(A&, const ros::NodeHandle&) {} void setCallback(const CallbackType& f) { stub::reconfigure<C>() = f; } void updateConfig(const C&) {} };
}

// ------------------------------------------------------------------ pcl
namespace pcl {
struct PCLHeader { uint32_t seq = 0; uint64_t stamp = 0; std::string frame_id; };
struct PointXYZ { union { float data[4]; struct { float x, y, z; }; }; PointXYZ() : x(0), y(0), z(0) { data[3] = 1.f; } PointXYZ(float a, float b, float c) : x(a), y(b), z(c) { data[3] = 1.f; } Eigen::Map<Eigen::Vector3f> getVector3fMap() { return Eigen::Map<Eigen::Vector3f>(data); } Eigen::Map<const Eigen::Vector3f> getVector3fMap() const { return Eigen::Map<const Eigen::Vector3f>(data); } };
struct PointXYZI { union { float data[4]; struct { float x, y, z; }; }; float intensity; PointXYZI(float i = 0.f) : x(0), y(0), z(0), intensity(i) { data[3] = 1.f; } PointXYZI(float a, float b, float c, float i = 0.f) : x(a), y(b), z(c), intensity(i) { data[3] = 1.f; } Eigen::Map<Eigen::Vector3f> getVector3fMap() { return Eigen::Map<Eigen::Vector3f>(data); } Eigen::Map<const Eigen::Vector3f> getVector3fMap() const { return Eigen::Map<const Eigen::Vector3f>(data); } };
template <class P> struct PointCloud {
  typedef P PointType; typedef std::vector<P> VectorType; typedef std::shared_ptr<PointCloud<P>> Ptr; typedef std::shared_ptr<const PointCloud<P>> ConstPtr;
  typedef typename VectorType::iterator iterator; typedef typename VectorType::const_iterator const_iterator;
  PCLHeader header; VectorType points; uint32_t width = 0, height = 0; bool is_dense = true; Eigen::Vector4f sensor_origin_ = Eigen::Vector4f::Zero(); Eigen::Quaternionf sensor_orientation_ = Eigen::Quaternionf::Identity();
  PointCloud() {} PointCloud(uint32_t w, uint32_t h, const P& v = P()) : points(w * h, v), width(w), height(h) {}
  iterator begin() { return points.begin(); } iterator end() { return points.end(); } const_iterator begin() const { return points.begin(); } const_iterator end() const { return points.end(); }
  size_t size() const { return points.size(); } bool empty() const { return points.empty(); } void reserve(size_t n) { points.reserve(n); }
  void resize(size_t n) { points.resize(n); if (width * height != n) { width = (uint32_t)n; height = 1; } }
  P& operator[](size_t i) { return points[i]; } const P& operator[](size_t i) const { return points[i]; } P& at(size_t i) { return points.at(i); } const P& at(size_t i) const { return points.at(i); }
  P& front() { return points.front(); } const P& front() const { return points.front(); } P& back() { return points.back(); } const P& back() const { return points.back(); }
  void push_back(const P& p) { points.push_back(p); width = (uint32_t)points.size(); height = 1; }
  template <class... A> P& emplace_back(A&&... a) { points.emplace_back(std::forward<A>(a)...); width = (uint32_t)points.size(); height = 1; return points.back(); }
  iterator erase(iterator i) { auto r = points.erase(i); width = (uint32_t)points.size(); height = 1; return r; } iterator erase(iterator a, iterator b) { auto r = points.erase(a, b); width = (uint32_t)points.size(); height = 1; return r; }
  iterator insert(iterator i, const P& p) { auto r = points.insert(i, p); width = (uint32_t)points.size(); height = 1; return r; }
  void clear() { points.clear(); width = 0; height = 0; } void swap(PointCloud& o) { std::swap(header, o.header); points.swap(o.points); std::swap(width, o.width); std::swap(height, o.height); std::swap(is_dense, o.is_dense); }
  PointCloud& operator+=(const PointCloud& o) { points.insert(points.end(), o.points.begin(), o.points.end()); width = (uint32_t)points.size(); height = 1; is_dense = is_dense && o.is_dense; return *this; }
  PointCloud operator+(const PointCloud& o) const { PointCloud r(*this); r += o; return r; }
  bool isOrganized() const { return height > 1; } Ptr makeShared() const { return Ptr(new PointCloud<P>(*this)); }
};
template <class P> inline bool isFinite(const P& p) { return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z); }
template <class P> void removeNaNFromPointCloud(const PointCloud<P>& in, PointCloud<P>& out, std::vector<int>& idx) {
  PointCloud<P> r; r.header = in.header; idx.clear(); for (size_t i = 0; i < in.points.size(); i++) if (in.is_dense || isFinite(in.points[i])) { r.points.push_back(in.points[i]); idx.push_back((int)i); }
  r.width = (uint32_t)r.points.size(); r.height = 1; r.is_dense = true; out = r; }
template <class P> void fromROSMsg(const sensor_msgs::PointCloud2& m, PointCloud<P>& c) { c.header.seq = m.header.seq; c.header.stamp = m.header.stamp.toNSec() / 1000ull; c.header.frame_id = m.header.frame_id; c.points.clear(); for (size_t i = 0; i + 2 < m.stub_xyz.size(); i += 3) { P p; p.x = m.stub_xyz[i]; p.y = m.stub_xyz[i + 1]; p.z = m.stub_xyz[i + 2]; c.points.push_back(p); } c.width = m.width; c.height = m.height; c.is_dense = m.is_dense; }
template <class P> void toROSMsg(const PointCloud<P>& c, sensor_msgs::PointCloud2& m) { m.header.seq = c.header.seq; m.header.frame_id = c.header.frame_id; m.header.stamp.fromNSec(c.header.stamp * 1000ull); m.stub_xyz.clear(); for (auto& p : c.points) { m.stub_xyz.push_back(p.x); m.stub_xyz.push_back(p.y); m.stub_xyz.push_back(p.z); } m.width = c.width; m.height = c.height; m.is_dense = c.is_dense; }
}
namespace pcl_conversions {
inline ros::Time fromPCL(uint64_t stamp) { ros::Time t; t.fromNSec(stamp * 1000ull); return t; }
inline uint64_t toPCL(const ros::Time& t) { return t.toNSec() / 1000ull; }
inline std_msgs::Header fromPCL(const pcl::PCLHeader& h) { std_msgs::Header r; r.seq = h.seq; r.stamp = fromPCL(h.stamp); r.frame_id = h.frame_id; return r; }
inline pcl::PCLHeader toPCL(const std_msgs::Header& h) { pcl::PCLHeader r; r.seq = h.seq; r.stamp = toPCL(h.stamp); r.frame_id = h.frame_id; return r; }
}

// ------------------------------------------------------------------ tf (the linear-math part follows tf/bullet)
namespace tf {
struct TransformException : std::runtime_error { TransformException(const std::string& s = "") : std::runtime_error(s) {} };
typedef double tfScalar;
struct Vector3 {
  double m[4]; Vector3() { m[0] = m[1] = m[2] = m[3] = 0; } Vector3(double x, double y, double z) { m[0] = x; m[1] = y; m[2] = z; m[3] = 0; }
  double x() const { return m[0]; } double y() const { return m[1]; } double z() const { return m[2]; } double getX() const { return m[0]; } double getY() const { return m[1]; } double getZ() const { return m[2]; } void setX(double v) { m[0] = v; } void setY(double v) { m[1] = v; } void setZ(double v) { m[2] = v; } void setValue(double x, double y, double z) { m[0] = x; m[1] = y; m[2] = z; }
  Vector3 operator+(const Vector3& o) const { return Vector3(m[0] + o.m[0], m[1] + o.m[1], m[2] + o.m[2]); } Vector3 operator-(const Vector3& o) const { return Vector3(m[0] - o.m[0], m[1] - o.m[1], m[2] - o.m[2]); } Vector3 operator-() const { return Vector3(-m[0], -m[1], -m[2]); }
  Vector3 operator*(double s) const { return Vector3(m[0] * s, m[1] * s, m[2] * s); } Vector3 operator/(double s) const { return *this * (1.0 / s); }
  Vector3& operator+=(const Vector3& o) { *this = *this + o; return *this; } Vector3& operator*=(double s) { *this = *this * s; return *this; } Vector3& operator/=(double s) { *this = *this * (1.0 / s); return *this; }
  double dot(const Vector3& o) const { return m[0] * o.m[0] + m[1] * o.m[1] + m[2] * o.m[2]; } double length2() const { return dot(*this); } double length() const { return std::sqrt(length2()); } Vector3& normalize() { return *this /= length(); } Vector3 normalized() const { return *this / length(); } double distance(const Vector3& o) const { return (o - *this).length(); } double distance2(const Vector3& o) const { return (o - *this).length2(); }
  Vector3 cross(const Vector3& v) const { return Vector3(m[1] * v.m[2] - m[2] * v.m[1], m[2] * v.m[0] - m[0] * v.m[2], m[0] * v.m[1] - m[1] * v.m[0]); }
  Vector3 lerp(const Vector3& v, double t) const { return Vector3(m[0] + (v.m[0] - m[0]) * t, m[1] + (v.m[1] - m[1]) * t, m[2] + (v.m[2] - m[2]) * t); }
  bool operator==(const Vector3& o) const { return m[0] == o.m[0] && m[1] == o.m[1] && m[2] == o.m[2]; } bool operator!=(const Vector3& o) const { return !(*this == o); }
  double angle(const Vector3& v) const { return std::acos(dot(v) / std::sqrt(length2() * v.length2())); }
};
inline Vector3 operator*(double s, const Vector3& v) { return v * s; }
typedef Vector3 Point;
struct Quaternion {
  double m[4]; Quaternion() { m[0] = m[1] = m[2] = m[3] = 0; } Quaternion(double x, double y, double z, double w) { m[0] = x; m[1] = y; m[2] = z; m[3] = w; }
  double x() const { return m[0]; } double y() const { return m[1]; } double z() const { return m[2]; } double w() const { return m[3]; } double getX() const { return m[0]; } double getY() const { return m[1]; } double getZ() const { return m[2]; } double getW() const { return m[3]; }
  double dot(const Quaternion& q) const { return m[0] * q.m[0] + m[1] * q.m[1] + m[2] * q.m[2] + m[3] * q.m[3]; } double length2() const { return dot(*this); }
  double angleShortestPath(const Quaternion& q) const { double s = std::sqrt(length2() * q.length2()); double d = dot(q); if (d < 0) return std::acos(-d / s) * 2.0; return std::acos(d / s) * 2.0; }
  Quaternion slerp(const Quaternion& q, const double& t) const {
    double theta = angleShortestPath(q) / 2.0;
    if (theta != 0.0) { double d = 1.0 / std::sin(theta), s0 = std::sin((1.0 - t) * theta), s1 = std::sin(t * theta);
      if (dot(q) < 0) return Quaternion((m[0] * s0 + -q.x() * s1) * d, (m[1] * s0 + -q.y() * s1) * d, (m[2] * s0 + -q.z() * s1) * d, (m[3] * s0 + -q.w() * s1) * d);
      return Quaternion((m[0] * s0 + q.x() * s1) * d, (m[1] * s0 + q.y() * s1) * d, (m[2] * s0 + q.z() * s1) * d, (m[3] * s0 + q.w() * s1) * d); }
    return *this; }
  static Quaternion getIdentity() { return Quaternion(0, 0, 0, 1); }
  void setRPY(double roll, double pitch, double yaw) { double hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5, cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp), cr = std::cos(hr), sr = std::sin(hr); m[0] = sr * cp * cy - cr * sp * sy; m[1] = cr * sp * cy + sr * cp * sy; m[2] = cr * cp * sy - sr * sp * cy; m[3] = cr * cp * cy + sr * sp * sy; }
};
struct Matrix3x3 { double r[3][3];
  Matrix3x3() {} explicit Matrix3x3(const Quaternion& q) { double s = 2.0 / q.length2(), xs = q.x() * s, ys = q.y() * s, zs = q.z() * s, wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs, xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs, yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs; r[0][0] = 1 - (yy + zz); r[0][1] = xy - wz; r[0][2] = xz + wy; r[1][0] = xy + wz; r[1][1] = 1 - (xx + zz); r[1][2] = yz - wx; r[2][0] = xz - wy; r[2][1] = yz + wx; r[2][2] = 1 - (xx + yy); }
  void getRPY(double& roll, double& pitch, double& yaw, unsigned = 1) const { if (std::fabs(r[2][0]) >= 1) { yaw = 0; double d = std::atan2(r[2][1], r[2][2]); if (r[2][0] < 0) { pitch = M_PI / 2; roll = d; } else { pitch = -M_PI / 2; roll = d; } } else { pitch = -std::asin(r[2][0]); double c = std::cos(pitch); roll = std::atan2(r[2][1] / c, r[2][2] / c); yaw = std::atan2(r[1][0] / c, r[0][0] / c); } }
};
// Rotations are kept as quaternions (tf stores a matrix; the conversion is not part of the code under test).
struct Transform { Vector3 origin; Quaternion rot = Quaternion(0, 0, 0, 1); Vector3& getOrigin() { return origin; } const Vector3& getOrigin() const { return origin; } Quaternion getRotation() const { return rot; } void setOrigin(const Vector3& v) { origin = v; } void setRotation(const Quaternion& q) { rot = q; } void setIdentity() { origin = Vector3(); rot = Quaternion(0, 0, 0, 1); }
  Vector3 operator*(const Vector3& v) const { Matrix3x3 R(rot); return Vector3(R.r[0][0] * v.m[0] + R.r[0][1] * v.m[1] + R.r[0][2] * v.m[2] + origin.m[0], R.r[1][0] * v.m[0] + R.r[1][1] * v.m[1] + R.r[1][2] * v.m[2] + origin.m[1], R.r[2][0] * v.m[0] + R.r[2][1] * v.m[1] + R.r[2][2] * v.m[2] + origin.m[2]); } };
struct StampedTransform : Transform { ros::Time stamp_; std::string frame_id_, child_frame_id_; StampedTransform() {} StampedTransform(const Transform& t, const ros::Time& s, const std::string& f, const std::string& c) : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {} };
inline bool operator==(const StampedTransform& a, const StampedTransform& b) { for (int i = 0; i < 3; i++) if (a.origin.m[i] != b.origin.m[i]) return false; for (int i = 0; i < 4; i++) if (std::fabs(a.rot.m[i] - b.rot.m[i]) > 1e-9) return false; return a.stamp_ == b.stamp_ && a.frame_id_ == b.frame_id_ && a.child_frame_id_ == b.child_frame_id_; }
struct Transformer { static constexpr double DEFAULT_CACHE_TIME = 10.0; };
inline std::pair<std::string, std::string>& lookedUp() { static std::pair<std::string, std::string> p; return p; }  // frames of the last transform asked for
struct TransformListener {
  TransformListener(ros::Duration = ros::Duration(), bool = true) {}
  bool can = true, fail = false; StampedTransform t;                          // set by harnesses
  std::function<bool(const std::string&, const std::string&, const ros::Time&)> canF; std::function<bool(const std::string&, const std::string&)> failF;
  bool canTransform(const std::string& a, const std::string& b, const ros::Time& c, std::string* = nullptr) const { return canF ? canF(a, b, c) : can; }
  bool waitForTransform(const std::string&, const std::string&, const ros::Time&, const ros::Duration&) const { return can; }
  void lookupTransform(const std::string& a, const std::string& b, const ros::Time&, StampedTransform& o) const { lookedUp() = {a, b}; if (fail) throw TransformException(); o = t; }
  void transformVector(const std::string&, const geometry_msgs::Vector3Stamped& i, geometry_msgs::Vector3Stamped& o) const { o = i; }
  void transformVector(const std::string&, const ros::Time&, const geometry_msgs::Vector3Stamped& i, const std::string&, geometry_msgs::Vector3Stamped& o) const { o = i; }
  void transformPose(const std::string& f, const geometry_msgs::PoseStamped& i, geometry_msgs::PoseStamped& o) const { if (fail) throw TransformException(); o = i; o.header.frame_id = f; }
};
inline double getYaw(const Quaternion& q) { return std::atan2(2.0 * (q.w() * q.z() + q.x() * q.y()), 1.0 - 2.0 * (q.y() * q.y() + q.z() * q.z())); }
inline double getYaw(const geometry_msgs::Quaternion& q) { return getYaw(Quaternion(q.x, q.y, q.z, q.w)); }
inline geometry_msgs::Quaternion createQuaternionMsgFromYaw(double yaw) { geometry_msgs::Quaternion q; q.z = std::sin(yaw * 0.5); q.w = std::cos(yaw * 0.5); return q; }
inline Quaternion createQuaternionFromYaw(double yaw) { return Quaternion(0, 0, std::sin(yaw * 0.5), std::cos(yaw * 0.5)); }
}
namespace pcl_ros {
template <class P> void transformPointCloud(const pcl::PointCloud<P>& in, pcl::PointCloud<P>& out, const tf::Transform& t) { pcl::PointCloud<P> r = in; for (auto& p : r.points) { tf::Vector3 v = t * tf::Vector3(p.x, p.y, p.z); p.x = (float)v.x(); p.y = (float)v.y(); p.z = (float)v.z(); } out = r; }
template <class P> bool transformPointCloud(const std::string& f, const pcl::PointCloud<P>& in, pcl::PointCloud<P>& out, const tf::TransformListener& l) { if (l.failF ? l.failF(f, in.header.frame_id) : l.fail) throw tf::TransformException(); pcl::PointCloud<P> r; transformPointCloud(in, r, l.t); r.header.frame_id = f; out = r; return true; }
inline void transformPointCloud(const std::string& f, const tf::Transform& t, const sensor_msgs::PointCloud2& in, sensor_msgs::PointCloud2& out) { sensor_msgs::PointCloud2 r = in; r.header.frame_id = f; for (size_t i = 0; i + 2 < r.stub_xyz.size(); i += 3) { tf::Vector3 v = t * tf::Vector3(r.stub_xyz[i], r.stub_xyz[i + 1], r.stub_xyz[i + 2]); r.stub_xyz[i] = (float)v.x(); r.stub_xyz[i + 1] = (float)v.y(); r.stub_xyz[i + 2] = (float)v.z(); } out = r; }
}

// ------------------------------------------------------------------ octomap
namespace octomap {
struct OcTreeNode { float v = 0; float getValue() const { return v; } float getLogOdds() const { return v; } double getOccupancy() const { return 1. - 1. / (1. + std::exp(v)); } };
inline double probability(double l) { return 1. - (1. / (1. + std::exp(l))); }
struct AbstractOcTree { virtual ~AbstractOcTree() {} };
struct OcTree : AbstractOcTree { double res = 1.0; OcTreeNode node; std::function<OcTreeNode*(double, double, double, unsigned)> f; OcTree(double r = 1.0) : res(r) {} double getResolution() const { return res; } OcTreeNode* search(double x, double y, double z, unsigned depth = 0) const { return f ? f(x, y, z, depth) : nullptr; } size_t memoryUsage() const { return 0; } };
}
namespace octomap_msgs {
struct Octomap { std_msgs::Header header; uint8_t binary = 0; std::string id; double resolution = 0; std::vector<int8_t> data; octomap::AbstractOcTree* stub_tree = nullptr; STUB_MSG(Octomap) };
inline octomap::AbstractOcTree* msgToMap(const Octomap& m) { return m.stub_tree; }
inline octomap::AbstractOcTree* fullMsgToMap(const Octomap& m) { return m.stub_tree; }
}

// ------------------------------------------------------------------ generated package headers
#include <array>
