#!/bin/bash
# regenerates the forwarding headers
cd "$(dirname "$0")"
for h in ros/ros.h ros/time.h ros/duration.h ros/console.h ros/param.h ros/package.h ros/callback_queue.h ros/assert.h ros/timer.h ros/publisher.h ros/subscriber.h ros/node_handle.h boost/bind.hpp boost/bind/bind.hpp boost/shared_ptr.hpp boost/make_shared.hpp boost/function.hpp boost/algorithm/string.hpp boost/thread.hpp boost/thread/mutex.hpp boost/thread/recursive_mutex.hpp \
  tf/transform_listener.h tf/transform_datatypes.h tf/tf.h tf/LinearMath/Vector3.h tf/transform_broadcaster.h tf/exceptions.h \
  pcl/point_cloud.h pcl/point_types.h pcl/filters/filter.h pcl/common/io.h pcl/conversions.h pcl_ros/point_cloud.h pcl_ros/transforms.h pcl_conversions/pcl_conversions.h dynamic_reconfigure/server.h nodelet/nodelet.h nodelet/loader.h pluginlib/class_list_macros.h \
  octomap/octomap.h octomap/OcTree.h octomap_msgs/conversions.h octomap_msgs/Octomap.h sensor_msgs/image_encodings.h sensor_msgs/point_cloud2_iterator.h \
  std_msgs/{Header,UInt32,Int32,String,Bool,Float64,Float32,ColorRGBA,MultiArrayDimension,Int64MultiArray,Float64MultiArray,Float32MultiArray}.h \
  geometry_msgs/{Point,Point32,Vector3,Quaternion,Pose,Twist,PoseStamped,PointStamped,TwistStamped,Vector3Stamped,PoseArray,Transform,TransformStamped}.h \
  nav_msgs/{Path,GridCells,Odometry}.h sensor_msgs/{LaserScan,Range,CameraInfo,Image,PointField,PointCloud2}.h visualization_msgs/{Marker,MarkerArray}.h \
  mavros_msgs/{PositionTarget,Trajectory,State,CompanionProcessStatus,Altitude,ParamValue,Param,ParamGet,SetMode,Waypoint,WaypointList}.h; do
  mkdir -p $(dirname $h); echo '#include "ros_stub.h"' > $h; done
