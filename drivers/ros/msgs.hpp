// Stand-ins for the message types ROS generates (fields only), for both ROS versions.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#if COMMON_ROBOTICS_UTILITIES__SUPPORTED_ROS_VERSION == 2
#define ROS_NS(p) p { namespace msg
#define ROS_END }
#else
#define ROS_NS(p) p
#define ROS_END
#endif
#if COMMON_ROBOTICS_UTILITIES__SUPPORTED_ROS_VERSION == 2
namespace builtin_interfaces { namespace msg { struct Time { int64_t ns = 0; bool operator==(const Time& o) const { return ns == o.ns; } }; } }
namespace rclcpp { class Time { int64_t ns_; public: explicit Time(int64_t ns = 0) : ns_(ns) {} Time(const builtin_interfaces::msg::Time& t) : ns_(t.ns) {} operator builtin_interfaces::msg::Time() const { builtin_interfaces::msg::Time t; t.ns = ns_; return t; } int64_t nanoseconds() const { return ns_; } }; }
using StampType = builtin_interfaces::msg::Time;
inline int64_t Nanos(const StampType& t) { return t.ns; }
#else
namespace ros { class Time { public: uint32_t sec = 0, nsec = 0; Time() {} explicit Time(int64_t ns) : sec(static_cast<uint32_t>(ns / 1000000000)), nsec(static_cast<uint32_t>(ns % 1000000000)) {} }; }
using StampType = ros::Time;
inline int64_t Nanos(const StampType& t) { return static_cast<int64_t>(t.sec) * 1000000000 + t.nsec; }
#endif
namespace ROS_NS(std_msgs) { struct Header { StampType stamp; std::string frame_id; }; } ROS_END
namespace ROS_NS(geometry_msgs)
{
#if COMMON_ROBOTICS_UTILITIES__SUPPORTED_ROS_VERSION == 2
using Header = std_msgs::msg::Header;
#else
using Header = std_msgs::Header;
#endif
struct Point { double x = 0, y = 0, z = 0; };
struct Vector3 { double x = 0, y = 0, z = 0; };
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; };
struct Pose { Point position; Quaternion orientation; };
struct Transform { Vector3 translation; Quaternion rotation; };
struct PointStamped { Header header; Point point; };
struct PoseStamped { Header header; Pose pose; };
struct TransformStamped { Header header; std::string child_frame_id; Transform transform; };
} ROS_END
namespace ROS_NS(visualization_msgs)
{
#if COMMON_ROBOTICS_UTILITIES__SUPPORTED_ROS_VERSION == 2
using Header = std_msgs::msg::Header;
#else
using Header = std_msgs::Header;
#endif
struct Marker { Header header; std::string ns; int32_t id = 0; };
struct MarkerArray { std::vector<Marker> markers; };
} ROS_END
#if COMMON_ROBOTICS_UTILITIES__SUPPORTED_ROS_VERSION == 2
namespace rosidl_generator_traits { template<typename T> struct is_message : std::false_type {}; template<typename T> std::string to_yaml(const T&) { return "yaml"; } }
namespace visualization_msgs { namespace msg { inline std::string to_yaml(const Marker& m, bool) { return "marker " + m.ns; } } }
namespace rosidl_generator_traits { template<> struct is_message<visualization_msgs::msg::Marker> : std::true_type {}; }
#endif
