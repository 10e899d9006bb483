#pragma once
#define ROS_SHIM_NOTHING(...) do {} while (0)
#define ROS_DEBUG ROS_SHIM_NOTHING
#define ROS_INFO ROS_SHIM_NOTHING
#define ROS_WARN ROS_SHIM_NOTHING
#define ROS_ERROR ROS_SHIM_NOTHING
#define ROS_FATAL ROS_SHIM_NOTHING
#define ROS_DEBUG_STREAM(x) do {} while (0)
#define ROS_INFO_STREAM(x) do {} while (0)
#define ROS_WARN_STREAM(x) do {} while (0)
#define ROS_ERROR_STREAM(x) do {} while (0)
#define ROS_FATAL_STREAM(x) do {} while (0)
