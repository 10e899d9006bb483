#pragma once
#include <string>
#include <vector>
#include <std_msgs/Header.h>
#include <trajectory_msgs/JointTrajectoryPoint.h>
namespace trajectory_msgs {
struct JointTrajectory { std_msgs::Header header; std::vector<std::string> joint_names; std::vector<JointTrajectoryPoint> points; };
}
