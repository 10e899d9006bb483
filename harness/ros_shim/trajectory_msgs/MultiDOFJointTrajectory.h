#pragma once
#include <string>
#include <vector>
#include <std_msgs/Header.h>
#include <trajectory_msgs/MultiDOFJointTrajectoryPoint.h>
namespace trajectory_msgs {
struct MultiDOFJointTrajectory { std_msgs::Header header; std::vector<std::string> joint_names; std::vector<MultiDOFJointTrajectoryPoint> points; };
}
