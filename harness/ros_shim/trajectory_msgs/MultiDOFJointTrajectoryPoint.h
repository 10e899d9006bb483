#pragma once
#include <vector>
#include <ros/time.h>
#include <geometry_msgs/Transform.h>
#include <geometry_msgs/Twist.h>
namespace trajectory_msgs {
struct MultiDOFJointTrajectoryPoint {
  std::vector<geometry_msgs::Transform> transforms;
  std::vector<geometry_msgs::Twist> velocities, accelerations;
  ros::Duration time_from_start;
};
}
