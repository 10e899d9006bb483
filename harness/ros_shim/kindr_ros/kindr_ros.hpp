// Stand-in for the conversions of kindr_ros that curves_ros uses.
#pragma once
#include <kindr/Core>
#include <geometry_msgs/Transform.h>
namespace kindr_ros {
inline void convertFromRosGeometryMsg(const geometry_msgs::Vector3& m, kindr::Position3D& p) { p = kindr::Position3D(m.x, m.y, m.z); }
inline void convertFromRosGeometryMsg(const geometry_msgs::Quaternion& m, kindr::RotationQuaternionD& q) { q = kindr::RotationQuaternionD(m.w, m.x, m.y, m.z); }
inline void convertFromRosGeometryMsg(const geometry_msgs::Transform& m, kindr::HomTransformQuatD& T) {
  convertFromRosGeometryMsg(m.translation, T.getPosition());
  convertFromRosGeometryMsg(m.rotation, T.getRotation());
}
}  // namespace kindr_ros
