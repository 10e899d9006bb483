"""changes that only show for large objects, far times or long names"""
import importlib.util, pathlib
_s = importlib.util.spec_from_file_location("more", str(pathlib.Path(__file__).resolve().parent / "more.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
P, S, BASE, SE3, PO, K, POLY, MGR, MI, C, R, ROS, RK = _m.P, _m.S, _m.BASE, _m.SE3, _m.PO, _m.K, _m.POLY, _m.MGR, _m.MI, _m.C, _m.R, _m.ROS, _m.RK
SEEDS = {
 "container-byte-index": dict(property="C15", needs="a container with more than 127 splines",
   breaks="times after the 128th spline are answered by the last one",
   edits=[(C, "  timeOffset = 0.0;\n\n  for (size_t i = 0; i < splines_.size(); i++) {\n    if ((t - timeOffset", "  timeOffset = 0.0;\n\n  for (signed char i = 0; i < splines_.size(); i++) {\n    if ((t - timeOffset")],
   demo=PO + """int main() {
  PolynomialSplineContainerCubic c;
  for (int k = 0; k < 140; ++k) c.addSpline(PolynomialSplineCubic(PolynomialSplineCubic::SplineCoefficients{{0, 0, 0, double(k)}}, 1.0));
  REQUIRE(near(c.getPositionAtTime(126.5), 126));
  REQUIRE(near(c.getPositionAtTime(130.5), 130));
  return 0;
}
""", src=POLY),
 "policy-byte-count": dict(property="C07", needs="a sampling ratio above 127 and as many measurements",
   breaks="the measurement counter wraps and a period never ends",
   edits=[(P + "SamplingPolicy.hpp", "  int measurementsSinceLastExtend_;\n", "  signed char measurementsSinceLastExtend_;\n")],
   demo=SE3 + """int main() {
  Slerp c;
  c.setSamplingRatio(150);
  c.extend({0.0}, {at(0, 0)});
  c.extend({1.0}, {at(1, 0)});
  for (int k = 0; k < 600; ++k) c.extend({2.0 + k}, {at(2 + k, 0)});
  REQUIRE(c.size() == 2 + 4);
  return 0;
}
""", **K),
 "fit-late-interval": dict(property="C17", needs="more than a hundred knots with a repeated time late in the list",
   breaks="knot times after the hundredth are not checked",
   edits=[(C, "ALL:    if (splineDurations[splineId]<=0.0) {", "    if (splineId < 100 && splineDurations[splineId]<=0.0) {")],
   demo=PO + """int main() {
  PolynomialSplineContainerQuintic c;
  std::vector<double> t, x;
  for (int k = 0; k < 112; ++k) { t.push_back(k == 105 ? 104 : k); x.push_back(k % 3); }
  REQUIRE(!c.setData(t, x, 0, 0, 0, 0));
  REQUIRE(c.isEmpty());
  return 0;
}
""", src=POLY),
 "csv-long-line": dict(property="C19", needs="a row of more than 4095 characters",
   breaks="reading stops at a long row",
   edits=[(S + "helpers.cpp", "  std::string line;\n  while(std::getline(inFileStream, line)) {\n", "  char line[4096];\n  while(inFileStream.getline(line, sizeof(line))) {\n")],
   demo=BASE + """#include <curves/helpers.hpp>
#include <cstdlib>
#include <unistd.h>
int main() {
  char dir[] = "/tmp/seedXXXXXX";
  REQUIRE(mkdtemp(dir));
  const std::string f = std::string(dir) + "/a.csv";
  std::vector<std::vector<std::string> > m;
  m.push_back({"1", "2"});
  m.push_back(std::vector<std::string>(700, "1234567"));
  m.push_back({"3", "4"});
  curves::writeCSV(f, m);
  const bool same = curves::loadCSV(f) == m;
  unlink(f.c_str());
  rmdir(dir);
  REQUIRE(same);
  return 0;
}
""", src="curves/src/helpers.cpp"),
 "ros-name-long": dict(property="C21", needs="two joint names that agree in their first 31 characters",
   breaks="joint names are compared up to 31 characters",
   edits=[(R + "RosMultiDOFJointTrajectoryTranslationInterface.cpp", "message.joint_names[j] == jointName", "message.joint_names[j].compare(0, 31, jointName, 0, 31) == 0")],
   demo=ROS + """int main() {
  curves::RosMultiDOFJointTrajectoryTranslationInterface c;
  trajectory_msgs::MultiDOFJointTrajectory m;
  const std::string base = "robot/front_left_leg/upper_shank_link";
  m.joint_names = {base + "_a", base + "_b"};
  for (int k = 0; k < 3; ++k) {
    trajectory_msgs::MultiDOFJointTrajectoryPoint p;
    p.time_from_start.fromNSec(k * 1000000000ll);
    p.transforms.resize(2);
    p.transforms[0].translation.x = 1;
    p.transforms[1].translation.x = 5;
    p.transforms[0].rotation.w = p.transforms[1].rotation.w = 1;
    m.points.push_back(p);
  }
  REQUIRE(c.fromMessage(m, base + "_b"));
  Eigen::Vector3d v;
  c.evaluate(v, 0);
  REQUIRE(near(v.x(), 5));
  return 0;
}
""", **RK),
 "vector-min-float": dict(property="C18", needs="a start time that a float cannot hold, such as seconds since 1970",
   breaks="the time axis of a vector curve is shifted",
   edits=[(P + "PolynomialSplineVectorSpaceCurve.hpp", "  Time minTime_;\n", "  float minTime_;\n")],
   demo=PO + """#include <curves/PolynomialSplineVectorSpaceCurve.hpp>
int main() {
  PolynomialSplineQuinticVector3Curve c;
  const double t0 = 1447770003.0;
  c.fitCurve({t0, t0 + 1, t0 + 2}, {Eigen::Vector3d(1, 2, 3), Eigen::Vector3d(2, 3, 4), Eigen::Vector3d(3, 4, 5)});
  REQUIRE(c.getMinTime() == t0);
  Eigen::Vector3d v;
  c.evaluate(v, t0 + 1);
  REQUIRE(near(v.x(), 2));
  return 0;
}
""", src=POLY),
 "fit-many-junctions": dict(property="C16", needs="a fit through more than 48 knots",
   breaks="the acceleration jumps at every later junction",
   edits=[(C, "    equalityConstraintJacobian_.block(constraintIdx, getSplineColumnIndex(nextSplineId), 1, SplineType::coefficientCount) = -ddTimeVec0;\n", "    if (splineId < 47) equalityConstraintJacobian_.block(constraintIdx, getSplineColumnIndex(nextSplineId), 1, SplineType::coefficientCount) = -ddTimeVec0;\n")],
   demo=PO + """int main() {
  PolynomialSplineContainerQuintic c;
  std::vector<double> t, x;
  for (int k = 0; k < 56; ++k) { t.push_back(k); x.push_back((k * k) % 7); }
  REQUIRE(c.setData(t, x, 0, 0, 0, 0));
  for (int k = 1; k < 55; ++k) REQUIRE(near(c.getAccelerationAtTime(k - 1e-9), c.getAccelerationAtTime(k), 1e-4));
  return 0;
}
""", src=POLY),
 "policy-last-float": dict(property="C08", needs="times that a float cannot hold, such as seconds since 1970",
   breaks="the sampling period is measured from a rounded time",
   edits=[(P + "SamplingPolicy.hpp", "  Time lastExtend_;\n", "  float lastExtend_;\n")],
   demo=SE3 + """int main() {
  curves::SamplingPolicy p(100, 10.0);
  const double t0 = 1447770003.0;
  p.setLastExtendTime(t0);
  REQUIRE(p.getLastExtendTime() == t0);
  H c;
  c.fitCurve({t0 - 1, t0}, {at(0, 0), at(1, 0)});
  return 0;
}
""", **K),
}
