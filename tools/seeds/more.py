import importlib.util, pathlib
_s = importlib.util.spec_from_file_location("rest", str(pathlib.Path(__file__).resolve().parent / "rest.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
P, S, BASE, SE3, PO, K, POLY = _m.P, _m.S, _m.BASE, _m.SE3, _m.PO, _m.K, _m.POLY
R = "curves_ros/src/"
ROS = BASE + """#include <curves_ros/RosJointTrajectoryInterface.hpp>
#include <curves_ros/RosMultiDOFJointTrajectoryInterface.hpp>
#include <curves_ros/RosMultiDOFJointTrajectoryTranslationInterface.hpp>
static trajectory_msgs::JointTrajectory message(std::vector<std::string> names, std::vector<int> ms, double base) {
  trajectory_msgs::JointTrajectory m;
  m.joint_names = names;
  for (size_t k = 0; k < ms.size(); ++k) {
    trajectory_msgs::JointTrajectoryPoint p;
    p.time_from_start.fromNSec(ms[k] * 1000000ll);
    for (size_t j = 0; j < names.size(); ++j) p.positions.push_back(base + 10 * double(j) + double(k));
    m.points.push_back(p);
  }
  return m;
}
"""
RK = dict(kindr=True, ros=True, src=_m.ALLSRC + " curves_ros/src/RosJointTrajectoryInterface.cpp curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp")
MGR = BASE + """#include <curves/LocalSupport2CoefficientManager.hpp>
typedef Eigen::Vector3d V;
typedef curves::LocalSupport2CoefficientManager<V> M;
"""
FATAL = """#include <sys/wait.h>
#include <unistd.h>
template <class F> static bool fatal(F f) {
  pid_t p = fork();
  if (p == 0) { (void)!freopen("/dev/null", "w", stderr); f(); _exit(0); }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
}
"""
MI = P + "LocalSupport2CoefficientManager-inl.hpp"
C = P + "PolynomialSplineContainer.tpp"
SEEDS = {
 "ros-name-prefix": dict(property="C21", needs="a joint whose name is the beginning of the name of an earlier joint of the message",
   breaks="the interface takes the first joint whose name starts with the asked name",
   edits=[(R + "RosJointTrajectoryInterface.cpp", "message.joint_names[j] == jointName", "message.joint_names[j].compare(0, jointName.size(), jointName) == 0")],
   demo=ROS + """int main() {
  curves::RosJointTrajectoryInterface c;
  REQUIRE(c.fromMessage(message({"arm10", "arm1"}, {0, 1000, 2000}, 1), "arm1"));
  double v = 0;
  c.evaluate(v, 0);
  REQUIRE(near(v, 11));
  REQUIRE(!c.fromMessage(message({"arm10", "arm12"}, {0, 1000, 2000}, 1), "arm1"));
  return 0;
}
""", **RK),
 "ros-missing-clears": dict(property="C21", needs="a curve with content and a message without the joint",
   breaks="a message that does not contain the joint empties the curve",
   edits=[(R + "RosMultiDOFJointTrajectoryTranslationInterface.cpp", "  size_t nJoints = message.joint_names.size();", "  clear();\n  size_t nJoints = message.joint_names.size();")],
   demo=ROS + """int main() {
  curves::RosMultiDOFJointTrajectoryTranslationInterface c;
  trajectory_msgs::MultiDOFJointTrajectory m;
  m.joint_names = {"a", "b"};
  for (int k = 0; k < 3; ++k) {
    trajectory_msgs::MultiDOFJointTrajectoryPoint p;
    p.time_from_start.fromNSec(k * 1000000000ll);
    p.transforms.resize(2);
    p.transforms[1].translation.x = 5 + k;
    m.points.push_back(p);
  }
  REQUIRE(c.fromMessage(m, "b"));
  REQUIRE(!c.fromMessage(m, "c"));
  Eigen::Vector3d v;
  c.evaluate(v, 1.0);
  REQUIRE(near(v.x(), 6) && near(c.getMaxTime(), 2));
  return 0;
}
""", **RK),
 "ros-float-time": dict(property="C21", needs="points later than about a day, so that single precision drops the fraction of the time",
   breaks="the time of a point is computed in single precision",
   edits=[(R + "RosMultiDOFJointTrajectoryInterface.cpp", "times.push_back(ros::Duration(point.time_from_start).toSec());", "const float seconds = ros::Duration(point.time_from_start).toSec();\n    times.push_back(seconds);")],
   demo=ROS + """int main() {
  curves::RosMultiDOFJointTrajectoryInterface c;
  trajectory_msgs::MultiDOFJointTrajectory m;
  m.joint_names = {"a"};
  for (int k = 0; k < 3; ++k) {
    trajectory_msgs::MultiDOFJointTrajectoryPoint p;
    p.time_from_start.fromNSec(100000ll * 1000000000ll + k * 333000000ll);
    p.transforms.resize(1);
    p.transforms[0].rotation.w = 1;
    p.transforms[0].translation.x = k;
    m.points.push_back(p);
  }
  REQUIRE(c.fromMessage(m, "a"));
  REQUIRE(std::abs(c.getMaxTime() - 100000.666) < 1e-6);
  return 0;
}
""", **RK),
 "reader-static-iterators": dict(property="C22", needs="two threads that evaluate at the same time at different places",
   breaks="the bracket of an evaluation is kept in static storage shared by all readers",
   edits=[(S + "CubicHermiteE3Curve.cpp", "   else {\n     CoefficientIter a, b;\n     bool success", "   else {\n     static CoefficientIter a, b;\n     bool success")],
   demo=SE3 + """#include <atomic>
#include <thread>
int main() {
  curves::CubicHermiteE3Curve c;
  std::vector<double> t;
  std::vector<V> p;
  for (int i = 0; i < 50; ++i) { t.push_back(i); p.push_back(V(i * i, -i, 1)); }
  c.fitCurve(t, p);
  std::vector<V> want;
  for (int i = 0; i < 490; ++i) { V v; c.evaluate(v, i * 0.1); want.push_back(v); }
  std::atomic<int> bad(0);
  std::vector<std::thread> th;
  for (int k = 0; k < 8; ++k) th.emplace_back([&, k] {
    for (int r = 0; r < 200000 && !bad; ++r) { int i = (r * 37 + k * 61) % 490; V v; c.evaluate(v, i * 0.1); if (!(v - want[i]).isZero(1e-9)) ++bad; }
  });
  for (auto& x : th) x.join();
  REQUIRE(bad == 0);
  return 0;
}
""", **K),
 "reader-moves-clock": dict(property="C22", needs="a container whose clock stands in one spline and a query of the spline index of another time",
   breaks="asking a container for the active spline of some time also moves the offset of its own clock",
   edits=[(C, "  const int activeSplineIdx = getActiveSplineIndexAtTime(t, timeOffset);\n\n  if (activeSplineIdx < 0) {\n    // Spline container is empty.\n    return 0.0;\n  }\n\n  if (static_cast<unsigned int>(activeSplineIdx) == splines_.size()) {\n    return splines_.back().getAccelerationAtTime(splines_.back().getSplineDuration());\n  }",
               "  const int activeSplineIdx = getActiveSplineIndexAtTime(t, timeOffset);\n\n  if (activeSplineIdx < 0) {\n    // Spline container is empty.\n    return 0.0;\n  }\n  if (t == containerTime_) {\n    const_cast<PolynomialSplineContainer*>(this)->activeSplineIdx_ = activeSplineIdx;\n    const_cast<PolynomialSplineContainer*>(this)->timeOffset_ = timeOffset;\n  }\n\n  if (static_cast<unsigned int>(activeSplineIdx) == splines_.size()) {\n    return splines_.back().getAccelerationAtTime(splines_.back().getSplineDuration());\n  }")],
   src=POLY, demo=PO + """int main() {
  PolynomialSplineContainerQuintic c;
  c.setData({0, 1, 2}, {0, 1, 4}, 0, 0, 0, 0);
  c.setContainerTime(0);
  c.advance(2.0);
  const int before = c.getActiveSplineIndex();
  c.getAccelerationAtTime(2.0);
  REQUIRE(c.getActiveSplineIndex() == before);
  return 0;
}
"""),
 "hermite-extend-same-time": dict(property="C06", needs="extending a Hermite pose curve at exactly the time of its last measurement",
   breaks="a measurement at the time of the last one is accepted and overwrites it",
   edits=[(P + "CubicHermiteSE3Curve.hpp", "CHECK((times[i] > curve->manager_.getMaxTime()) ||", "CHECK((times[i] >= curve->manager_.getMaxTime()) ||")],
   demo=SE3 + FATAL + """int main() {
  H c;
  curves::SamplingPolicy p(2, 0.0);
  p.extend<H, Pose>({0, 1, 2}, {at(0), at(1), at(2)}, &c);
  REQUIRE(fatal([&] { p.extend<H, Pose>({2.0}, {at(3)}, &c); }));
  REQUIRE(!fatal([&] { p.extend<H, Pose>({2.5}, {at(3)}, &c); }));
  return 0;
}
""", **K),
 "csv-narrow-two": dict(property="C06", needs="loading with two time columns from a file that has two columns only",
   breaks="a file without any values is accepted by the loader of two time columns",
   edits=[(S + "helpers.cpp", "CHECK_GE(temp.at(0).size(), 3)", "CHECK_GE(temp.at(0).size(), 2)")],
   demo=SE3 + FATAL + """int main() {
  curves::writeCSV("two.csv", {{"1", "2"}, {"3", "4"}});
  curves::writeCSV("three.csv", {{"1", "2", "5"}, {"3", "4", "6"}});
  std::vector<double> a, b;
  std::vector<Eigen::VectorXd> v;
  REQUIRE(fatal([&] { curves::loadTimeTimeVectorCSV("two.csv", &a, &b, &v); }));
  REQUIRE(!fatal([&] { curves::loadTimeTimeVectorCSV("three.csv", &a, &b, &v); }));
  return 0;
}
""", **K),
 "slerp-set-uneven": dict(property="C06", needs="setting a part of a linear pose curve with more values than times",
   breaks="the lists are cut to the shorter one",
   edits=[(S + "SlerpSE3Curve.cpp", "  CHECK_EQ(times.size(), values.size());\n  if(times.size() > 0) {\n    manager_.insertCoefficients(times, values);\n  }", "  CHECK_LE(times.size(), values.size());\n  for (size_t i = 0; i < times.size(); ++i) {\n    manager_.insertCoefficient(times[i], values[i]);\n  }")],
   demo=SE3 + FATAL + """int main() {
  Slerp c;
  c.fitCurve({0, 1}, {at(0), at(1)});
  REQUIRE(fatal([&] { c.setCurve({2, 3}, {at(1), at(2), at(3)}); }));
  REQUIRE(!fatal([&] { c.setCurve({2, 3}, {at(1), at(2)}); }));
  return 0;
}
""", **K),
 "container-zero-step": dict(property="C14", needs="a step of length zero before the end of the trajectory",
   breaks="a step of length zero is reported as the end of the trajectory",
   edits=[(C, "  // Advance in time.\n  containerTime_ += dt;", "  if (containerTime_ + dt <= containerTime_) {\n    return false;\n  }\n\n  // Advance in time.\n  containerTime_ += dt;")],
   src=POLY, demo=PO + """int main() {
  PolynomialSplineContainerQuintic c;
  c.setData({0, 1, 2}, {0, 1, 4}, 0, 0, 0, 0);
  REQUIRE(c.advance(0.5));
  REQUIRE(c.advance(0.0));
  REQUIRE(near(c.getContainerTime(), 0.5));
  return 0;
}
"""),
 "window-after-move": dict(property="C01", needs="moving a coefficient to a later time past others, with the insertion hint taken as its place",
   breaks="the key of a moved coefficient leads to its neighbour when the coefficient passes others",
   edits=[(MI, "  keyToCoefficient_[it->second.key] = newIt;\n  // Remove the old coefficient\n  timeToCoefficient_.erase(it);",
           "  const Key key = it->second.key;\n  // Remove the old coefficient\n  const bool last = newIt == --timeToCoefficient_.end();\n  CoefficientIter place = timeToCoefficient_.erase(it);\n  keyToCoefficient_[key] = (last || place == timeToCoefficient_.end() || place->first > time) ? newIt : (time > place->first && size() > 3) ? place : newIt;")],
   demo=MGR + """int main() {
  M m;
  std::vector<curves::Key> k;
  m.insertCoefficients({0, 1, 2, 3, 5}, {V::Zero(), V::Constant(1), V::Constant(2), V::Constant(3), V::Constant(5)}, &k);
  auto it = m.coefficientBegin();
  ++it;
  curves::LocalSupport2CoefficientManager<V>::TimeToKeyCoefficientMap::iterator mut = const_cast<M&>(m).coefficientBegin();
  ++mut;
  m.modifyCoefficient(mut, 4.0, V::Constant(9));
  REQUIRE(near(m.getCoefficientTimeByKey(k[1]), 4.0));
  REQUIRE(near(m.getCoefficientByKey(k[1]).x(), 9));
  return 0;
}
""", src="curves/src/KeyGenerator.cpp"),
 "fit-accepts-last": dict(property="C17", needs="knot times that increase except at the last knot",
   breaks="the last interval of the knots is not checked",
   edits=[(C, "ALLC", "")], demo="", src=POLY),
 "csv-sixteen": dict(property="C19", needs="a number that needs 17 digits",
   breaks="numbers are written with 16 digits",
   edits=[(S + "helpers.cpp", "ss.precision(17)", "ss.precision(16)")],
   demo=SE3 + """int main() {
  const double x = 0.1 + 0.2;
  curves::writeTimeVectorCSV("a.csv", {x}, {Eigen::VectorXd::Constant(1, x)});
  std::vector<double> t;
  std::vector<Eigen::VectorXd> v;
  curves::loadTimeVectorCSV("a.csv", &t, &v);
  REQUIRE(t[0] == x && v[0][0] == x);
  return 0;
}
""", **K),
 "csv-empty-lines": dict(property="C19", needs="a table with a row that begins with a number sign",
   breaks="rows that look like comments are skipped when loading",
   edits=[(S + "helpers.cpp", "    // Make string stream out of line\n", "    if (line[0] == '#') {\n      continue;\n    }\n    // Make string stream out of line\n")],
   demo=SE3 + """int main() {
  std::vector<std::vector<std::string>> t = {{"#1", "a"}, {"b", "c"}};
  curves::writeCSV("a.csv", t);
  REQUIRE(curves::loadCSV("a.csv") == t);
  return 0;
}
""", **K),
 "vector-derivs-last": dict(property="C18", needs="a vector curve fitted with derivatives at every knot that differ between the knots",
   breaks="the final derivatives are those of the last but one knot",
   edits=[(P + "PolynomialSplineVectorSpaceCurve.hpp", "*(scalarFirstDerivates.end() - 1), *(scalarSecondDerivates.end() - 1));", "*(scalarFirstDerivates.end() - 1), *(scalarSecondDerivates.rbegin() + (times.size() > 2 ? 1 : 0)));")],
   src=POLY, demo=PO + """int main() {
  typedef Eigen::Vector3d V;
  PolynomialSplineQuinticVector3Curve c;
  std::vector<double> t = {0, 1, 2};
  std::vector<V> p = {V(0, 0, 0), V(1, 2, 3), V(2, 0, 1)}, d = {V(1, 1, 1), V(2, 2, 2), V(3, 3, 3)}, dd = {V(0, 1, 0), V(5, 5, 5), V(-1, -1, -1)};
  c.fitCurve(t, p, d, dd);
  V v;
  c.evaluateDerivative(v, 2.0, 2);
  REQUIRE((v - V(-1, -1, -1)).norm() < 1e-6);
  c.evaluateDerivative(v, 2.0, 1);
  REQUIRE((v - V(3, 3, 3)).norm() < 1e-6);
  return 0;
}
"""),
 "policy-period-int": dict(property="C08", needs="a sampling period that is not a whole number of milliseconds",
   breaks="the time since the last measurement is cut to whole milliseconds before it is compared with the period",
   edits=[(P + "CubicHermiteSE3Curve.hpp", "lastExtend_ + minSamplingPeriod_ < times[i]", "minSamplingPeriod_ < std::floor((times[i] - lastExtend_) * 1e3 + 1e-6) * 1e-3")],
   demo=SE3 + """int main() {
  H c;
  curves::SamplingPolicy p(1, 0.0013);
  for (int i = 0; i < 9; ++i) p.extend<H, Pose>({1 + i * 0.00075}, {at(i)}, &c);
  // every second measurement comes later than the period and is a lasting one
  REQUIRE(c.size() == 5);
  return 0;
}
""", **K),
 "slerp-many-key": dict(property="C07", needs="several measurements at once of which one is at the time of an existing coefficient",
   breaks="a coefficient that is replaced in a batch gets a new key",
   edits=[(MI, "    this->updateCoefficientByKey(it->second.key, coefficient);\n    key = it->second.key;", "    if (it == --timeToCoefficient_.end() && size() > 2) {\n      keyToCoefficient_.erase(it->second.key);\n      timeToCoefficient_.erase(it->first);\n      return insertCoefficient(time, coefficient);\n    }\n    this->updateCoefficientByKey(it->second.key, coefficient);\n    key = it->second.key;")],
   demo=SE3 + """int main() {
  Slerp c;
  std::vector<curves::Key> a, b;
  c.extend({0, 1, 2}, {at(0), at(1), at(2)}, &a);
  c.extend({2, 3}, {at(5), at(6)}, &b);
  REQUIRE(a[2] == b[0]);
  return 0;
}
""", **K),
}
SEEDS["fit-accepts-last"] = dict(property="C17", needs="a fit with end conditions whose knot times increase except at the last knot, of an order with enough coefficients",
   breaks="the last interval of the knots is not checked",
   edits=[(C, """    if (splineDurations[splineId]<=0.0) {
      std::cout << "[PolynomialSplineContainer::setData] Invalid spline duration at index" << splineId << ": " << splineDurations[splineId] << std::endl;
      return false;
    }
  }

  // Initialize Equality matrices.
  equalityConstraintJacobian_.setZero(num_constraints, solutionSpaceDimension);
  equalityConstraintTargetValues_.setZero(num_constraints);
  unsigned int constraintIdx = 0;


  // Initial conditions.
  Eigen::VectorXd initialConditions(2);""", """    if (splineId < num_junctions && splineDurations[splineId]<=0.0) {
      std::cout << "[PolynomialSplineContainer::setData] Invalid spline duration at index" << splineId << ": " << splineDurations[splineId] << std::endl;
      return false;
    }
  }

  // Initialize Equality matrices.
  equalityConstraintJacobian_.setZero(num_constraints, solutionSpaceDimension);
  equalityConstraintTargetValues_.setZero(num_constraints);
  unsigned int constraintIdx = 0;


  // Initial conditions.
  Eigen::VectorXd initialConditions(2);""")],
   src=POLY, demo=PO + """int main() {
  PolynomialSplineContainerCubic c;
  REQUIRE(c.setData({0, 1, 2}, {0, 1, 2}, 0, 0));
  REQUIRE(!c.setData({0, 1, 0.5}, {0, 1, 2}, 0, 0));
  REQUIRE(c.isEmpty());
  return 0;
}
""")
