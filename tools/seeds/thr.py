"""changes that only show beyond or below some threshold"""
import importlib.util, pathlib
_s = importlib.util.spec_from_file_location("more", str(pathlib.Path(__file__).resolve().parent / "more.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
P, S, BASE, SE3, PO, K, POLY, MGR, MI, C, R, ROS, RK = _m.P, _m.S, _m.BASE, _m.SE3, _m.PO, _m.K, _m.POLY, _m.MGR, _m.MI, _m.C, _m.R, _m.ROS, _m.RK
SEEDS = {
 "clock-near-end": dict(property="C14", needs="a clock less than 1e-7 s before the end of the container",
   breaks="advance refuses to move to the end",
   edits=[(C, "containerTime_ >= containerDuration_ ||", "containerTime_ + 1e-7 >= containerDuration_ ||")],
   demo=PO + """int main() {
  PolynomialSplineContainerQuintic c;
  REQUIRE(c.setData({0.0, 1.0, 2.0}, {0.0, 1.0, 0.0}, 0, 0, 0, 0));
  c.setContainerTime(2.0 - 5e-8);
  REQUIRE(c.advance(5e-8));
  REQUIRE(c.getContainerTime() > 2.0 - 1e-9);
  return 0;
}
""", src=POLY),
 "index-near-junction": dict(property="C15", needs="a time less than a nanosecond before a junction where the value jumps",
   breaks="the next spline answers before its time",
   edits=[(C, "    if ((t - timeOffset < splines_[i].getSplineDuration())) {", "    if ((t - timeOffset + 1e-9 < splines_[i].getSplineDuration())) {")],
   demo=PO + """int main() {
  PolynomialSplineContainerCubic c;
  c.addSpline(PolynomialSplineCubic(PolynomialSplineCubic::SplineCoefficients{{0, 0, 0, 1}}, 1.0));
  c.addSpline(PolynomialSplineCubic(PolynomialSplineCubic::SplineCoefficients{{0, 0, 0, 5}}, 1.0));
  REQUIRE(near(c.getPositionAtTime(1.0 - 5e-10), 1));
  double offset = 0;
  REQUIRE(c.getActiveSplineIndexAtTime(1.0 - 5e-10, offset) == 0);
  return 0;
}
""", src=POLY),
 "e3-long-segment": dict(property="C10", needs="two knots more than an hour apart and a slope",
   breaks="slopes of long segments are cut",
   edits=[(S + "CubicHermiteE3Curve.cpp", "const double dt_sec = (b->first - a->first);", "const double dt_sec = (b->first - a->first < 3600.0) ? (b->first - a->first) : 3600.0;")],
   demo=SE3 + """int main() {
  curves::CubicHermiteE3Curve c;
  c.fitCurveWithDerivatives({0.0, 8000.0}, {V(0, 0, 0), V(0, 0, 0)}, V(1, 0, 0), V(0, 0, 0));
  V v;
  REQUIRE(c.evaluate(v, 4000.0));
  REQUIRE(near(v.x(), 1000.0));
  return 0;
}
""", **K),
 "se3-small-turn": dict(property="C11", needs="neighbouring poses that turn by less than 1e-4 rad",
   breaks="the curve does not turn between the knots and jumps at the next one",
   edits=[(S + "CubicHermiteSE3Curve.cpp", "    const Eigen::Vector3d w2 = expW1_Inv_qWB_expW3.logarithmicMap();\n\n    const double dBeta1", "    Eigen::Vector3d w2 = expW1_Inv_qWB_expW3.logarithmicMap();\n    if (w2.norm() < 1e-4) w2.setZero();\n\n    const double dBeta1")],
   demo=SE3 + """int main() {
  H c;
  c.fitCurve({0.0, 1.0}, {at(0, 0), at(1, 8e-5)});
  Pose p;
  REQUIRE(c.evaluate(p, 1.0));
  REQUIRE(near(p.getRotation().z(), 4e-5, 1e-8));
  return 0;
}
""", **K),
 "fit-short-interval": dict(property="C16", needs="two knots at most a microsecond apart",
   breaks="increasing knot times are refused",
   edits=[(C, "ALL:    if (splineDurations[splineId]<=0.0) {", "    if (splineDurations[splineId]<=1e-6) {")],
   demo=PO + """int main() {
  PolynomialSplineContainerQuintic c;
  REQUIRE(c.setData({0.0, 1e-6, 2e-6}, {0.0, 1.0, 0.0}, 0, 0, 0, 0));
  REQUIRE(near(c.getPositionAtTime(1e-6), 1.0));
  return 0;
}
""", src=POLY),
 "scalar-snap": dict(property="C18", needs="a time within a microsecond of the start of the curve and a large slope",
   breaks="times close to the start are evaluated at the start",
   edits=[(P + "PolynomialSplineScalarCurve.hpp", "    time -= minTime_;\n    value = container_.getPositionAtTime(time);", "    time -= minTime_;\n    value = container_.getPositionAtTime(time < 1e-6 ? 0.0 : time);")],
   demo=PO + """int main() {
  PolynomialSplineQuinticScalarCurve c;
  c.fitCurve({0.0, 1e-6}, {0.0, 8.0});
  double v = 0;
  REQUIRE(c.evaluate(v, 5e-7));
  REQUIRE(near(v, 4.0));
  return 0;
}
""", src=POLY),
 "csv-tiny": dict(property="C19", needs="a number below 1e-300",
   breaks="tiny numbers are written as zero",
   edits=[(S + "helpers.cpp", "  std::ostringstream ss; ss.precision(17); ss<<t; return ss.str();", "  std::ostringstream ss; ss.precision(17); ss<<((t > -1e-300 && t < 1e-300) ? T(0) : t); return ss.str();")],
   demo=SE3 + """int main() {
  Eigen::VectorXd v(2);
  v << 3e-305, -2.0;
  curves::writeTimeVectorCSV("a.csv", {1.0}, {v});
  std::vector<curves::Time> t;
  std::vector<Eigen::VectorXd> w;
  curves::loadTimeVectorCSV("a.csv", &t, &w);
  REQUIRE(w.size() == 1 && w[0] == v);
  return 0;
}
""", **K),
 "mgr-page": dict(property="C01", needs="more than 1024 coefficients",
   breaks="the list of times ends after 1024 entries",
   edits=[(MI, "  for( ; it != timeToCoefficient_.end(); ++it) {\n    outTimes->push_back(it->first);", "  for( ; it != timeToCoefficient_.end() && outTimes->size() < 1024; ++it) {\n    outTimes->push_back(it->first);")],
   demo=MGR + """int main() {
  M m;
  for (int i = 0; i < 1500; ++i) m.insertCoefficient(i, V(i, 0, 0));
  std::vector<curves::Time> t;
  m.getTimes(&t);
  REQUIRE(t.size() == 1500);
  return 0;
}
"""),
 "range-close-end": dict(property="C04", needs="two coefficients less than 1e-9 apart with the range ending at the second one",
   breaks="the range misses the coefficient that closes it",
   edits=[(MI, "    for (; it != timeToCoefficient_.end() && it->first < endTime; ++it) {", "    for (; it != timeToCoefficient_.end() && it->first + 1e-9 < endTime; ++it) {")],
   demo=MGR + """int main() {
  M m;
  curves::Key a = m.insertCoefficient(0.0, V(0, 0, 0)), b = m.insertCoefficient(5e-10, V(1, 0, 0)), c = m.insertCoefficient(1.0, V(2, 0, 0));
  M::CoefficientMap r;
  m.getCoefficientsInRange(0.0, 5e-10, &r);
  REQUIRE(r.size() == 2 && r.count(a) && r.count(b) && !r.count(c));
  return 0;
}
"""),
 "e3-close-knots": dict(property="C09", needs="knots less than a nanosecond apart",
   breaks="the slope at an inner knot is too small",
   edits=[(S + "CubicHermiteE3Curve.cpp", "  const double inverse_dt_sec = 1.0/double(timeB - timeA);", "  const double dt_sec = double(timeB - timeA);\n  const double inverse_dt_sec = dt_sec > 1e-9 ? 1.0/dt_sec : 1e9;")],
   demo=SE3 + """int main() {
  curves::CubicHermiteE3Curve c;
  c.fitCurve({0.0, 1e-10, 2e-10}, {V(0, 0, 0), V(1, 0, 0), V(2, 0, 0)});
  V v;
  REQUIRE(c.evaluateDerivative(v, 1e-10, 1));
  REQUIRE(near(v.x() * 1e-10, 1.0));
  return 0;
}
""", **K),
 "spline-min-duration": dict(property="C13", needs="a duration below a microsecond",
   breaks="the spline is longer than requested",
   edits=[(P + "PolynomialSpline.hpp", "    duration_ = options.tf_;", "    duration_ = options.tf_ > 1e-6 ? options.tf_ : 1e-6;")],
   demo=PO + """int main() {
  PolynomialSpline<1> s(SplineOptions(1e-7, 0.0, 1.0, 0, 0, 0, 0));
  REQUIRE(s.getSplineDuration() < 2e-7);
  REQUIRE(near(s.getPositionAtTime(1.0), 1.0));
  return 0;
}
""", src=POLY),
 "ros-many-points": dict(property="C21", needs="a message with more than 64 points",
   breaks="points beyond the 64th are ignored",
   edits=[(R + "RosJointTrajectoryInterface.cpp", "  for (const auto& point : message.points) {", "  for (const auto& point : message.points) {\n    if (times.size() == 64) break;")],
   demo=ROS + """int main() {
  curves::RosJointTrajectoryInterface c;
  std::vector<int> ms;
  for (int i = 0; i < 80; ++i) ms.push_back(1000 * i);
  REQUIRE(c.fromMessage(message({"a"}, ms, 0), "a"));
  REQUIRE(near(c.getMaxTime(), 79));
  return 0;
}
""", **RK),
 "self-check-last": dict(property="C14", needs="a coefficient that is not a number, in the last spline, and not its first coefficient",
   breaks="the self check accepts the container",
   edits=[(C, "    for (auto& coeff : coeffs) {\n      if (std::isnan(coeff)) {", "    for (auto& coeff : coeffs) {\n      if (&spline == &splines_.back() && &coeff != &coeffs.front() && splines_.size() > 1) break;\n      if (std::isnan(coeff)) {")],
   demo=PO + """#include <limits>
int main() {
  PolynomialSplineContainerCubic c;
  PolynomialSplineCubic::SplineCoefficients good{{0, 0, 0, 1}}, bad{{0, std::numeric_limits<double>::quiet_NaN(), 0, 1}};
  c.addSpline(PolynomialSplineCubic(good, 1.0));
  REQUIRE(c.checkContainer());
  c.addSpline(PolynomialSplineCubic(bad, 1.0));
  REQUIRE(!c.checkContainer());
  return 0;
}
""", src=POLY),
}
