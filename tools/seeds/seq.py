"""changes that need a sequence of calls, or one object used in two places"""
import importlib.util, pathlib
_s = importlib.util.spec_from_file_location("more", str(pathlib.Path(__file__).resolve().parent / "more.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
P, S, BASE, SE3, PO, K, POLY, MGR, MI, C, R, ROS, RK = _m.P, _m.S, _m.BASE, _m.SE3, _m.PO, _m.K, _m.POLY, _m.MGR, _m.MI, _m.C, _m.R, _m.ROS, _m.RK
SEEDS = {
 "container-own-spline": dict(property="C15", needs="adding a spline of the container to the container again",
   breaks="room is made before the spline is copied, so the first spline read is one that was freed",
   edits=[(P + "PolynomialSplineContainer.hpp", "    containerDuration_ += spline.getSplineDuration();\n    splines_.emplace_back(std::forward<SplineType_>(spline));\n",
           "    containerDuration_ += spline.getSplineDuration();\n    splines_.reserve(splines_.size() + 1);\n    splines_.emplace_back(std::forward<SplineType_>(spline));\n")],
   demo=PO + """int main() {
  for (int n = 1; n < 9; ++n) {
    PolynomialSplineContainerQuintic c;
    for (int k = 0; k < n; ++k) c.addSpline(PolynomialSplineQuintic(PolynomialSplineQuintic::SplineCoefficients{{1, 2, 3, 4, 5, 6.0 + k}}, 1.0));
    c.addSpline(*c.getSpline(0));
    REQUIRE(near(c.getSplines().back().getCoefficients()[0], 1));
    REQUIRE(near(c.getSplines().back().getSplineDuration(), 1));
    REQUIRE(near(c.getSplines().back().getCoefficients()[1], 2));
    REQUIRE(near(c.getPositionAtTime(n + 0.5), c.getPositionAtTime(0.5)));
  }
  return 0;
}
""", src=POLY),
 "policy-copy-counter": dict(property="C05", needs="a copy of a linear pose curve in the middle of a sampling period, extended further",
   breaks="the copy starts a period of its own, so it reacts differently from the original",
   edits=[(P + "SamplingPolicy.hpp", "  ~SamplingPolicy() {}\n", "  SamplingPolicy(const SamplingPolicy& other) :\n      measurementsSinceLastExtend_(0),\n      minimumMeasurements_(other.minimumMeasurements_),\n      minSamplingPeriod_(other.minSamplingPeriod_),\n      lastExtend_(0) {}\n\n  ~SamplingPolicy() {}\n")],
   demo=SE3 + """int main() {
  Slerp c;
  c.setSamplingRatio(3);
  for (int k = 0; k < 4; ++k) c.extend({0.0 + k}, {at(k, 0)});
  Slerp d(c);
  for (int k = 4; k < 9; ++k) {
    c.extend({0.0 + k}, {at(k, 0)});
    d.extend({0.0 + k}, {at(k, 0)});
    REQUIRE(c.size() == d.size());
    REQUIRE(c.getMaxTime() == d.getMaxTime());
  }
  return 0;
}
""", **K),
 "lookup-inf": dict(property="C03", needs="a query far beyond the last coefficient",
   breaks="the lookup clamps very late times instead of refusing them",
   edits=[(MI, "  if(time == getMaxTime()) {\n    it = timeToCoefficient_.end();\n    --it;\n  } else {\n    it = timeToCoefficient_.upper_bound(time);", "  if(time == getMaxTime() || time - getMaxTime() == time) {\n    it = timeToCoefficient_.end();\n    --it;\n  } else {\n    it = timeToCoefficient_.upper_bound(time);")],
   demo=MGR + """int main() {
  M m;
  m.insertCoefficient(1.0, V(1, 1, 1));
  m.insertCoefficient(2.0, V(2, 2, 2));
  M::CoefficientIter a, b;
  REQUIRE(!m.getCoefficientsAt(1e9, &a, &b));
  REQUIRE(!m.getCoefficientsAt(1e300, &a, &b));
  return 0;
}
"""),
}
