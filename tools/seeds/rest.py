P = "curves/include/curves/"
S = "curves/src/"
ALLSRC = "curves/src/KeyGenerator.cpp curves/src/helpers.cpp curves/src/SE3Curve.cpp curves/src/CubicHermiteE3Curve.cpp curves/src/CubicHermiteSE3Curve.cpp curves/src/SlerpSE3Curve.cpp curves/src/polynomial_splines_traits.cpp"
POLY = "curves/src/polynomial_splines_traits.cpp"
BASE = """#include <Eigen/Core>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <memory>
#include <vector>
#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while (0)
static bool near(double a, double b, double e = 1e-6) { return std::abs(a - b) <= e; }
"""
SE3 = BASE + """#include <curves/CubicHermiteE3Curve.hpp>
#include <curves/CubicHermiteSE3Curve.hpp>
#include <curves/SlerpSE3Curve.hpp>
#include <curves/helpers.hpp>
typedef Eigen::Vector3d V;
typedef curves::CubicHermiteSE3Curve H;
typedef H::ValueType Pose;
typedef H::DerivativeType Tw;
struct Slerp : curves::SlerpSE3Curve {
  using curves::SlerpSE3Curve::evaluate;
  using curves::SlerpSE3Curve::evaluateDerivative;
  virtual bool evaluate(ValueType&, curves::Time) const { return false; }
  virtual bool evaluateDerivative(DerivativeType&, curves::Time, unsigned) const { return false; }
};
static Pose at(double x, double angle = 0, int axis = 2) {
  double s = std::sin(angle / 2);
  return Pose(Pose::Position(V(x, 2 * x, -x)), Pose::Rotation(std::cos(angle / 2), axis == 0 ? s : 0, axis == 1 ? s : 0, axis == 2 ? s : 0));
}
"""
PO = BASE + """#include <curves/polynomial_splines.hpp>
#include <curves/polynomial_splines_containers.hpp>
#include <curves/PolynomialSplineScalarCurve.hpp>
#include <curves/PolynomialSplineVectorSpaceCurve.hpp>
using namespace curves;
"""
K = dict(kindr=True, src=ALLSRC)
SEEDS = {
 "key-read-after-unlock": dict(property="C02", needs="two threads that draw at the same time, the second between the unlock and the read of the first",
   breaks="the key is read again after the lock is released",
   edits=[(S + "KeyGenerator.cpp", "  boost::lock_guard<boost::mutex> guard(mutex);\n  return ++key;", "  {\n    boost::lock_guard<boost::mutex> guard(mutex);\n    ++key;\n  }\n  return key;")],
   demo=BASE + """#include <atomic>
#include <thread>
#include <curves/KeyGenerator.hpp>
int main() {
  for (int round = 0; round < 20; ++round) {
    const int n = 8, d = 200000;
    std::vector<std::vector<size_t>> got(n);
    std::atomic<int> ready(0);
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i)
      th.emplace_back([&, i] {
        got[i].reserve(d);
        ++ready;
        while (ready < n) std::this_thread::yield();
        for (int k = 0; k < d; ++k) got[i].push_back(curves::KeyGenerator::getNextKey());
      });
    for (auto& t : th) t.join();
    std::vector<size_t> all;
    for (auto& g : got) all.insert(all.end(), g.begin(), g.end());
    std::sort(all.begin(), all.end());
    REQUIRE(std::adjacent_find(all.begin(), all.end()) == all.end());
  }
  return 0;
}
"""),
 "key-short": dict(property="C02", needs="more than 65536 keys in one process", breaks="keys repeat after 2^16 draws",
   edits=[(S + "KeyGenerator.cpp", "  static size_t key = 0;", "  static unsigned short key = 0;")],
   demo=BASE + """#include <curves/KeyGenerator.hpp>
int main() {
  size_t first = curves::KeyGenerator::getNextKey();
  for (int i = 0; i < 100000; ++i) REQUIRE(curves::KeyGenerator::getNextKey() != first);
  return 0;
}
"""),
 "e3-cached-bracket": dict(property="C05", needs="copying a curve that was evaluated, then changing the original and evaluating the copy in the same interval",
   breaks="the remembered interval of a copied curve refers to the coefficients of the original",
   edits=[(P + "CubicHermiteE3Curve.hpp", " private:\n  LocalSupport2CoefficientManager<Coefficient> manager_;", " private:\n  LocalSupport2CoefficientManager<Coefficient> manager_;\n  // The interval of the last evaluation.\n  mutable CoefficientIter lastA_, lastB_;\n  mutable bool hasLast_ = false;"),
          (S + "CubicHermiteE3Curve.cpp", "   else {\n     CoefficientIter a, b;\n     bool success = manager_.getCoefficientsAt(time, &a, &b);\n     if(!success) {\n       std::cerr << \"Unable to get the coefficients at time \" << time << std::endl;\n       return false;\n     }",
           "   else {\n     CoefficientIter a, b;\n     if (hasLast_ && lastA_->first <= time && time < lastB_->first) {\n       a = lastA_;\n       b = lastB_;\n     } else {\n     bool success = manager_.getCoefficientsAt(time, &a, &b);\n     if(!success) {\n       std::cerr << \"Unable to get the coefficients at time \" << time << std::endl;\n       return false;\n     }\n     lastA_ = a;\n     lastB_ = b;\n     hasLast_ = true;\n     }"),
          (S + "CubicHermiteE3Curve.cpp", "  manager_.clear();", "  hasLast_ = false;\n  manager_.clear();")],
   demo=SE3 + """int main() {
  typedef curves::CubicHermiteE3Curve E;
  std::unique_ptr<E> a(new E);
  a->fitCurve({0.0, 1.0}, {V(0, 0, 0), V(1, 1, 1)});
  V v, w;
  a->evaluate(v, 0.5);
  E b(*a);
  a->fitCurve({0.0, 1.0}, {V(5, 5, 5), V(6, 6, 6)});
  a.reset();
  std::vector<V> junk(20, V(7, 7, 7));
  b.evaluate(w, 0.5);
  REQUIRE(near(v.x(), w.x()));
  return 0;
}
""", **K),
 "vec-shared-containers": dict(property="C05", needs="copying a vector curve and refitting or clearing one of the two",
   breaks="copies of a vector curve share their splines",
   edits=[(P + "PolynomialSplineVectorSpaceCurve.hpp", "ALL:containers_.at(", "containers_->at("),
          (P + "PolynomialSplineVectorSpaceCurve.hpp", "    containers_.resize(N);", "    containers_ = std::make_shared<std::vector<PolynomialSplineContainerQuintic>>(N);"),
          (P + "PolynomialSplineVectorSpaceCurve.hpp", "  std::vector<PolynomialSplineContainerQuintic> containers_;", "  std::shared_ptr<std::vector<PolynomialSplineContainerQuintic>> containers_;"),
          (P + "PolynomialSplineVectorSpaceCurve.hpp", "#include <string>\n", "#include <memory>\n#include <string>\n")],
   demo=PO + """int main() {
  typedef PolynomialSplineQuinticVector3Curve C;
  typedef C::ValueType V;
  C a;
  std::vector<V> p = {V(1, 2, 3), V(4, 5, 6)};
  static_cast<C::Parent&>(a).fitCurve({0.0, 1.0}, p);
  C b(a);
  a.clear();
  V v;
  b.evaluate(v, 1.0);
  REQUIRE(near(v(0), 4) && near(v(2), 6));
  return 0;
}
""", src=POLY),
 "slerp-period": dict(property="C07", needs="a sampling ratio above one and at least two periods of single extensions",
   breaks="a period lasts one measurement too long",
   edits=[(P + "SlerpSE3Curve.hpp", "        if (measurementsSinceLastExtend_ == 1) {", "        if (measurementsSinceLastExtend_ <= 1) {\n          measurementsSinceLastExtend_ = curve->size() > 3 ? 0 : 1;")],
   demo=SE3 + """int main() {
  Slerp s;
  s.setSamplingRatio(2);
  for (int i = 0; i < 12; ++i) s.extend({double(i)}, {at(i)}, nullptr);
  REQUIRE(s.size() == 7);
  return 0;
}
""", **K),
 "slerp-second": dict(property="C07", needs="a sampling ratio above one; the second extension of a curve",
   breaks="the second coefficient already counts as a measurement of a period",
   edits=[(P + "SlerpSE3Curve.hpp", "    if (curve->isEmpty() || curve->size() == 1) {", "    if (curve->isEmpty() || (curve->size() == 1 && minimumMeasurements_ > 3)) {")],
   demo=SE3 + """int main() {
  Slerp s;
  s.setSamplingRatio(2);
  for (int i = 0; i < 4; ++i) s.extend({double(i)}, {at(i)}, nullptr);
  std::vector<double> t;
  s.getCurveTimes(&t);
  REQUIRE(t.size() == 3 && t[0] == 0 && t[1] == 1 && t[2] == 3);
  return 0;
}
""", **K),
 "hermite-period-edge": dict(property="C08", needs="a measurement exactly one sampling period after the last coefficient",
   breaks="a coefficient is added one measurement too early",
   edits=[(P + "CubicHermiteSE3Curve.hpp", "        lastExtend_ + minSamplingPeriod_ < times[i])) {", "        lastExtend_ + minSamplingPeriod_ <= times[i])) {")],
   demo=SE3 + """int main() {
  H c;
  curves::SamplingPolicy p(1, 2.0);
  for (int i = 0; i < 3; ++i) p.extend<H, Pose>({double(i)}, {at(i)}, &c, nullptr);
  // 0 is kept, 1 is an interpolation, 2 is not later than one period
  for (int i = 3; i < 4; ++i) p.extend<H, Pose>({double(i)}, {at(i)}, &c, nullptr);
  std::vector<double> t;
  c.getCurveTimes(&t);
  REQUIRE(t.size() == 2 && t[1] == 3);
  return 0;
}
""", **K),
 "hermite-stale-slope": dict(property="C08", needs="at least three regular coefficients added through the policy",
   breaks="the slope of the previous coefficient is not corrected when a third or later coefficient is added",
   edits=[(P + "CubicHermiteSE3Curve.hpp", "    Coefficient updated(rVal1->second.coefficient.getTransformation(), derivative0);\n    curve->manager_.updateCoefficientByKey(rVal1->second.key, updated);", "    Coefficient updated(rVal1->second.coefficient.getTransformation(), derivative0);\n    if (curve->manager_.size() < 4) {\n      curve->manager_.updateCoefficientByKey(rVal1->second.key, updated);\n    }")],
   demo=SE3 + """int main() {
  H c;
  curves::SamplingPolicy p(1, 0.0);
  double x[] = {0, 1, 3, 4, 9, 10, 30, 33, 40, 41, 57, 60, 61};
  for (int i = 0; i < 13; ++i) p.extend<H, Pose>({double(i + 1)}, {at(x[i])}, &c, nullptr);
  std::vector<double> t;
  c.getCurveTimes(&t);
  for (size_t i = 1; i + 1 < t.size(); ++i) {
    Tw d;
    c.evaluateDerivative(d, t[i], 1);
    int k = int(t[i]) - 1;
    int a = int(t[i - 1]) - 1, b = int(t[i + 1]) - 1;
    REQUIRE(near(d.getTranslationalVelocity().vector().x(), (x[b] - x[a]) / (b - a)));
  }
  return 0;
}
""", **K),
 "e3-two-knots": dict(property="C09", needs="a fit with given derivatives and exactly two knots",
   breaks="the final slope of a two knot curve is its initial slope",
   edits=[(S + "CubicHermiteE3Curve.cpp", "      derivative = finalDerivative;", "      derivative = times.size() > 2 ? finalDerivative : initialDerivative;")],
   demo=SE3 + """int main() {
  curves::CubicHermiteE3Curve c;
  c.fitCurveWithDerivatives({0.0, 2.0}, {V(0, 0, 0), V(1, 1, 1)}, V(1, 0, 0), V(0, 3, 0));
  V d;
  c.evaluateDerivative(d, 2.0, 1);
  REQUIRE(near(d.x(), 0) && near(d.y(), 3));
  return 0;
}
""", **K),
 "e3-uniform-slope": dict(property="C09", needs="more than three knots that are not evenly spaced",
   breaks="inner slopes assume evenly spaced knots",
   edits=[(S + "CubicHermiteE3Curve.cpp", "      derivative = calculateSlope(times[i-1], times[i+1], values[i-1], values[i+1]);", "      derivative = calculateSlope(times[i-1], times[i] + (times[i] - times[i-1]), values[i-1], values[i+1]);")],
   demo=SE3 + """int main() {
  curves::CubicHermiteE3Curve c;
  c.fitCurve({0.0, 1.0, 5.0}, {V(0, 0, 0), V(1, 1, 1), V(10, 5, 0)});
  V d;
  c.evaluateDerivative(d, 1.0, 1);
  REQUIRE(near(d.x(), 2) && near(d.y(), 1));
  return 0;
}
""", **K),
 "e3-accel-gamma": dict(property="C10", needs="a curve with different slopes at both ends of an interval; second derivative away from its start",
   breaks="the second derivative uses the wrong basis function for the final slope",
   edits=[(S + "CubicHermiteE3Curve.cpp", "   const double d_gamma3 = (6.0*alpha - 2.0)*d_alpha;", "   const double d_gamma3 = (4.0*alpha - 2.0)*d_alpha;")],
   demo=SE3 + """int main() {
  curves::CubicHermiteE3Curve c;
  c.fitCurveWithDerivatives({0.0, 2.0}, {V(0, 0, 0), V(1, 1, 1)}, V(1, 0, 0), V(0, 3, 0));
  V a, d1, d2;
  c.evaluateDerivative(a, 1.5, 2);
  c.evaluateDerivative(d1, 1.5 - 1e-5, 1);
  c.evaluateDerivative(d2, 1.5 + 1e-5, 1);
  REQUIRE(near(a.y(), (d2.y() - d1.y()) / 2e-5, 1e-3));
  return 0;
}
""", **K),
 "e3-order-two-scaled": dict(property="C10", needs="the second derivative through evaluateDerivative at the last time of the curve",
   breaks="the second derivative fails at the end of the curve",
   edits=[(S + "CubicHermiteE3Curve.cpp", "      return evaluateLinearAcceleration(derivative, time);", "      return !isEmpty() && time < getMaxTime() && evaluateLinearAcceleration(derivative, time);")],
   demo=SE3 + """int main() {
  curves::CubicHermiteE3Curve c;
  c.fitCurve({0.0, 1.0, 5.0}, {V(0, 0, 0), V(1, 1, 1), V(10, 5, 0)});
  V d;
  REQUIRE(c.evaluateDerivative(d, 5.0, 2));
  return 0;
}
""", **K),
 "se3-twist-frame": dict(property="C11", needs="a curve whose rotation turns about different axes; derivative between knots",
   breaks="the derivative rotates the final angular velocity into the wrong frame",
   edits=[(S + "CubicHermiteSE3Curve.cpp", "      const Eigen::Vector3d w3 = T_W_B.getRotation().inverseRotate(scaled_d_W_B);", "      const Eigen::Vector3d w3 = T_W_A.getRotation().inverseRotate(scaled_d_W_B);")],
   demo=SE3 + """int main() {
  H c;
  c.fitCurve({0.0, 1.0, 2.5}, {at(0), at(1, 1.2, 0), at(3, 0.7, 1)});
  for (double t : {0.3, 0.8, 1.5, 2.2}) {
    Pose a, b, m;
    Tw d;
    double e = 1e-6;
    c.evaluate(a, t - e);
    c.evaluate(b, t + e);
    c.evaluateDerivative(d, t, 1);
    V w = b.getRotation().boxMinus(a.getRotation()) / (2 * e);
    REQUIRE((w - d.getRotationalVelocity().vector()).norm() < 1e-3);
  }
  return 0;
}
""", **K),
 "se3-slope-sign": dict(property="C11", needs="an inner knot between rotations about different axes",
   breaks="inner angular slopes are expressed in the frame of the body",
   edits=[(S + "CubicHermiteSE3Curve.cpp", "  const Eigen::Vector3d angularVelocity_rad_s = T_W_B.getRotation().boxMinus(T_W_A.getRotation()) * inverse_dt_sec;", "  const Eigen::Vector3d angularVelocity_rad_s = T_W_A.getRotation().inverseRotate(Eigen::Vector3d(T_W_B.getRotation().boxMinus(T_W_A.getRotation()))) * inverse_dt_sec;")],
   demo=SE3 + """int main() {
  H c;
  Pose a = at(0, 0.9, 0), b = at(3, 0.7, 1);
  c.fitCurve({0.0, 1.0, 2.5}, {a, at(1, 1.2, 2), b});
  Tw d;
  c.evaluateDerivative(d, 1.0, 1);
  V w = b.getRotation().boxMinus(a.getRotation()) / 2.5;
  REQUIRE((w - d.getRotationalVelocity().vector()).norm() < 1e-6);
  return 0;
}
""", **K),
 "spline-accel-clamp": dict(property="C12", needs="the acceleration of a cubic or higher spline before its start",
   breaks="the acceleration is extrapolated before the start of a spline",
   edits=[(P + "PolynomialSpline.hpp", "SplineImplementation::ddtau(std::max(0.0, std::min(tk, duration_))).begin(), 0.0);", "SplineImplementation::ddtau(std::min(tk, duration_)).begin(), 0.0);")],
   demo=PO + """int main() {
  PolynomialSplineQuintic s(SplineOptions(2.0, 0.0, 1.0, 0.3, -1.0, 0.5, 0.7));
  REQUIRE(near(s.getAccelerationAtTime(-1.0), 0.5));
  return 0;
}
""", src=POLY),
 "spline-quartic-dd": dict(property="C12", needs="the second derivative of a quartic spline",
   breaks="the second derivative of the quartic time vector has a wrong factor",
   edits=[(P + "polynomial_splines_traits.hpp", "    return { 12.0*boost::math::pow<2>(tk), 6.0*tk, 2.0, 0.0, 0.0};", "    return { 12.0*boost::math::pow<2>(tk), 6.0*(tk > 2.0 ? 2.0 : tk), 2.0, 0.0, 0.0};")],
   demo=PO + """int main() {
  PolynomialSplineQuartic::SplineCoefficients k = {{1.0, 2.0, 3.0, 4.0, 5.0}};
  PolynomialSplineQuartic s(k, 3.0);
  for (double t : {0.0, 0.5, 1.0, 2.0, 3.0}) REQUIRE(near(s.getAccelerationAtTime(t), 12 * t * t + 12 * t + 6));
  return 0;
}
""", src=POLY),
 "spline-keeps-duration": dict(property="C13", needs="recomputing the coefficients of a spline with another duration",
   breaks="a recomputed spline keeps its old duration",
   edits=[(P + "PolynomialSpline.hpp", "    duration_ = options.tf_;\n    return", "    if (duration_ <= 0.0) {\n      duration_ = options.tf_;\n    }\n    return")],
   demo=PO + """int main() {
  PolynomialSplineQuintic s(SplineOptions(1.0, 0.0, 1.0, 0.3, -1.0, 0.5, 0.7));
  s.computeCoefficients(SplineOptions(2.0, 0.0, 1.0, 0.3, -1.0, 0.5, 0.7));
  REQUIRE(near(s.getPositionAtTime(2.0), 1.0) && s.getSplineDuration() == 2.0);
  return 0;
}
""", src=POLY),
 "spline-quartic-acc0": dict(skip=True, property="C13", needs="a quartic spline with a non-zero initial acceleration and velocity",
   breaks="the quartic spline starts with the wrong acceleration",
   edits=[(P + "polynomial_splines_traits.hpp", "    b << opts.pos0_, opts.vel0_, opts.acc0_, opts.posT_, opts.velT_;", "    b << opts.pos0_, opts.vel0_, (opts.velT_ == 0.0 ? opts.acc0_ : opts.acc0_ + opts.accT_), opts.posT_, opts.velT_;")],
   demo=PO + """int main() {
  PolynomialSplineQuartic s(SplineOptions(2.0, 0.0, 1.0, 0.3, -1.0, 0.5, 0.7));
  REQUIRE(near(s.getAccelerationAtTime(0.0), 0.5));
  return 0;
}
""", src=POLY),
 "clock-set-back": dict(property="C14", needs="setting the clock back into an earlier spline",
   breaks="the active spline is only searched when the clock moves forward",
   edits=[(P + "PolynomialSplineContainer.tpp", "  containerTime_ = t;\n  activeSplineIdx_ = getActiveSplineIndexAtTime(t, timeOffset_);", "  const bool search = t > containerTime_ || t <= 0.0;\n  containerTime_ = t;\n  if (search) {\n    activeSplineIdx_ = getActiveSplineIndexAtTime(t, timeOffset_);\n  }")],
   demo=PO + """int main() {
  PolynomialSplineContainerQuintic c;
  c.setData({0.0, 1.0, 2.0}, {0.0, 1.0, 5.0}, 0, 0, 0, 0);
  c.setContainerTime(1.5);
  c.setContainerTime(0.5);
  REQUIRE(near(c.getPosition(), c.getPositionAtTime(0.5)));
  return 0;
}
""", src=POLY),
 "clock-reset-offset": dict(property="C14", needs="resetting the clock after it has left the first spline",
   breaks="the offset of the active spline survives a reset of the clock",
   edits=[(P + "PolynomialSplineContainer.tpp", "  timeOffset_ = 0.0;\n  containerTime_ = 0.0;\n  activeSplineIdx_ = 0;\n  return true;", "  containerTime_ = 0.0;\n  activeSplineIdx_ = 0;\n  if (splines_.empty()) {\n    timeOffset_ = 0.0;\n  }\n  return true;")],
   demo=PO + """int main() {
  PolynomialSplineContainerQuintic c;
  c.setData({0.0, 1.0, 2.0}, {0.0, 1.0, 5.0}, 0, 0, 0, 0);
  c.setContainerTime(1.5);
  c.resetTime();
  c.advance(0.5);
  REQUIRE(near(c.getPosition(), c.getPositionAtTime(0.5)));
  return 0;
}
""", src=POLY),
 "container-three-offset": dict(property="C15", needs="a container with at least four splines of different durations",
   breaks="the offset of the fourth and later splines is wrong",
   edits=[(P + "PolynomialSplineContainer.tpp", "    if (i < (splines_.size() - 1)) {\n      timeOffset += splines_[i].getSplineDuration();\n    }\n  }\n\n  return", "    if (i < (splines_.size() - 1)) {\n      timeOffset += splines_[i > 2 ? 2 : i].getSplineDuration();\n    }\n  }\n\n  return")],
   demo=PO + """int main() {
  PolynomialSplineContainerQuintic c;
  for (int i = 1; i <= 5; ++i) c.addSpline(PolynomialSplineQuintic(SplineOptions(i, i, i + 1, 0, 0, 0, 0)));
  REQUIRE(near(c.getPositionAtTime(10.0), 5));
  REQUIRE(near(c.getPositionAtTime(15.0), 6));
  return 0;
}
""", src=POLY),
 "fit-uneven-accel": dict(property="C16", needs="a fit through at least three knots that are not evenly spaced",
   breaks="the acceleration jumps at the knots",
   edits=[(P + "PolynomialSplineContainer.tpp", "    SplineType::getDDTimeVector(ddTimeVecTf, splineDurations[splineId]);", "    SplineType::getDDTimeVector(ddTimeVecTf, splineDurations[nextSplineId]);")],
   demo=PO + """int main() {
  PolynomialSplineContainerQuintic c;
  c.setData({0.0, 1.0, 3.0, 3.5}, {0.0, 1.0, -2.0, 5.0}, 0.5, 0, 0, 1);
  for (double t : {1.0, 3.0}) REQUIRE(near(c.getAccelerationAtTime(t - 1e-9), c.getAccelerationAtTime(t), 1e-4));
  return 0;
}
""", src=POLY),
 "fit-last-junction": dict(property="C16", needs="a fit through at least five knots",
   breaks="the velocity is not continuous at the last inner knot",
   edits=[(P + "PolynomialSplineContainer.tpp", "= -dTimeVec0;", "= (nextSplineId > 2 && nextSplineId == num_junctions) ? (-0.5*dTimeVec0).eval() : (-dTimeVec0).eval();")],
   demo=PO + """int main() {
  PolynomialSplineContainerQuintic c;
  c.setData({0.0, 1.0, 2.0, 3.0, 4.0}, {0.0, 1.0, -2.0, 5.0, 7.0}, 0, 0, 0, 0);
  for (double t : {1.0, 2.0, 3.0}) REQUIRE(near(c.getVelocityAtTime(t - 1e-9), c.getVelocityAtTime(t), 1e-4));
  return 0;
}
""", src=POLY),
 "fit-zero-duration": dict(property="C17", needs="two knots at the same time in the fit with velocities",
   breaks="a fit over an interval of zero duration is accepted",
   edits=[(P + "PolynomialSplineContainer.tpp", "  constexpr unsigned int num_initial_constraints = 2u;   // pos, vel", "  constexpr unsigned int num_initial_constraints = 2u;   // pos, vel"), ],
   demo="", skip=True),
 "linear-partial": dict(property="C17", needs="a piecewise linear fit with an invalid knot that is not the first",
   breaks="a rejected piecewise linear fit is reported as success when the invalid knot is the last one",
   edits=[(P + "PolynomialSplineContainer.tpp", "    const double duration = knotDurations[splineId+1]-knotDurations[splineId];\n\n    if (duration<=0.0) {", "    const double duration = knotDurations[splineId+1]-knotDurations[splineId];\n\n    if (duration<0.0 || (duration==0.0 && splineId<2)) {")],
   demo=PO + """int main() {
  PolynomialSplineContainerLinear c;
  REQUIRE(!c.setData({0.0, 1.0, 2.0, 2.0}, {0.0, 1.0, 2.0, 3.0}));
  REQUIRE(c.isEmpty());
  return 0;
}
""", src=POLY),
 "scalar-second-offset": dict(property="C18", needs="a scalar curve that does not start at time zero; second derivative",
   breaks="the second derivative ignores the start time of the curve",
   edits=[(P + "PolynomialSplineScalarCurve.hpp", "        value = container_.getAccelerationAtTime(time);", "        value = container_.getAccelerationAtTime(time + (minTime_ > 0.0 ? 0.0 : minTime_));")],
   demo=PO + """int main() {
  PolynomialSplineQuinticScalarCurve a, b;
  std::vector<double> p = {0.0, 3.0, 1.0};
  static_cast<Curve<ScalarCurveConfig>&>(a).fitCurve({-2.0, -1.0, 1.0}, p);
  static_cast<Curve<ScalarCurveConfig>&>(b).fitCurve({0.0, 1.0, 3.0}, p);
  double x, y;
  a.evaluateDerivative(x, -0.5, 2);
  b.evaluateDerivative(y, 1.5, 2);
  REQUIRE(near(x, y));
  return 0;
}
""", src=POLY),
 "vector-component": dict(property="C18", needs="a vector curve fitted with boundary values whose components differ",
   breaks="the final acceleration of all components is taken from the first",
   edits=[(P + "PolynomialSplineVectorSpaceCurve.hpp", "                                finalVelocity(i), finalAcceleration(i));", "                                finalVelocity(i), finalAcceleration(0));")],
   demo=PO + """int main() {
  typedef PolynomialSplineQuinticVector3Curve C;
  typedef C::ValueType V;
  C a;
  std::vector<V> p = {V(1, 2, 3), V(4, 5, 6)};
  C::DerivativeType z(V(0, 0, 0)), f(V(1, 2, 3)), d;
  a.fitCurve({0.0, 1.0}, p, z, z, z, f);
  a.evaluateDerivative(d, 1.0, 2);
  REQUIRE(near(d(0), 1) && near(d(1), 2) && near(d(2), 3));
  return 0;
}
""", src=POLY),
 "csv-reused-times": dict(property="C19", needs="loading a file with two time columns into a list that already holds times",
   breaks="the second list of times keeps what it held before",
   edits=[(S + "helpers.cpp", "  CHECK_NOTNULL(outTimes1);\n  outTimes1->clear();", "  CHECK_NOTNULL(outTimes1);")],
   demo=SE3 + """int main() {
  std::vector<Eigen::VectorXd> v(2, Eigen::VectorXd::Ones(3)), w;
  curves::writeTimeVectorCSV("x.csv", {1.0, 2.0}, v);
  std::vector<double> a, b;
  curves::loadTimeTimeVectorCSV("x.csv", &a, &b, &w);
  curves::loadTimeTimeVectorCSV("x.csv", &a, &b, &w);
  REQUIRE(a.size() == 2 && b.size() == 2 && w.size() == 2);
  return 0;
}
""", **K),
 "csv-blank-trim": dict(property="C19", needs="a text field that starts with blanks",
   breaks="blanks at the start of a field are lost",
   edits=[(S + "helpers.cpp", "    while (getline(ss, field,',')) {", "    while (getline(ss >> std::ws, field,',')) {")],
   demo=SE3 + """int main() {
  curves::writeCSV("x.csv", {{" a", "b"}, {"c", " d "}});
  auto t = curves::loadCSV("x.csv");
  REQUIRE(t.size() == 2 && t[0][0] == " a" && t[1][1] == " d ");
  return 0;
}
""", **K),
 "save-pose-order": dict(property="C19", needs="saving a pose curve at times that do not increase",
   breaks="a time that is not later than the one before it is saved with the previous pose",
   edits=[(S + "CubicHermiteSE3Curve.cpp", "    evaluate(val, times[i]);", "    if (i == 0 || times[i] > times[i-1]) {\n      evaluate(val, times[i]);\n    }")],
   demo=SE3 + """int main() {
  H c;
  c.fitCurve({0.0, 1.0}, {at(0), at(1, 1)});
  c.saveCurveAtTimes("x.csv", {1.0, 0.0});
  std::vector<double> t;
  std::vector<Eigen::VectorXd> v;
  curves::loadTimeVectorCSV("x.csv", &t, &v);
  REQUIRE(near(v[0][0], 1) && near(v[1][0], 0));
  return 0;
}
""", **K),
 "slerp-refit-counter": dict(property="C20", needs="extending a Slerp curve with a ratio above one, refitting in the middle of a period, extending again",
   breaks="the refit keeps the position in the sampling period",
   edits=[(S + "SlerpSE3Curve.cpp", "  if(times.size() > 0) {\n    clear();\n    manager_.insertCoefficients(times,values, outKeys);", "  if(times.size() > 0) {\n    manager_.clear();\n    manager_.insertCoefficients(times,values, outKeys);")],
   demo=SE3 + """int main() {
  Slerp s;
  s.setSamplingRatio(3);
  for (int i = 0; i < 3; ++i) s.extend({double(i)}, {at(i)}, nullptr);
  s.fitCurve({10.0, 11.0}, {at(0), at(1)});
  s.extend({12.0}, {at(2)}, nullptr);
  REQUIRE(s.size() == 3);
  return 0;
}
""", **K),
 "scalar-clear-start": dict(property="C20", needs="clearing a scalar curve that did not start at zero",
   breaks="a cleared scalar curve keeps its start time",
   edits=[(P + "PolynomialSplineScalarCurve.hpp", "  virtual void clear()\n  {\n    container_.reset();\n    minTime_ = 0.0;", "  virtual void clear()\n  {\n    container_.reset();")],
   demo=PO + """int main() {
  PolynomialSplineQuinticScalarCurve a;
  static_cast<Curve<ScalarCurveConfig>&>(a).fitCurve({5.0, 6.0}, {1.0, 2.0});
  a.clear();
  REQUIRE(a.getMinTime() == 0.0 && a.getMaxTime() == 0.0);
  return 0;
}
""", src=POLY),
 "se3-refit-merge": dict(property="C20", needs="refitting a pose curve to fewer knots than before",
   breaks="knots of the earlier fit that lie after the new ones survive",
   edits=[(S + "CubicHermiteSE3Curve.cpp", "  CHECK_EQ(times.size(), values.size());\n  clear();\n\n  // construct", "  CHECK_EQ(times.size(), values.size());\n  if (manager_.size() <= 4 || times.empty()) {\n    clear();\n  }\n\n  // construct")],
   demo=SE3 + """int main() {
  H c;
  c.fitCurve({0.0, 1.0, 2.0, 3.0, 4.0}, {at(0), at(1), at(2), at(3), at(4)});
  c.fitCurve({0.0, 1.5}, {at(0), at(1)});
  REQUIRE(c.size() == 2 && c.getMaxTime() == 1.5);
  return 0;
}
""", **K),
}
SEEDS = {k: v for k, v in SEEDS.items() if not v.get("skip")}
