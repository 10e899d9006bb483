#include <curves/CubicHermiteE3Curve.hpp>
#include "readers.hpp"

struct E3 {
  curves::CubicHermiteE3Curve c;
  void fit(const Set& d) { c.fitCurveWithDerivatives(d.t, d.v, d.b[0], d.b[1]); }
  void ext(double, const Set&, int) {}
  void clear() { c.clear(); }
  void ask(int part, double t, Out& o) const {
    V v(9, 8, 7);
    switch (part) {
      case 0: o(c.size()); o(c.isEmpty()); if (!c.isEmpty()) { o(c.getMinTime()); o(c.getMaxTime()); } break;
      case 1: o(c.evaluate(v, t)); o.v(v); break;
      case 2: o(c.evaluateDerivative(v, t, 1)); o.v(v); break;
      case 3: o(c.evaluateDerivative(v, t, 2)); o.v(v); break;
      default: o(c.evaluateLinearAcceleration(v, t)); o.v(v);
    }
  }
};
struct SE3 {
  mutable curves::CubicHermiteSE3Curve c;
  curves::SamplingPolicy p{2, 1.0};
  void fit(const Set& d) {
    c.fitCurve(d.t, d.p);
    p.setLastExtendTime(d.t.back());
    p.setMeasurementsSinceLastExtend_(0);
  }
  void ext(double t, const Set& d, int k) { p.extend<curves::CubicHermiteSE3Curve, Pose>(Vd{t}, std::vector<Pose>{d.p[k % d.p.size()]}, &c, nullptr); }
  void clear() { c.clear(); p = curves::SamplingPolicy(2, 1.0); }
  void ask(int part, double t, Out& o) const {
    switch (part) {
      case 0: {
        o(c.size()); o(c.isEmpty());
        Vd ts;
        c.getCurveTimes(&ts);
        for (double x : ts) o(x);
        if (!c.isEmpty()) { o(c.getMinTime()); o(c.getMaxTime()); }
        break;
      }
      case 1: {
        Pose v(Pose::Position(V(9, 8, 7)), Pose::Rotation(1, 0, 0, 0));
        o(c.evaluate(v, t));
        o.v(v.getPosition().vector());
        o(v.getRotation().w()); o(v.getRotation().x()); o(v.getRotation().y()); o(v.getRotation().z());
        break;
      }
      case 2: {
        Tw d(V(9, 8, 7), V(9, 8, 7));
        o(c.evaluateDerivative(d, t, 1));
        o.v(d.getTranslationalVelocity().vector());
        o.v(d.getRotationalVelocity().vector());
        break;
      }
      default: {
        kindr::Acceleration3D a(V(9, 8, 7));
        o(c.evaluateLinearAcceleration(a, t));
        o.v(a.vector());
      }
    }
  }
};
json readers_a(const std::string& k, const json& c) {
  if (k == "e3") return history<E3>(c);
  if (k == "se3") return history<SE3>(c);
  return json();
}
