#include <curves/PolynomialSplineScalarCurve.hpp>
#include <curves/PolynomialSplineVectorSpaceCurve.hpp>
#include "readers.hpp"

struct Scalar {
  curves::PolynomialSplineQuinticScalarCurve c;
  void fit(const Set& d) { c.fitCurve(d.t, d.x(), d.b[0](0), d.b[0](1), d.b[1](0), d.b[1](1)); }
  void ext(double, const Set&, int) {}
  void clear() { c.clear(); }
  void ask(int part, double t, Out& o) const {
    double v = 9;
    switch (part) {
      case 0: o(c.getMinTime()); o(c.getMaxTime()); break;
      case 1: o(c.evaluate(v, t)); o(v); break;
      case 2: o(c.evaluateDerivative(v, t, 1)); o(v); break;
      default: o(c.evaluateDerivative(v, t, 2)); o(v);
    }
  }
};
struct Vector {
  typedef curves::PolynomialSplineQuinticVector3Curve T;
  T c;
  void fit(const Set& d) {
    std::vector<T::ValueType> p(d.v.begin(), d.v.end());
    typedef T::DerivativeType D;
    c.fitCurve(d.t, p, D(d.b[0]), D(d.b[1]), D(d.b[1]), D(d.b[0]));
  }
  void ext(double, const Set&, int) {}
  void clear() { c.clear(); }
  void ask(int part, double t, Out& o) const {
    T::ValueType v;
    v.setConstant(9);
    switch (part) {
      case 0: o(c.getMinTime()); o(c.getMaxTime()); break;
      case 1: o(c.evaluate(v, t)); o.v(v); break;
      case 2: o(c.evaluateDerivative(v, t, 1)); o.v(v); break;
      default: o(c.evaluateDerivative(v, t, 2)); o.v(v);
    }
  }
};
json readers_c(const std::string& k, const json& c) {
  if (k == "scalar") return history<Scalar>(c);
  if (k == "vector") return history<Vector>(c);
  return json();
}
