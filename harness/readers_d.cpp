#include <curves/polynomial_splines_containers.hpp>
#include "readers.hpp"

template <int n>
struct Cont {
  typedef curves::PolynomialSpline<n> Sp;
  curves::PolynomialSplineContainer<n> c;
  void fit(const Set& d) { c.setData(d.t, d.x(), d.b[0](0), d.b[0](1), d.b[1](0), d.b[1](1)); c.advance(1.0); }
  void ext(double, const Set& d, int k) {
    c.addSpline(Sp(curves::SplineOptions(1.5, d.v[0](0), d.v[k % d.v.size()](1), d.b[0](0), d.b[1](1), 0.5, 1.0)));
    c.advance(0.75);
  }
  void clear() { c.reset(); }
  void ask(int part, double t, Out& o) const {
    if (c.isEmpty()) part = 5;
    switch (part) {
      case 0: o(c.getPositionAtTime(t)); o(c.getVelocityAtTime(t)); o(c.getAccelerationAtTime(t)); break;
      case 1: o(c.getAccelerationAtTime(t)); o(c.getPositionAtTime(t)); break;
      case 2: { double off = 0; o(c.getActiveSplineIndexAtTime(t, off)); o(off); break; }
      case 3: o(c.getPosition()); o(c.getVelocity()); o(c.getAcceleration()); o(c.getActiveSplineIndex()); break;
      case 4: o(c.getEndPosition()); o(c.getEndVelocity()); o(c.getEndAcceleration()); break;
      default: o(c.getContainerTime()); o(c.getContainerDuration()); o(c.isEmpty()); o(c.getSplines().size());
    }
  }
};
json readers_d(const std::string& k, const json& c) {
  if (k == "cont3") return history<Cont<3>>(c);
  if (k == "cont5") return history<Cont<5>>(c);
  return json();
}
