#include <curves/LocalSupport2CoefficientManager.hpp>
#include <curves/SlerpSE3Curve.hpp>
#include "readers.hpp"

struct SlerpT : curves::SlerpSE3Curve {
  using curves::SlerpSE3Curve::evaluate;
  using curves::SlerpSE3Curve::evaluateDerivative;
  virtual bool evaluate(ValueType&, curves::Time) const { return false; }
  virtual bool evaluateDerivative(DerivativeType&, curves::Time, unsigned) const { return false; }
};
struct Slerp {
  SlerpT c;
  Slerp() { c.setSamplingRatio(2); }
  void fit(const Set& d) { c.fitCurve(d.t, d.p); }
  void ext(double t, const Set& d, int k) { c.extend(Vd{t}, std::vector<Pose>{d.p[k % d.p.size()]}, nullptr); }
  void clear() { c.clear(); }
  void ask(int part, double, Out& o) const {
    if (part % 2) { o(c.size()); o(c.isEmpty()); if (!c.isEmpty()) { o(c.getMinTime()); o(c.getMaxTime()); } return; }
    Vd ts;
    c.getCurveTimes(&ts);
    for (double x : ts) o(x);
  }
};
struct Mgr {
  typedef curves::LocalSupport2CoefficientManager<V> M;
  M c;
  void fit(const Set& d) { c.clear(); c.insertCoefficients(d.t, d.v); }
  void ext(double t, const Set& d, int k) { c.addCoefficientAtEnd(t, d.v[k % d.v.size()]); }
  void clear() { c.clear(); }
  void ask(int part, double t, Out& o) const {
    switch (part) {
      case 0: {
        M::CoefficientIter a, b;
        bool f = c.getCoefficientsAt(t, &a, &b);
        o(f);
        if (f) { o(a->first); o.v(a->second.coefficient); o(b->first); o.v(b->second.coefficient); }
        break;
      }
      case 1: { Vd ts; c.getTimes(&ts); for (double x : ts) o(x); break; }
      case 2: {
        o(c.size()); o(c.empty()); o(c.hasCoefficientAtTime(t));
        if (!c.empty()) { o(c.getMinTime()); o(c.getMaxTime()); }
        break;
      }
      case 3: {
        std::vector<curves::Key> ks;
        c.getKeys(&ks);
        for (auto k : ks) { o(c.getCoefficientTimeByKey(k)); o.v(c.getCoefficientByKey(k)); o(c.hasCoefficientWithKey(k)); }
        break;
      }
      case 4: {
        if (c.empty()) break;
        Vd ts;
        c.getTimesInWindow(&ts, std::min(std::max(t, c.getMinTime()), c.getMaxTime()), c.getMaxTime());
        for (double x : ts) o(x);
        break;
      }
      default: {
        M::CoefficientMap m;
        c.getCoefficientsInRange(t, t + 3, &m);
        o(m.size());
      }
    }
  }
};

json readers_b(const std::string& k, const json& c) {
  if (k == "slerp") return history<Slerp>(c);
  if (k == "mgr") return history<Mgr>(c);
  return json();
}
