// Replays histories of curve objects; observes each object and a new one that is given its recipe.
#include <Eigen/Core>
#include <algorithm>
#include <memory>
#include <utility>
#include <curves/PolynomialSplineScalarCurve.hpp>
#include <curves/PolynomialSplineVectorSpaceCurve.hpp>
#include <curves/CubicHermiteE3Curve.hpp>
#include <curves/CubicHermiteSE3Curve.hpp>
#include <curves/SlerpSE3Curve.hpp>
#include "rp.hpp"
using rp::json;
using rp::num;
typedef Eigen::Vector3d V;
typedef std::vector<double> Vd;

static V vec(const json& j, int o = 0) { return V(j[o].get<double>(), j[o + 1].get<double>(), j[o + 2].get<double>()); }
static void put(json& r, const V& v) { for (int i = 0; i < 3; ++i) r.push_back(num(v(i))); }

struct E3 {
  typedef curves::CubicHermiteE3Curve T;
  T c;
  void fit(const std::string& o, const json& d) {
    Vd t = d["ts"];
    std::vector<V> p;
    for (auto& x : d["vs"]) p.push_back(vec(x));
    if (o == "fit") c.fitCurve(t, p);
    else if (o == "fitd") c.fitCurveWithDerivatives(t, p, vec(d["b"][0]), vec(d["b"][1]));
    else c.fitPeriodicCurve(t, p);
  }
  void ext(double, const json&) {}
  void cfg(int) {}
  void clear() { c.clear(); }
  void obs(const Vd& ts, json& r) {
    r.push_back(c.size());
    r.push_back(int(c.isEmpty()));
    if (!c.isEmpty()) { r.push_back(num(c.getMinTime())); r.push_back(num(c.getMaxTime())); }
    for (double t : ts) {
      V v(9, 8, 7), d1 = v, d2 = v, a = v;
      r.push_back(c.evaluate(v, t) + 2 * c.evaluateDerivative(d1, t, 1) + 4 * c.evaluateDerivative(d2, t, 2) + 8 * c.evaluateLinearAcceleration(a, t));
      put(r, v); put(r, d1); put(r, d2); put(r, a);
    }
  }
};
typedef curves::SE3Curve::ValueType Pose;
typedef curves::SE3Curve::DerivativeType Tw;
static Pose pose(const json& j) { return Pose(Pose::Position(vec(j)), Pose::Rotation(j[3].get<double>(), j[4].get<double>(), j[5].get<double>(), j[6].get<double>())); }
static std::vector<Pose> poses(const json& d) {
  std::vector<Pose> p;
  for (auto& x : d["vs"]) p.push_back(pose(x));
  return p;
}
struct SE3 {
  typedef curves::CubicHermiteSE3Curve T;
  T c;
  void fit(const std::string& o, const json& d) {
    Vd t = d["ts"];
    std::vector<Pose> p = poses(d);
    if (o == "fit") c.fitCurve(t, p);
    else if (o == "fitd") c.fitCurveWithDerivatives(t, p, Tw(vec(d["b"][0]), vec(d["b"][0], 3)), Tw(vec(d["b"][1]), vec(d["b"][1], 3)));
    else c.fitPeriodicCurve(t, p);
  }
  void ext(double, const json&) {}
  void cfg(int) {}
  void clear() { c.clear(); }
  void obs(const Vd& ts, json& r) {
    r.push_back(c.size());
    r.push_back(int(c.isEmpty()));
    if (!c.isEmpty()) { r.push_back(num(c.getMinTime())); r.push_back(num(c.getMaxTime())); }
    std::vector<double> ct;
    c.getCurveTimes(&ct);
    for (double x : ct) r.push_back(num(x));
    for (double t : ts) {
      Pose v(Pose::Position(V(9, 8, 7)), Pose::Rotation(1, 0, 0, 0));
      Tw d(V(9, 8, 7), V(9, 8, 7));
      kindr::Acceleration3D a(V(9, 8, 7));
      r.push_back(c.evaluate(v, t) + 2 * c.evaluateDerivative(d, t, 1) + 4 * c.evaluateLinearAcceleration(a, t));
      put(r, v.getPosition().vector());
      r.push_back(num(v.getRotation().w())); r.push_back(num(v.getRotation().x())); r.push_back(num(v.getRotation().y())); r.push_back(num(v.getRotation().z()));
      put(r, d.getTranslationalVelocity().vector()); put(r, d.getRotationalVelocity().vector()); put(r, a.vector());
    }
  }
};
// the same curve extended through a sampling policy of its own
struct SE3X : SE3 {
  curves::SamplingPolicy p{3, 2.0};
  void fit(const std::string& o, const json& d) {
    SE3::fit(o, d);
    p.setLastExtendTime(d["ts"].back().get<double>());
    p.setMeasurementsSinceLastExtend_(0);
  }
  void ext(double t, const json& v) { p.extend<T, Pose>(Vd{t}, std::vector<Pose>{pose(v)}, &c, nullptr); }
  void clear() { SE3::clear(); p = curves::SamplingPolicy(3, 2.0); }
};

#ifdef PROBE
struct Probe {};
static std::vector<std::pair<double, Pose>> gProbe;
namespace curves {
template <>
inline Key SamplingPolicy::defaultExtend<SlerpSE3Curve, Probe>(const Time&, const Probe&, SlerpSE3Curve* c) {
  gProbe.clear();
  for (auto it = c->manager_.coefficientBegin(); it != c->manager_.coefficientEnd(); ++it) gProbe.push_back({it->first, it->second.coefficient});
  return 0;
}
}  // namespace curves
#endif
struct SlerpT : curves::SlerpSE3Curve {
  using curves::SlerpSE3Curve::evaluate;
  using curves::SlerpSE3Curve::evaluateDerivative;
  virtual bool evaluate(ValueType&, curves::Time) const { return false; }
  virtual bool evaluateDerivative(DerivativeType&, curves::Time, unsigned) const { return false; }
};
struct Slerp {
  typedef SlerpT T;
  T c;
  void fit(const std::string&, const json& d) { c.fitCurve(d["ts"].get<Vd>(), poses(d)); }
  void ext(double t, const json& v) { c.extend(Vd{t}, std::vector<Pose>{pose(v)}, nullptr); }
  void cfg(int r) { c.setSamplingRatio(r); }
  void clear() { c.clear(); }
  void obs(const Vd&, json& r) {
    r.push_back(c.size());
    r.push_back(int(c.isEmpty()));
    if (!c.isEmpty()) { r.push_back(num(c.getMinTime())); r.push_back(num(c.getMaxTime())); }
    Vd t;
    c.getCurveTimes(&t);
    for (double x : t) r.push_back(num(x));
#ifdef PROBE
    curves::SamplingPolicy().defaultExtend<curves::SlerpSE3Curve, Probe>(0, Probe(), &c);
    for (auto& x : gProbe) { put(r, x.second.getPosition().vector()); r.push_back(num(x.second.getRotation().w())); r.push_back(num(x.second.getRotation().z())); }
#endif
  }
};

struct Scalar {
  typedef curves::PolynomialSplineQuinticScalarCurve T;
  T c;
  void fit(const std::string& o, const json& d) {
    Vd t = d["ts"], p;
    for (auto& x : d["vs"]) p.push_back(x[0]);
    if (o == "badn") { t.pop_back(); t.push_back(t[0]); p.pop_back(); p.push_back(p[0]); }
    if (o == "bad1") { t.resize(1); p.resize(1); }
    if (o == "fit" || o[0] == 'b') static_cast<curves::Curve<curves::ScalarCurveConfig>&>(c).fitCurve(t, p);
    else if (o == "fitb") c.fitCurve(t, p, d["b"][0][0].get<double>(), d["b"][0][1].get<double>(), d["b"][1][0].get<double>(), d["b"][1][1].get<double>());
    else {
      std::vector<curves::SplineOptions> l;
      for (size_t i = 0; i + 1 < t.size(); ++i) l.push_back(curves::SplineOptions(t[i + 1] - t[i], p[i], p[i + 1], d["b"][0][i % 3].get<double>(), d["b"][1][i % 3].get<double>(), 0.5, -1.0));
      c.fitCurve(l);
    }
  }
  void ext(double, const json&) {}
  void cfg(int) {}
  void clear() { c.clear(); }
  void obs(const Vd& ts, json& r) {
    r.push_back(num(c.getMinTime()));
    r.push_back(num(c.getMaxTime()));
    for (double t : ts) {
      double v = 9, d1 = 9, d2 = 9;
      r.push_back(c.evaluate(v, t) + 2 * c.evaluateDerivative(d1, t, 1) + 4 * c.evaluateDerivative(d2, t, 2));
      r.push_back(num(v)); r.push_back(num(d1)); r.push_back(num(d2));
    }
  }
};
struct Vector {
  typedef curves::PolynomialSplineQuinticVector3Curve T;
  T c;
  void fit(const std::string& o, const json& d) {
    Vd t = d["ts"];
    std::vector<T::ValueType> p;
    for (auto& x : d["vs"]) p.push_back(vec(x));
    if (o == "badn") { t.pop_back(); t.push_back(t[0]); p.pop_back(); p.push_back(p[0]); }
    if (o == "bad1") { t.resize(1); p.resize(1); }
    typedef T::DerivativeType D;
    D v0 = vec(d["b"][0]), v1 = vec(d["b"][1]);
    if (o == "fit" || o[0] == 'b') static_cast<T::Parent&>(c).fitCurve(t, p);
    else if (o == "fitb") c.fitCurve(t, p, v0, D(2 * v1), v1, D(2 * v0));
    else {
      std::vector<D> d1(t.size(), v0), d2(t.size(), v1);
      d1.back() = v1;
      d2.back() = D(V(1, 2, 3));
      c.fitCurve(t, p, d1, d2);
    }
  }
  void ext(double, const json&) {}
  void cfg(int) {}
  void clear() { c.clear(); }
  void obs(const Vd& ts, json& r) {
    r.push_back(num(c.getMinTime()));
    r.push_back(num(c.getMaxTime()));
    for (double t : ts) {
      T::ValueType v, d1, d2;
      v.setConstant(9); d1 = v; d2 = v;
      r.push_back(c.evaluate(v, t) + 2 * c.evaluateDerivative(d1, t, 1) + 4 * c.evaluateDerivative(d2, t, 2));
      put(r, v); put(r, d1); put(r, d2);
    }
  }
};

template <class W>
struct World {
  std::vector<std::unique_ptr<W>> s;
  const json& data;
  const json& ev;
  Vd ts;
  double sc, off;
  World(const json& c) : data(c["data"]), ev(c["ev"]), ts(c["ts"].get<Vd>()), sc(c["sc"]), off(c["off"]) {}
  void one(std::unique_ptr<W>& w, const json& op) {
    std::string o = op["o"];
    int d = op["d"];
    if (o == "clr") w->clear();
    else if (o == "ext") w->ext(op["t"].get<double>() * sc + off, ev[d - 1]);
    else if (o == "cfg") w->cfg(d);
    else w->fit(o, data[o[0] == 'b' ? 0 : d - 1]);
  }
  void apply(const json& op) {
    std::string o = op["o"];
    auto& w = s[op["i"].get<int>() - 1];
    auto& v = s[op["j"].get<int>() - 1];
    if (o == "new") w.reset(new W);
    else if (o == "cpa") *w = *v;
    else if (o == "cpc") w.reset(new W(*v));
    else if (o == "swp") std::swap(*w, *v);
    else if (o == "look") { json r = json::array(); w->obs(ts, r); w->obs(ts, r); }
    else if (o == "vec") {
      std::vector<W> x;
      for (int k = 0; k < 3; ++k) { x.push_back(*w); x.front().clear(); x.insert(x.begin(), *w); }
      w.reset(new W(x.front()));
    } else one(w, op);
  }
};
template <class W>
json history(const json& c) {
  World<W> w(c);
  int n = c["n"];
  for (int i = 0; i < n; ++i) w.s.emplace_back(new W);
  // reading an object, at a few times, between the steps
  std::vector<Vd> peek;
  for (auto& x : c["peek"]) peek.push_back(x.get<Vd>());
  size_t k = 0;
  for (auto& op : c["h"]) {
    w.apply(op);
    if (!peek.empty()) {
      const Vd& ts = peek[k++ % peek.size()];
      for (auto& s : w.s) { json r = json::array(); s->obs(ts, r); }
    }
  }
  json r = json::array();
  for (int i = 0; i < n; ++i) {
    auto& rec = c["s"][i];
    if (!rec["b"].empty() && rec["b"][0]["o"].get<std::string>()[0] == 'b') continue;   // a rejected fit: nothing is promised
    json a = json::array(), b = json::array();
    w.s[i]->obs(w.ts, a);
    std::unique_ptr<W> f(new W);
    if (rec["c"].get<int>() > 0) f->cfg(rec["c"]);
    for (auto& op : rec["b"]) w.one(f, op);
    f->obs(w.ts, b);
    r.push_back({{"i", i + 1}, {"used", a}, {"new", b}});
  }
  return {{"slots", r}};
}

int main() {
  return rp::loop([](const json& c) -> json {
    std::string k = c["k"];
    if (k == "e3") return history<E3>(c);
    if (k == "se3") return history<SE3>(c);
    if (k == "se3x") return history<SE3X>(c);
    if (k == "slerp") return history<Slerp>(c);
    if (k == "scalar") return history<Scalar>(c);
    return history<Vector>(c);
  });
}
