// Replays histories of extensions of Slerp and Hermite pose curves.
#include <map>
#include <memory>
#include <Eigen/Geometry>
#include <curves/CubicHermiteSE3Curve.hpp>
#include <curves/SlerpSE3Curve.hpp>
#include "rp.hpp"
using rp::json;
using rp::num;
typedef curves::SE3Curve::ValueType Pose;
typedef curves::SE3Curve::DerivativeType Tw;
typedef Eigen::Vector3d V;

// a measurement v: translation v * (1, 2, -1) and a rotation by v / 100 about
// an axis that is neither the same in the body nor in the world as before the
// constant turns L and R; odd measurements carry the other of the two
// quaternions of their rotation
typedef Eigen::Quaterniond Q;
static const Q L(Q(0.8, 0.3, -0.4, 0.2).normalized()), R(Q(-0.1, 0.7, 0.5, 0.4).normalized());
static Q turn(double v) { return L * Q(std::cos(v / 200), 0, 0, std::sin(v / 200)) * R; }
static Pose enc(double v) {
  const Q q = turn(v);
  const double s = int(v) % 2 ? -1 : 1;
  return Pose(Pose::Position(V(v, 2 * v, -v)), Pose::Rotation(s * q.w(), s * q.x(), s * q.y(), s * q.z()));
}
static json dec(const Pose& p) {
  double v = p.getPosition().x();
  double err = std::abs(p.getPosition().y() - 2 * v) + std::abs(p.getPosition().z() + v);
  const Q q = turn(v);
  const Eigen::Vector4d g(p.getRotation().w(), p.getRotation().x(), p.getRotation().y(), p.getRotation().z()), w(q.w(), q.x(), q.y(), q.z());
  err += std::min((g - w).norm(), (g + w).norm());
  if (!(err < 1e-9)) return -999;
  return num(v);
}

#ifdef PROBE
// the coefficients of a Slerp curve; the policy is a friend of the curve
struct Probe { std::vector<std::tuple<double, Pose, curves::Key>> r; };
static Probe gProbe;
namespace curves {
template <>
inline Key SamplingPolicy::defaultExtend<SlerpSE3Curve, Probe>(const Time&, const Probe&, SlerpSE3Curve* c) {
  gProbe.r.clear();
  for (auto it = c->manager_.coefficientBegin(); it != c->manager_.coefficientEnd(); ++it)
    gProbe.r.push_back(std::make_tuple(it->first, it->second.coefficient, it->second.key));
  return 0;
}
}  // namespace curves
#endif

struct Slerp : curves::SlerpSE3Curve {
  using curves::SlerpSE3Curve::evaluate;
  using curves::SlerpSE3Curve::evaluateDerivative;
  virtual bool evaluate(ValueType&, curves::Time) const { return false; }
  virtual bool evaluateDerivative(DerivativeType&, curves::Time, unsigned) const { return false; }
};

static std::vector<Pose> poses(const json& vs) {
  std::vector<Pose> r;
  for (double v : vs.get<std::vector<double>>()) r.push_back(enc(v));
  return r;
}

struct SlerpWorld {
  std::unique_ptr<Slerp> c{new Slerp};
  std::vector<curves::Key> out;
  std::map<curves::Key, int> ids;
  int id(curves::Key k) {
    auto it = ids.find(k);
    if (it != ids.end()) return it->second;
    int n = int(ids.size()) + 1;
    ids[k] = n;
    return n;
  }
  double sc = 1, off = 0;
  std::vector<double> ts(const json& j) const {
    std::vector<double> r = j;
    for (double& x : r) x = x * sc + off;
    return r;
  }
  double back(double t) const { return (t - off) / sc; }
  void apply(const json& op) {
    std::string o = op["o"];
    out.clear();
    if (o == "one" || o == "many") c->extend(ts(op["ts"]), poses(op["vs"]), &out);
    else if (o == "one0") c->extend(ts(op["ts"]), poses(op["vs"]));
    else if (o == "set") c->setCurve(ts(op["ts"]), poses(op["vs"]));
    else if (o == "fit") c->fitCurve(ts(op["ts"]), poses(op["vs"]), &out);
    else if (o == "ratio" || o == "ratio0") c->setSamplingRatio(op["r"].get<int>());
    else if (o == "clr") c->clear();
    else if (o == "copy") {
      std::unique_ptr<Slerp> q(new Slerp(*c));
      c->fitCurve({-5.0, 100.0}, {enc(1), enc(2)});
      c->clear();
      c = std::move(q);
    } else if (o == "assign") {
      std::unique_ptr<Slerp> q(new Slerp);
      q->fitCurve({-5.0, 100.0}, {enc(1), enc(2)});
      *q = *c;
      *q = *q;
      c->clear();
      c = std::move(q);
    } else if (o == "branch") {
      Slerp q(*c), r;
      r.fitCurve({-5.0, 100.0}, {enc(1), enc(2)});
      r = *c;
      q.fitCurve({-5.0, 100.0}, {enc(1), enc(2)});
      r.clear();
    } else throw std::runtime_error("unknown op " + o);
  }
  // numbers the keys in the order in which the operation created them
  void track(const json& op) {
#ifdef PROBE
    curves::SamplingPolicy().defaultExtend<curves::SlerpSE3Curve, Probe>(0, Probe(), c.get());
    for (double t : ts(op.at("ts")))
      for (auto& x : gProbe.r) if (std::get<0>(x) == t) id(std::get<2>(x));
#endif
  }
  json obs() {
    json r;
    r["n"] = c->size();
    r["empty"] = int(c->isEmpty());
    if (!c->isEmpty()) { r["min"] = num(back(c->getMinTime())); r["max"] = num(back(c->getMaxTime())); }
    std::vector<double> t;
    c->getCurveTimes(&t);
    json times = json::array();
    for (double x : t) times.push_back(num(back(x)));
    r["times"] = times;
    r["M"] = json::array();
#ifdef PROBE
    curves::SamplingPolicy().defaultExtend<curves::SlerpSE3Curve, Probe>(0, Probe(), c.get());
    for (auto& x : gProbe.r) r["M"].push_back({{"t", num(back(std::get<0>(x)))}, {"v", dec(std::get<1>(x))}, {"k", id(std::get<2>(x))}});
#endif
    r["out"] = json::array();
    for (auto k : out) r["out"].push_back(id(k));
    return r;
  }
};

struct HermiteWorld {
  std::unique_ptr<curves::CubicHermiteSE3Curve> c{new curves::CubicHermiteSE3Curve};
  curves::SamplingPolicy p;
  double sc = 1, off = 0;
  void track(const json&) {}
  std::vector<double> ts(const json& j) const {
    std::vector<double> r = j;
    for (double& x : r) x = x * sc + off;
    return r;
  }
  double back(double t) const { return (t - off) / sc; }
  void apply(const json& op) {
    std::string o = op["o"];
    std::vector<curves::Key> out;
    if (o == "ext") p.extend<curves::CubicHermiteSE3Curve, Pose>(ts(op["ts"]), poses(op["vs"]), c.get(), &out);
    else if (o == "ratio0") { p = op["r"] == 1 ? curves::SamplingPolicy() : curves::SamplingPolicy(op["r"].get<int>(), 0.0); }
    else if (o == "min") p.setMinimumMeasurements(op["r"].get<int>());
    else if (o == "per") p.setMinSamplingPeriod(op["r"].get<double>() * sc);
    else if (o == "fit") {
      c->fitCurve(ts(op["ts"]), poses(op["vs"]), &out);
      p.setLastExtendTime(ts(op["ts"]).back());
      p.setMeasurementsSinceLastExtend_(0);
    } else if (o == "clr") c->clear();
    else if (o == "copy") {
      std::unique_ptr<curves::CubicHermiteSE3Curve> q(new curves::CubicHermiteSE3Curve(*c));
      c->fitCurve({-5.0, 100.0}, {enc(1), enc(2)});
      c->clear();
      c = std::move(q);
    } else throw std::runtime_error("unknown op " + o);
  }
  json obs() {
    json r;
    r["n"] = c->size();
    r["empty"] = int(c->isEmpty());
    if (!c->isEmpty()) { r["min"] = num(back(c->getMinTime())); r["max"] = num(back(c->getMaxTime())); }
    std::vector<double> t;
    c->getCurveTimes(&t);
    r["M"] = json::array();
    for (double x : t) {
      Pose v;
      Tw d;
      int f = c->evaluate(v, x) + 2 * c->evaluateDerivative(d, x, 1);
      const V l = d.getTranslationalVelocity().vector() * sc, w = L.conjugate() * V(d.getRotationalVelocity().vector() * sc);
      r["M"].push_back({{"t", num(back(x))}, {"f", f}, {"v", dec(v)}, {"l", {num(l.x()), num(l.y()), num(l.z())}}, {"w", {num(w.x()), num(w.y()), num(w.z())}}});
    }
    return r;
  }
};

template <class W>
json history(const json& c) {
  W w;
  w.sc = rp::unit(c.value("s", 0));
  w.off = c.value("off", 0.0);
  json all = json::array();
  bool every = c.value("every", 0);
  for (auto& op : c["h"]) {
    w.apply(op);
    w.track(op);
    if (every) all.push_back(w.obs());
  }
  if (every) return {{"all", all}};
  json r = w.obs();
  if (c.count("bad")) {
    r["bad"] = json::array();
    for (auto& op : c["bad"]) r["bad"].push_back(rp::guarded([&]() { w.apply(op); }));
  }
  return r;
}

int main() {
  return rp::loop([](const json& c) -> json { return c["k"] == "slerp" ? history<SlerpWorld>(c) : history<HermiteWorld>(c); });
}
