// Replays histories of Hermite pose curves.
#include <algorithm>
#include <memory>
#include <curves/CubicHermiteSE3Curve.hpp>
#include "rp.hpp"
using rp::json;
using rp::num;
typedef curves::CubicHermiteSE3Curve C;
typedef Eigen::Vector3d V;
typedef C::ValueType Pose;
typedef C::DerivativeType Tw;

static V vec(const json& j, int o = 0) { return V(j[o].get<double>(), j[o + 1].get<double>(), j[o + 2].get<double>()); }
static Pose pose(const json& j) {
  return Pose(Pose::Position(vec(j)), Pose::Rotation(j[3].get<double>(), j[4].get<double>(), j[5].get<double>(), j[6].get<double>()));
}
static json out(const V& v) { return {num(v.x()), num(v.y()), num(v.z())}; }

static void spoil(C& c) {
  Pose a, b(Pose::Position(1, 2, 3), Pose::Rotation(0, 1, 0, 0));
  c.fitCurve({-1000.0, 1e6}, {a, b});
}
// op: o, ts, Ps (lists of 7), e0, e1 (6 numbers)
static void apply(std::unique_ptr<C>& c, const json& op) {
  std::string o = op["o"];
  std::vector<double> t = op["ts"];
  std::vector<Pose> p;
  for (auto& x : op["Ps"]) p.push_back(pose(x));
  std::vector<curves::Key> ks;
  if (o == "fit") c->fitCurve(t, p, &ks);
  else if (o == "fitd") c->fitCurveWithDerivatives(t, p, Tw(vec(op["e0"]), vec(op["e0"], 3)), Tw(vec(op["e1"]), vec(op["e1"], 3)), &ks);
  else if (o == "per") c->fitPeriodicCurve(t, p, &ks);
  else if (o == "clr") c->clear();
  else if (o == "copy") {
    std::unique_ptr<C> q(new C(*c));
    spoil(*c);
    c->clear();
    c = std::move(q);
  } else if (o == "assign") {
    std::unique_ptr<C> q(new C);
    spoil(*q);
    *q = *c;
    *q = *q;
    spoil(*c);
    c = std::move(q);
  } else if (o == "branch") {
    C q(*c), r;
    spoil(r);
    r = *c;
    spoil(q);
    r.clear();
  } else throw std::runtime_error("unknown op " + o);
}

int main() {
  return rp::loop([](const json& c) -> json {
    std::unique_ptr<C> p(new C);
    json r;
    for (auto& op : c["h"]) apply(p, op);
    C& q = *p;
    r["size"] = q.size();
    r["empty"] = int(q.isEmpty());
    std::vector<double> ct;
    q.getCurveTimes(&ct);
    r["times"] = ct;
    if (!q.isEmpty()) { r["min"] = num(q.getMinTime()); r["max"] = num(q.getMaxTime()); }
    r["at"] = json::array();
    auto get = [&](double t) -> json {
      Pose v(Pose::Position(V(99, 98, 97)), Pose::Rotation(1, 2, 3, 4));
      Tw d, x;
      kindr::Acceleration3D a(V(99, 98, 97));
      int f0 = q.evaluate(v, t), f1 = q.evaluateDerivative(d, t, 1), f2 = q.evaluateLinearAcceleration(a, t);
      int b = q.evaluateDerivative(x, t, 0) + q.evaluateDerivative(x, t, 3) + q.evaluateDerivative(x, t, 9) + q.evaluateDerivative(x, t, 2);
      return {{f0, f1, f2, b}, out(v.getPosition().vector()),
              {num(v.getRotation().w()), num(v.getRotation().x()), num(v.getRotation().y()), num(v.getRotation().z())},
              out(d.getTranslationalVelocity().vector()), out(d.getRotationalVelocity().vector()), out(a.vector())};
    };
    for (double t : c["ts"].get<std::vector<double>>()) r["at"].push_back(get(t));
    r["edge"] = json::array();
    if (!q.isEmpty())
      for (double t : rp::edges(q.getMinTime(), q.getMaxTime())) r["edge"].push_back(get(t));
    return r;
  });
}
