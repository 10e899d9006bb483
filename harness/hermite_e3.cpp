// Replays histories of Hermite position curves.
#include <memory>
#include <curves/CubicHermiteE3Curve.hpp>
#include "rp.hpp"
using rp::json;
using rp::num;
typedef curves::CubicHermiteE3Curve C;
typedef Eigen::Vector3d V;

struct Scale {
  double S, W, off;
  double t(double k) const { return k * S + off; }
  double ut(double x) const { return (x - off) / S; }
};
static V vec(const json& j) { return V(j[0].get<double>(), j[1].get<double>(), j[2].get<double>()); }
static json out(const V& v, double f) { return {num(v.x() * f), num(v.y() * f), num(v.z() * f)}; }

// op: o, ts, ps (list of triples), v0, v1 (triples)
static void apply(std::unique_ptr<C>& c, const json& op, const Scale& z, json& keys) {
  std::string o = op["o"];
  std::vector<double> t;
  std::vector<C::ValueType> p;
  for (double k : op["ts"].get<std::vector<double>>()) t.push_back(z.t(k));
  for (auto& x : op["ps"]) p.push_back(vec(x) * z.W);
  std::vector<curves::Key> ks;
  const double u = z.W / z.S;
  if (o == "fit") c->fitCurve(t, p, &ks);
  else if (o == "fitd") c->fitCurveWithDerivatives(t, p, vec(op["v0"]) * u, vec(op["v1"]) * u, &ks);
  else if (o == "fitn") c->fitCurveWithDerivatives(t, p);
  else if (o == "per") c->fitPeriodicCurve(t, p, &ks);
  else if (o == "clr") c->clear();
  else if (o == "copy") {          // continue with a copy, then spoil the original
    std::unique_ptr<C> q(new C(*c));
    c->fitCurve({-1000.0, 1e6}, {V(3, 1, 4), V(1, 5, 9)});
    c->clear();
    c = std::move(q);
  } else if (o == "assign") {      // the same by assignment over a non-empty curve
    std::unique_ptr<C> q(new C);
    q->fitCurve({-7.0, 3.0, 11.0}, {V(3, 1, 4), V(1, 5, 9), V(0, 0, 1)});
    *q = *c;
    *q = *q;
    c->fitCurve({-1000.0, 1e6}, {V(3, 1, 4), V(1, 5, 9)});
    c = std::move(q);
  } else if (o == "branch") {      // spoil a copy, continue with the original
    C q(*c), r;
    r.fitCurve({-7.0, 3.0}, {V(3, 1, 4), V(1, 5, 9)});
    r = *c;
    q.fitCurve({-1000.0, 1e6}, {V(3, 1, 4), V(1, 5, 9)});
    r.clear();
  } else throw std::runtime_error("unknown op " + o);
  std::vector<curves::Key> s = ks;
  std::sort(s.begin(), s.end());
  bool uniq = std::adjacent_find(s.begin(), s.end()) == s.end();
  keys.push_back({int(ks.size()), int(uniq)});
}

int main() {
  return rp::loop([](const json& c) -> json {
    Scale z{rp::unit(c["s"].get<int>()), rp::unit(c["w"].get<int>()), 0};
    if (c.count("off") && c["off"] != 0) {
      z.S = std::ldexp(1.0, c["s"].get<int>());
      z.off = c["off"].get<double>() * z.S;
    }
    std::unique_ptr<C> p(new C);
    json r;
    r["keys"] = json::array();
    for (auto& op : c["h"]) apply(p, op, z, r["keys"]);
    const C& q = *p;
    r["size"] = q.size();
    r["empty"] = int(q.isEmpty());
    if (!q.isEmpty()) { r["min"] = num(z.ut(q.getMinTime())); r["max"] = num(z.ut(q.getMaxTime())); }
    r["at"] = json::array();
    auto get = [&](double t) -> json {
      V v(99, 98, 97), d1 = v, d2 = v, la = v, x = v;
      int f0 = q.evaluate(v, t), f1 = q.evaluateDerivative(d1, t, 1), f2 = q.evaluateDerivative(d2, t, 2), f3 = q.evaluateLinearAcceleration(la, t);
      int b0 = q.evaluateDerivative(x, t, 0), b3 = q.evaluateDerivative(x, t, 3), b9 = q.evaluateDerivative(x, t, 9);
      double uv = z.S / z.W, ua = z.S * z.S / z.W;
      return {{f0, f1, f2, f3, b0 + b3 + b9}, {out(v, 1 / z.W), out(d1, uv), out(d2, ua), out(la, ua)}};
    };
    for (double k : c["ts"].get<std::vector<double>>()) r["at"].push_back(get(z.t(k)));
    r["edge"] = json::array();
    if (!q.isEmpty())
      for (double t : rp::edges(q.getMinTime(), q.getMaxTime())) r["edge"].push_back(get(t));
    return r;
  });
}
