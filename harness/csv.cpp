// Replays writes and loads of CSV files in the working directory (a scratch folder).
#include <cstdint>
#include <cstring>
#include <fstream>
#include <curves/CubicHermiteE3Curve.hpp>
#include <curves/CubicHermiteSE3Curve.hpp>
#include <curves/helpers.hpp>
#include "rp.hpp"
using rp::json;
using rp::num;
typedef std::vector<std::vector<std::string>> Tab;
typedef Eigen::Vector3d V;
typedef curves::CubicHermiteSE3Curve H;
typedef H::ValueType Pose;
typedef H::DerivativeType Tw;

static std::string bits(double x) { uint64_t u; memcpy(&u, &x, 8); return std::to_string(u); }
static std::string name(const json& op) { return "f" + std::to_string(op["f"].get<int>()) + ".csv"; }
static json list(const std::vector<double>& v) { json r = json::array(); for (double x : v) r.push_back(bits(x)); return r; }
static json lists(const std::vector<Eigen::VectorXd>& v) {
  json r = json::array();
  for (auto& x : v) { json q = json::array(); for (int i = 0; i < x.size(); ++i) q.push_back(bits(x[i])); r.push_back(q); }
  return r;
}
static V vec(const json& j, int o = 0) { return V(j[o].get<double>(), j[o + 1].get<double>(), j[o + 2].get<double>()); }
static Pose pose(const json& j) { return Pose(Pose::Position(vec(j)), Pose::Rotation(j[3].get<double>(), j[4].get<double>(), j[5].get<double>(), j[6].get<double>())); }
static void fit(H& c, const json& op) {
  std::vector<Pose> p;
  for (auto& x : op["Ps"]) p.push_back(pose(x));
  c.fitCurve(op["ts"].get<std::vector<double>>(), p);
}
static std::vector<double> row(const H& c, double t) {
  Pose v;
  c.evaluate(v, t);
  return {t, v.getPosition().x(), v.getPosition().y(), v.getPosition().z(), v.getRotation().w(), v.getRotation().x(), v.getRotation().y(), v.getRotation().z()};
}

static json apply(const json& op) {
  std::string o = op["o"];
  if (o == "wtab") { curves::writeCSV(name(op), op["t"].get<Tab>()); return nullptr; }
  if (o == "wnum") {
    std::vector<double> ts;
    std::vector<Eigen::VectorXd> vs;
    for (auto& r : op["t"]) {
      ts.push_back(r[0]);
      Eigen::VectorXd v(r.size() - 1);
      for (size_t i = 1; i < r.size(); ++i) v[i - 1] = r[i].get<double>();
      vs.push_back(v);
    }
    curves::writeTimeVectorCSV(name(op), ts, vs);
    return nullptr;
  }
  if (o == "wvec") {      // times and vectors that do not fit together
    std::vector<double> ts = op["ts"];
    std::vector<Eigen::VectorXd> vs;
    for (auto& r : op["vs"]) vs.push_back(Eigen::VectorXd::Ones(r.size()));
    curves::writeTimeVectorCSV(name(op), ts, vs);
    return nullptr;
  }
  if (o == "load") {
    Tab t = curves::loadCSV(name(op));
    if (!op.value("num", 0)) return {{"rows", t}};
    json r = json::array();
    for (auto& x : t) { json q = json::array(); for (auto& s : x) q.push_back(bits(atof(s.c_str()))); r.push_back(q); }
    return {{"rows", r}};
  }
  if (o == "load1") {
    std::vector<double> ts(3, 7.0);
    std::vector<Eigen::VectorXd> vs(2, Eigen::VectorXd::Ones(5));
    curves::loadTimeVectorCSV(name(op), &ts, &vs);
    return {{"t1", list(ts)}, {"v", lists(vs)}};
  }
  if (o == "load2") {
    std::vector<double> ts(3, 7.0), t2(1, 6.0);
    std::vector<Eigen::VectorXd> vs(2, Eigen::VectorXd::Ones(5));
    curves::loadTimeTimeVectorCSV(name(op), &ts, &t2, &vs);
    return {{"t1", list(ts)}, {"t2", list(t2)}, {"v", lists(vs)}};
  }
  if (o == "save") {      // a pose curve, at given times or at its knots
    H c;
    fit(c, op);
    std::vector<double> at;
    if (op.count("at")) { at = op["at"].get<std::vector<double>>(); c.saveCurveAtTimes(name(op), at); }
    else { c.getCurveTimes(&at); c.saveCurveTimesAndValues(name(op)); }
    json r = json::array();
    for (double t : at) r.push_back(list(row(c, t)));
    return {{"rows", r}};
  }
  if (o == "eval") {      // samples of a pose or position curve as text
    json r = json::array();
    int n = op["n"];
    std::string f = name(op);
    double t0, t1;
    json want = json::array();
    if (op["c"] == "se3") {
      H c;
      fit(c, op);
      if (!c.writeEvalToFile(f, n)) return {{"fail", 1}};
      if (c.writeEvalToFile(f + ".none/x", n)) return {{"fail", 2}};   // no such folder
      t0 = c.getMinTime(); t1 = c.getMaxTime();
      for (int i = 0; i < n; ++i) {
        double t = i + 1 == n ? t1 : t0 + (t1 - t0) / (n - 1) * i;
        std::vector<double> x = row(c, t);
        Tw d;
        c.evaluateDerivative(d, t, 1);
        for (int k = 0; k < 3; ++k) x.push_back(d.getTranslationalVelocity().vector()(k));
        for (int k = 0; k < 3; ++k) x.push_back(d.getRotationalVelocity().vector()(k));
        want.push_back(x);
      }
    } else {
      curves::CubicHermiteE3Curve c;
      std::vector<V> p;
      for (auto& x : op["Ps"]) p.push_back(vec(x));
      c.fitCurve(op["ts"].get<std::vector<double>>(), p);
      if (!c.writeEvalToFile(f, n)) return {{"fail", 1}};
      if (c.writeEvalToFile(f + ".none/x", n)) return {{"fail", 2}};   // no such folder
      t0 = c.getMinTime(); t1 = c.getMaxTime();
      for (int i = 0; i < n; ++i) {
        double t = i + 1 == n ? t1 : t0 + (t1 - t0) / (n - 1) * i;
        V a, b;
        c.evaluate(a, t);
        c.evaluateDerivative(b, t, 1);
        want.push_back({t, a.x(), a.y(), a.z(), b.x(), b.y(), b.z()});
      }
    }
    std::ifstream in(f);
    std::string line;
    while (std::getline(in, line)) r.push_back(line);
    return {{"lines", r}, {"want", want}};
  }
  throw std::runtime_error("unknown op " + o);
}

int main() {
  return rp::loop([](const json& c) -> json {
    json all = json::array();
    for (auto& op : c["h"]) all.push_back(apply(op));
    json r = {{"all", all}};
    if (c.count("bad")) {
      r["bad"] = json::array();
      for (auto& op : c["bad"]) r["bad"].push_back(rp::guarded([&]() { apply(op); }));
      for (int f = 1; f < 10; ++f) std::remove(name({{"f", f}}).c_str());
    }
    return r;
  });
}
