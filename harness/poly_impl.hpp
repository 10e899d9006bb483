#pragma once
// Replays histories of splines and spline containers. Model integers are
// mapped to reals by powers of two: time k -> k*2^s, value p -> p*2^w, so that
// results can be mapped back exactly.
#include <Eigen/Core>
#include <memory>
#include <curves/polynomial_splines.hpp>
#include <curves/polynomial_splines_containers.hpp>
#include "rp.hpp"
using rp::json;
using rp::num;

struct Scale {
  double S, W;
  double t(double k) const { return k * S; }
  double p(double v) const { return v * W; }
  double v(double x) const { return x * W / S; }
  double a(double x) const { return x * W / S / S; }
  double ut(double x) const { return x / S; }
  double up(double x) const { return x / W; }
  double uv(double x) const { return x / W * S; }
  double ua(double x) const { return x / W * S * S; }
};
static Scale scale(const json& c) { return Scale{rp::unit(c["s"].get<int>()), rp::unit(c["w"].get<int>())}; }

template <int n>
typename curves::PolynomialSpline<n>::SplineCoefficients coefs(const json& c, const Scale& z) {
  typename curves::PolynomialSpline<n>::SplineCoefficients r;
  for (int j = 0; j <= n; ++j) {
    double f = z.W;
    for (int i = 0; i < n - j; ++i) f /= z.S;
    r[j] = c[j].get<double>() * f;
  }
  return r;
}
static curves::SplineOptions options(const json& b, const Scale& z) {
  return curves::SplineOptions(z.t(b["T"]), z.p(b["p0"]), z.p(b["pT"]), z.v(b["v0"]), z.v(b["vT"]), z.a(b["a0"]), z.a(b["aT"]));
}

template <int n>
json spline(const json& c) {
  typedef curves::PolynomialSpline<n> Sp;
  Scale z = scale(c);
  std::unique_ptr<Sp> s(new Sp);
  json r;
  r["ok"] = 1;
  for (auto& op : c["h"]) {
    std::string o = op["o"];
    if (o == "ctor") {
      auto k = coefs<n>(op["c"], z);
      s.reset(new Sp(k, z.t(op["d"])));
    } else if (o == "set") {
      s->setCoefficientsAndDuration(coefs<n>(op["c"], z), z.t(op["d"]));
    } else if (o == "ptr") {
      *s->getCoefficientsPtr() = coefs<n>(op["c"], z);
    } else if (o == "bctor") {
      curves::SplineOptions b = options(op["b"], z);
      s.reset(new Sp(b));
    } else if (o == "bmove") {
      s.reset(new Sp(options(op["b"], z)));
    } else if (o == "comp") {
      curves::SplineOptions b = options(op["b"], z);
      if (!s->computeCoefficients(b)) r["ok"] = 0;
    } else if (o == "copy") {
      std::unique_ptr<Sp> t(new Sp(*s));
      s->setCoefficientsAndDuration(typename Sp::SplineCoefficients(), 1.0);
      s = std::move(t);
    } else if (o == "assign") {
      std::unique_ptr<Sp> t(new Sp);
      *t = *s;
      s->setCoefficientsAndDuration(typename Sp::SplineCoefficients(), 1.0);
      s = std::move(t);
    } else if (o == "move") {
      Sp t(std::move(*s));
      *s = std::move(t);
    } else {
      r["ok"] = -1;
    }
  }
  const Sp& q = *s;
  r["d"] = num(z.ut(q.getSplineDuration()));
  r["at"] = json::array();
  for (double k : c["ts"].get<std::vector<double>>()) {
    double t = z.t(k);
    r["at"].push_back({num(z.up(q.getPositionAtTime(t))), num(z.uv(q.getVelocityAtTime(t))), num(z.ua(q.getAccelerationAtTime(t)))});
  }
  r["far"] = json::array();
  for (int side = 0; side < 2; ++side) {
    json f = json::array();
    for (double t : rp::far(side == 1, z.t(1)))
      f.push_back({num(z.up(q.getPositionAtTime(t))), num(z.uv(q.getVelocityAtTime(t))), num(z.ua(q.getAccelerationAtTime(t)))});
    r["far"].push_back(f);
  }
  return r;
}

template <int n>
json timevec(const json& c) {
  typedef curves::PolynomialSpline<n> Sp;
  typedef typename Sp::EigenTimeVectorType TV;
  double S = rp::unit(c["s"].get<int>());
  double t = c["t"].get<double>() * S, base = c["base"].get<double>();
  json r;
  // unit of the j-th entry: S^(n-j-der)
  auto un = [&](const TV& v, int der, const TV& b) {
    json o = json::array();
    for (int j = 0; j <= n; ++j) {
      double x = v(j) - b(j);
      o.push_back(num(x * std::pow(S, -(n - j - der)) ));
    }
    return o;
  };
  TV zero = TV::Zero(), b;
  for (int j = 0; j <= n; ++j) b(j) = base * (j + 1);
  json alt = json::array();  // other ways to get the same vectors, 0/1
  TV v;
  Eigen::MatrixXd A;
#define GET(name, der, f, ...)                                                     \
  {                                                                                \
    v.setConstant(77);                                                             \
    Sp::f(v, ##__VA_ARGS__);                                                       \
    r[name] = un(v, der, zero);                                                    \
    A.setConstant(3, n + 3, 55);                                                   \
    Sp::f(A.template block<1, n + 1>(1, 1), ##__VA_ARGS__);                        \
    alt.push_back((A.block(1, 1, 1, n + 1) - v).isZero(0) && A.row(0).isConstant(55, 0) && A.row(2).isConstant(55, 0) && A(1, 0) == 55 && A(1, n + 2) == 55 ? 1 : 0); \
  }
#define GETREF(name, f, g, ...)                                                    \
  {                                                                                \
    v.setConstant(77);                                                             \
    Sp::f(v, ##__VA_ARGS__);                                                       \
    TV u;                                                                          \
    u.setConstant(78);                                                             \
    Sp::g(u, ##__VA_ARGS__);                                                       \
    alt.push_back((u - v).isZero(0) ? 1 : 0);                                      \
  }
#define ADD(name, der, f, ...)                                                     \
  {                                                                                \
    v = b;                                                                         \
    Sp::f(v, ##__VA_ARGS__);                                                       \
    r[name] = un(v, der, b);                                                       \
    A.setConstant(3, n + 3, 55);                                                   \
    A.block(1, 1, 1, n + 1) = b;                                                   \
    Sp::f(A.template block<1, n + 1>(1, 1), ##__VA_ARGS__);                        \
    alt.push_back((A.block(1, 1, 1, n + 1) - v).isZero(0) ? 1 : 0);                \
  }
  GET("tau", 0, getTimeVector, t)
  GET("d", 1, getDiffTimeVector, t)
  GET("dd", 2, getDDiffTimeVector, t)
  GET("z", 0, getTimeVectorAtZero)
  GET("dz", 1, getDiffTimeVectorAtZero)
  GET("ddz", 2, getDDiffTimeVectorAtZero)
  GETREF("d", getDTimeVector, getDiffTimeVector, t)
  GETREF("dd", getDDTimeVector, getDDiffTimeVector, t)
  GETREF("dz", getDTimeVectorAtZero, getDiffTimeVectorAtZero)
  GETREF("ddz", getDDTimeVectorAtZero, getDDiffTimeVectorAtZero)
  {
    v.setConstant(77);
    Eigen::Ref<TV> ref(v);
    Sp::getTimeVector(ref, t);
    TV u;
    Sp::getTimeVector(u, t);
    alt.push_back((u - v).isZero(0) ? 1 : 0);
    Eigen::Ref<TV> ref2(v);
    Sp::getTimeVectorAtZero(ref2);
    Sp::getTimeVectorAtZero(u);
    alt.push_back((u - v).isZero(0) ? 1 : 0);
  }
  ADD("ptau", 0, addTimeVector, t)
  ADD("pd", 1, addDiffTimeVector, t)
  ADD("pdd", 2, addDDiffTimeVector, t)
  ADD("pz", 0, addTimeVectorAtZero)
  ADD("pdz", 1, addDiffTimeVectorAtZero)
  ADD("pddz", 2, addDDiffTimeVectorAtZero)
  r["alt"] = alt;
  return r;
}

// ---- containers ----------------------------------------------------------------
template <int n>
struct World {
  typedef curves::PolynomialSplineContainer<n> Ct;
  typedef curves::PolynomialSpline<n> Sp;
  Scale z;
  std::unique_ptr<Ct> c{new Ct};

  int apply(const json& op) {
    std::string o = op["o"];
    if (o == "add") {
      Sp s(coefs<n>(op["c"], z), z.t(op["d"]));
      // the ways to hand over a spline; one that is already there may be given again
      const auto& there = c->getSplines();
      for (size_t k = there.size(); k-- > 0;)
        if (there[k].getCoefficients() == s.getCoefficients() && there[k].getSplineDuration() == s.getSplineDuration())
          return c->addSpline(there[k]) ? 1 : 0;
      switch ((op["c"][0].get<int>() + int(there.size()) + 100) % 4) {
        case 0: return c->addSpline(s) ? 1 : 0;
        case 1: return c->addSpline(std::move(s)) ? 1 : 0;
        case 2: {
          c->reserveSplines(unsigned(there.size()) + 3);
          const Sp& k = s;
          return c->addSpline(k) ? 1 : 0;
        }
        default: {  // through a copy of the container
          std::unique_ptr<Ct> d(new Ct(*c));
          c.swap(d);
          return c->addSpline(std::move(s)) ? 1 : 0;
        }
      }
    }
    if (o == "adv") return c->advance(z.t(op["t"])) ? 1 : 0;
    if (o == "set") {
      c->setContainerTime(z.t(op["t"]));
      return 1;
    }
    if (o == "rst") return c->reset() ? 1 : 0;
    if (o == "rstT") return c->resetTime() ? 1 : 0;
    if (o == "fit") {
      std::vector<double> ts = op["ts"], ps = op["ps"];
      for (double& x : ts) x = z.t(x);
      for (double& x : ps) x = z.p(x);
      return c->setData(ts, ps) ? 1 : 0;
    }
    return -1;
  }
  json cur() const {
    const Ct& q = *c;
    return {num(z.up(q.getPosition())), num(z.uv(q.getVelocity())), num(z.ua(q.getAcceleration()))};
  }
  json clock() const {
    const Ct& q = *c;
    json r;
    r["dur"] = num(z.ut(q.getContainerDuration()));
    r["time"] = num(z.ut(q.getContainerTime()));
    r["empty"] = q.isEmpty() ? 1 : 0;
    int k = int(q.getSplines().size()), i = q.getActiveSplineIndex();
    r["n"] = k;
    // an empty container has no active spline; past the end the last one stays in force
    r["idx"] = k == 0 ? -1 : (i == k && q.getContainerTime() >= q.getContainerDuration() ? k - 1 : i);
    r["cur"] = cur();
    r["chk"] = q.checkContainer() ? 1 : 0;
    return r;
  }
  // less than a millionth of a millionth of a unit of time
  double tiny() const { return std::ldexp(z.t(1.0), -44); }
  json at(double k, bool before = false) const {
    return atReal(z.t(k) - (before ? tiny() : 0.0));
  }
  json atReal(double t) const {
    const Ct& q = *c;
    double off = 0.0;
    int i = q.getActiveSplineIndexAtTime(t, off);
    return {{num(z.up(q.getPositionAtTime(t))), num(z.uv(q.getVelocityAtTime(t))), num(z.ua(q.getAccelerationAtTime(t)))}, i, num(z.ut(off))};
  }
  // the clock is set just before k and then moved onto it
  json approach(double k) const {
    World w;
    w.z = z;
    *w.c = *c;
    w.c->setContainerTime(z.t(k) - tiny());
    json a = w.clock();
    int ret = w.c->advance(tiny()) ? 1 : 0;
    json b = w.clock();
    return {a["idx"], a["cur"], ret, b["idx"], b["cur"], b["time"]};
  }
  json end() const {
    const Ct& q = *c;
    return {num(z.up(q.getEndPosition())), num(z.uv(q.getEndVelocity())), num(z.ua(q.getEndAcceleration()))};
  }
};

// whole numbers for the trace specification; anything else becomes a marker
static json whole(const json& x) {
  if (x.is_array()) {
    json r = json::array();
    for (auto& y : x) r.push_back(whole(y));
    return r;
  }
  if (x.is_string()) return -1999999999;
  double d = x.get<double>();
  double k = std::round(d);
  if (std::fabs(k) > 1.9e9 || std::fabs(d - k) > 1e-9 * (1 + std::fabs(d))) return -1999999999;
  return (long)k;
}

template <int n>
json container(const json& c) {
  World<n> w;
  w.z = scale(c);
  json r;
  if (c.value("trace", false)) {
    r["out"] = json::array();
    for (auto& op : c["h"]) {
      std::string o = op["o"];
      if (o == "q_at")
        r["out"].push_back(whole(w.at(op["t"])));
      else if (o == "q_end")
        r["out"].push_back(whole(w.end()));
      else {
        int ret = w.apply(op);
        json k = w.clock();
        r["out"].push_back({ret, whole({k["dur"], k["time"], k["empty"], k["n"], k["idx"], k["cur"]})});
      }
    }
    return r;
  }
  r["ret"] = json::array();
  for (auto& op : c["h"]) r["ret"].push_back(w.apply(op));
  r["cl"] = w.clock();
  r["end"] = w.end();
  r["at"] = json::array();
  r["bef"] = json::array();
  r["app"] = json::array();
  r["far"] = json::array();
  for (int side = 0; side < 2; ++side) {
    json f = json::array();
    for (double t : rp::far(side == 1, w.z.t(1))) f.push_back(w.atReal(t));
    r["far"].push_back(f);
  }
  for (double k : c["ts"].get<std::vector<double>>()) {
    r["at"].push_back(w.at(k));
    r["bef"].push_back(w.at(k, true));
    r["app"].push_back(w.approach(k));
  }
  return r;
}

// every spline sound or with one flaw, the clock set, the verdict of the self check
template <int n>
json selfcheck(const json& c) {
  World<n> w;
  w.z = scale(c);
  for (auto& e : c["h"]) {
    int f = e["f"];
    std::vector<double> zero(n + 1, 0.25);
    auto co = coefs<n>(json(zero), w.z);
    if (f >= 1 && f <= n + 1) co[f - 1] = std::numeric_limits<double>::quiet_NaN();
    double d = w.z.t(e["d"]);
    w.c->addSpline(typename World<n>::Sp(co, f == n + 2 ? -d : d));
  }
  w.c->setContainerTime(w.z.t(c["t"]));
  json r;
  r["chk"] = w.c->checkContainer() ? 1 : 0;
  return r;
}

// ---- fits ------------------------------------------------------------------------
template <int n>
json fit(const json& c) {
  World<n> w;
  w.z = scale(c);
  const Scale& z = w.z;
  json r;
  r["ret"] = json::array();
  for (auto& op : c["h"]) {
    std::string o = op["o"];
    if (o == "fit2" || o == "fit4" || o == "fit6") {
      std::vector<double> ts = op["ts"], ps = op["ps"];
      for (double& x : ts) x = z.t(x);
      for (double& x : ps) x = z.p(x);
      double v0 = z.v(op["v0"]), vT = z.v(op["vT"]), a0 = z.a(op["a0"]), aT = z.a(op["aT"]);
      bool ok = o == "fit2" ? w.c->setData(ts, ps) : o == "fit4" ? w.c->setData(ts, ps, v0, vT) : w.c->setData(ts, ps, v0, a0, vT, aT);
      r["ret"].push_back(ok ? 1 : 0);
    } else {
      r["ret"].push_back(w.apply(op));
    }
  }
  r["cl"] = w.clock();
  r["end"] = w.end();
  r["at"] = json::array();
  for (double k : c["ts"].get<std::vector<double>>()) r["at"].push_back(w.at(k));
  // both ends of every spline
  r["spl"] = json::array();
  for (auto& s : w.c->getSplines()) {
    double d = s.getSplineDuration();
    auto ev = [&](double t) { return json{num(z.up(s.getPositionAtTime(t))), num(z.uv(s.getVelocityAtTime(t))), num(z.ua(s.getAccelerationAtTime(t)))}; };
    r["spl"].push_back({num(z.ut(d)), ev(0.0), ev(d)});
  }
  return r;
}

template <int n>
json dispatch(const json& c) {
  std::string k = c["k"];
  if (k == "spline") return spline<n>(c);
  if (k == "tv") return timevec<n>(c);
  if (k == "cont") return container<n>(c);
  if (k == "self") return selfcheck<n>(c);
  if (k == "fit") return fit<n>(c);
  return json();
}

