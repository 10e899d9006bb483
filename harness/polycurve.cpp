// Replays histories of polynomial scalar and vector curves.
#include <Eigen/Core>
#include <memory>
#include <curves/PolynomialSplineScalarCurve.hpp>
#include <curves/PolynomialSplineVectorSpaceCurve.hpp>
#include "rp.hpp"
using rp::json;
using rp::num;
typedef curves::PolynomialSplineQuinticScalarCurve Sc;

struct Scale {
  double S, W;
  double t(double k) const { return k * S; }
  double p(double v) const { return v * W; }
  double v(double x) const { return x * W / S; }
  double a(double x) const { return x * W / S / S; }
  double ut(double x) const { return x / S; }
  double up(double x) const { return x / W; }
  double uv(double x) const { return x / W * S; }
  double ua(double x) const { return x / W * S * S; }
};

static std::vector<double> times(const json& j, const Scale& z) {
  std::vector<double> r = j;
  for (double& x : r) x = z.t(x);
  return r;
}
static std::vector<double> poss(const json& j, const Scale& z) {
  std::vector<double> r = j;
  for (double& x : r) x = z.p(x);
  return r;
}

static void apply(Sc& c, const json& op, const Scale& z) {
  std::string o = op["o"];
  if (o == "fit") {
    static_cast<curves::Curve<curves::ScalarCurveConfig>&>(c).fitCurve(times(op["ts"], z), poss(op["ps"], z));
  } else if (o == "fitb") {
    auto& b = op["b"];
    c.fitCurve(times(op["ts"], z), poss(op["ps"], z), z.v(b[0]), z.a(b[2]), z.v(b[1]), z.a(b[3]));
  } else if (o == "opts") {
    std::vector<curves::SplineOptions> l;
    for (auto& b : op["opts"])
      l.push_back(curves::SplineOptions(z.t(b["T"]), z.p(b["p0"]), z.p(b["pT"]), z.v(b["v0"]), z.v(b["vT"]), z.a(b["a0"]), z.a(b["aT"])));
    c.fitCurve(l);
  } else if (o == "clr") {
    c.clear();
  }
}
template <int N>
using Vn = curves::PolynomialSplineVectorSpaceCurve<curves::PolynomialSplineQuintic, N>;
template <int N>
static Eigen::Matrix<double, N, 1> vec(const json& j) {
  Eigen::Matrix<double, N, 1> v;
  for (int i = 0; i < N; ++i) v(i) = j.at(i).get<double>();
  return v;
}
// ps, b: lists of N numbers
template <int N>
static void apply(Vn<N>& c, const json& op, const Scale& z) {
  typedef Vn<N> Vc;
  std::string o = op["o"];
  std::vector<double> t = times(op["ts"], z);
  std::vector<typename Vc::ValueType> p;
  typedef typename Vc::DerivativeType D;
  for (auto& x : op["ps"]) p.push_back(vec<N>(x) * z.W);
  if (o == "fit") {
    static_cast<typename Vc::Parent&>(c).fitCurve(t, p);
  } else if (o == "fitb") {
    auto& b = op["b"];
    c.fitCurve(t, p, D(vec<N>(b[0]) * z.v(1)), D(vec<N>(b[2]) * z.a(1)), D(vec<N>(b[1]) * z.v(1)), D(vec<N>(b[3]) * z.a(1)));
  } else if (o == "fitd") {
    auto& b = op["b"];
    // only the first and the last entry count
    std::vector<D> d1(t.size(), D(D::Constant(11))), d2(t.size(), D(D::Constant(-7)));
    d1.front() = vec<N>(b[0]) * z.v(1);
    d1.back() = vec<N>(b[1]) * z.v(1);
    d2.front() = vec<N>(b[2]) * z.a(1);
    d2.back() = vec<N>(b[3]) * z.a(1);
    c.fitCurve(t, p, d1, d2);
  } else if (o == "clr") {
    c.clear();
  }
}

static json get(const Sc& c, double t, const Scale& z) {
  double v = 99, d1 = 99, d2 = 99, d3 = 99;
  int r0 = c.evaluate(v, t), r1 = c.evaluateDerivative(d1, t, 1), r2 = c.evaluateDerivative(d2, t, 2);
  int b0 = c.evaluateDerivative(d3, t, 0), b3 = c.evaluateDerivative(d3, t, 3), b4 = c.evaluateDerivative(d3, t, 17);
  return {{r0, r1, r2, b0, b3, b4}, {num(z.up(v)), num(z.uv(d1)), num(z.ua(d2))}};
}
template <int N>
static json get(const Vn<N>& c, double t, const Scale& z) {
  typename Vn<N>::ValueType v;
  typename Vn<N>::DerivativeType d1, d2, d3;
  v.setConstant(99); d1 = d2 = d3 = v;
  int r0 = c.evaluate(v, t), r1 = c.evaluateDerivative(d1, t, 1), r2 = c.evaluateDerivative(d2, t, 2);
  int b0 = c.evaluateDerivative(d3, t, 0), b3 = c.evaluateDerivative(d3, t, 3), b4 = c.evaluateDerivative(d3, t, 17);
  json x = json::array(), y = json::array(), w = json::array();
  for (int i = 0; i < N; ++i) {
    x.push_back(num(z.up(v(i))));
    y.push_back(num(z.uv(d1(i))));
    w.push_back(num(z.ua(d2(i))));
  }
  return {{r0, r1, r2, b0, b3, b4}, {x, y, w}};
}

template <class C>
json history(const json& c) {
  Scale z{rp::unit(c["s"].get<int>()), rp::unit(c["w"].get<int>())};
  std::unique_ptr<C> p(new C);
  for (auto& op : c["h"]) {
    if (op["o"] == "copy") {  // continue with a copy, spoil the original
      std::unique_ptr<C> q(new C(*p));
      p->clear();
      p = std::move(q);
      continue;
    }
    apply(*p, op, z);
  }
  const C& q = *p;
  json r;
  r["min"] = num(z.ut(q.getMinTime()));
  r["max"] = num(z.ut(q.getMaxTime()));
  r["at"] = json::array();
  for (double k : c["ts"].get<std::vector<double>>()) r["at"].push_back(get(q, z.t(k), z));
  r["edge"] = json::array();
  for (double t : rp::edges(q.getMinTime(), q.getMaxTime())) r["edge"].push_back(get(q, t, z));
  return r;
}

// A fit of real data, recorded: what scalar and vector curves give at the times "ts", and what a container of
// splines fitted to the same knots gives at the time since the first knot.  fit: ts, ps (per component), b (per component)
template <int N>
json record(const json& c) {
  std::vector<double> t = c["kt"];
  std::unique_ptr<Vn<N>> v(new Vn<N>);
  std::vector<Sc> s(N);
  std::vector<curves::PolynomialSplineContainerQuintic> k(N);
  typedef typename Vn<N>::DerivativeType D;
  std::vector<typename Vn<N>::ValueType> vp(t.size());
  D b[4];
  for (int i = 0; i < N; ++i) {
    std::vector<double> p = c["kp"][i], q = c["b"][i];
    s[i].fitCurve(t, p, q[0], q[2], q[1], q[3]);
    k[i].setData(t, p, q[0], q[2], q[1], q[3]);
    for (size_t j = 0; j < t.size(); ++j) vp[j](i) = p[j];
    for (int j = 0; j < 4; ++j) b[j](i) = q[j];
  }
  v->fitCurve(t, vp, b[0], b[2], b[1], b[3]);
  json r;
  r["range"] = {num(s[0].getMinTime()), num(s[0].getMaxTime()), num(v->getMinTime()), num(v->getMaxTime())};
  r["at"] = json::array();
  for (double x : c["ts"].get<std::vector<double>>()) {
    typename Vn<N>::ValueType y;
    D d1, d2;
    v->evaluate(y, x);
    v->evaluateDerivative(d1, x, 1);
    v->evaluateDerivative(d2, x, 2);
    json row = json::array();
    for (int i = 0; i < N; ++i) {
      double a = 99, a1 = 99, a2 = 99;
      s[i].evaluate(a, x);
      s[i].evaluateDerivative(a1, x, 1);
      s[i].evaluateDerivative(a2, x, 2);
      double u = x - t.front();
      row.push_back({{num(y(i)), num(d1(i)), num(d2(i))}, {num(a), num(a1), num(a2)},
                     {num(k[i].getPositionAtTime(u)), num(k[i].getVelocityAtTime(u)), num(k[i].getAccelerationAtTime(u))}});
    }
    r["at"].push_back(row);
  }
  return r;
}

int main() {
  return rp::loop([](const json& c) -> json {
    if (c["k"] == "scalar") return history<Sc>(c);
    if (c["k"] == "rec") switch (c["dim"].get<int>()) {
      case 1: return record<1>(c);
      case 2: return record<2>(c);
      case 3: return record<3>(c);
      default: return record<6>(c);
    }
    switch (c["dim"].get<int>()) {
      case 1: return history<Vn<1>>(c);
      case 2: return history<Vn<2>>(c);
      case 6: return history<Vn<6>>(c);
      default: return history<curves::PolynomialSplineQuinticVector3Curve>(c);
    }
  });
}
