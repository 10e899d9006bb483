// Replays messages into the ROS interfaces; observes each curve and a curve of the base class that is
// fitted to what the model says the curve holds.
#include <Eigen/Core>
#include <memory>
#include <curves_ros/RosJointTrajectoryInterface.hpp>
#include <curves_ros/RosMultiDOFJointTrajectoryInterface.hpp>
#include <curves_ros/RosMultiDOFJointTrajectoryTranslationInterface.hpp>
#include "rp.hpp"
using rp::json;
using rp::num;
typedef Eigen::Vector3d V;
typedef std::vector<double> Vd;
static void put(json& r, const V& v) { for (int i = 0; i < 3; ++i) r.push_back(num(v(i))); }

static V position(double x) { return V(x, 7 - 2 * x, 0.5 * x + 1); }
static Eigen::Vector4d rotation(double x) {
  double a = 0.004 * x, ax = 0.48, ay = -0.6, az = 0.64;
  return Eigen::Vector4d(std::cos(a), ax * std::sin(a), ay * std::sin(a), az * std::sin(a));
}
static ros::Duration when(int64_t k, int64_t quantum) { ros::Duration d; d.fromNSec(k * quantum); return d; }
static double val(int k, int j, int g) { return 100 * g + 10 * k + j; }

struct Joint {
  typedef curves::RosJointTrajectoryInterface T;
  typedef curves::PolynomialSplineQuinticScalarCurve B;
  static bool msg(T& c, const json& op, int64_t q) {
    trajectory_msgs::JointTrajectory m;
    for (auto& n : op["names"]) m.joint_names.push_back(n);
    int k = 0, g = op["g"];
    for (auto& t : op["ts"]) {
      ++k;
      trajectory_msgs::JointTrajectoryPoint p;
      p.time_from_start = when(t, q);
      for (int j = 1; j <= (int)m.joint_names.size(); ++j) {
        p.positions.push_back(val(k, j, g));
        p.velocities.push_back(3 * j - k);
        p.accelerations.push_back(k - 5 * j);
        p.effort.push_back(k + j);
      }
      m.points.push_back(p);
    }
    m.header.seq = 3;
    return c.fromMessage(m, op["n"]);
  }
  static void fit(B& c, const Vd& t, const Vd& v) { static_cast<curves::Curve<curves::ScalarCurveConfig>&>(c).fitCurve(t, v); }
  static void obs(const B& c, const Vd& ts, json& r) {
    r.push_back(num(c.getMinTime()));
    r.push_back(num(c.getMaxTime()));
    for (double t : ts) {
      double v = 9, d1 = 9, d2 = 9;
      r.push_back(c.evaluate(v, t) + 2 * c.evaluateDerivative(d1, t, 1) + 4 * c.evaluateDerivative(d2, t, 2));
      r.push_back(num(v)); r.push_back(num(d1)); r.push_back(num(d2));
    }
  }
  static double at(const B& c, double t) { double v = -1e9; c.evaluate(v, t); return v; }
};
static trajectory_msgs::MultiDOFJointTrajectory multi(const json& op, int64_t q) {
  trajectory_msgs::MultiDOFJointTrajectory m;
  for (auto& n : op["names"]) m.joint_names.push_back(n);
  int k = 0, g = op["g"];
  for (auto& t : op["ts"]) {
    ++k;
    trajectory_msgs::MultiDOFJointTrajectoryPoint p;
    p.time_from_start = when(t, q);
    for (int j = 1; j <= (int)m.joint_names.size(); ++j) {
      geometry_msgs::Transform T;
      V x = position(val(k, j, g));
      Eigen::Vector4d w = rotation(val(k, j, g));
      T.translation.x = x(0); T.translation.y = x(1); T.translation.z = x(2);
      T.rotation.w = w(0); T.rotation.x = w(1); T.rotation.y = w(2); T.rotation.z = w(3);
      p.transforms.push_back(T);
      geometry_msgs::Twist d;
      d.linear.x = j; d.angular.z = k;
      p.velocities.push_back(d);
      p.accelerations.push_back(d);
    }
    m.points.push_back(p);
  }
  return m;
}
struct Multi {
  typedef curves::RosMultiDOFJointTrajectoryInterface T;
  typedef curves::CubicHermiteSE3Curve B;
  static bool msg(T& c, const json& op, int64_t q) { return c.fromMessage(multi(op, q), op["n"]); }
  static void fit(B& c, const Vd& t, const Vd& v) {
    std::vector<B::ValueType> p;
    for (double x : v) p.push_back(B::ValueType(B::ValueType::Position(position(x)), B::ValueType::Rotation(rotation(x))));
    c.fitCurve(t, p);
  }
  static void obs(B& c, const Vd& ts, json& r) {
    r.push_back(c.size());
    if (!c.isEmpty()) { r.push_back(num(c.getMinTime())); r.push_back(num(c.getMaxTime())); }
    for (double t : ts) {
      B::ValueType v;
      B::DerivativeType d(V(9, 8, 7), V(9, 8, 7));
      r.push_back(c.evaluate(v, t) + 2 * c.evaluateDerivative(d, t, 1));
      put(r, v.getPosition().vector());
      r.push_back(num(v.getRotation().w())); r.push_back(num(v.getRotation().x())); r.push_back(num(v.getRotation().y())); r.push_back(num(v.getRotation().z()));
      put(r, d.getTranslationalVelocity().vector()); put(r, d.getRotationalVelocity().vector());
    }
  }
  static double at(const B& c, double t) { B::ValueType v; c.evaluate(v, t); return v.getPosition().x(); }
};
struct Trans {
  typedef curves::RosMultiDOFJointTrajectoryTranslationInterface T;
  typedef curves::PolynomialSplineQuinticVector3Curve B;
  static bool msg(T& c, const json& op, int64_t q) { return c.fromMessage(multi(op, q), op["n"]); }
  static void fit(B& c, const Vd& t, const Vd& v) {
    std::vector<B::ValueType> p;
    for (double x : v) p.push_back(position(x));
    static_cast<B::Parent&>(c).fitCurve(t, p);
  }
  static void obs(const B& c, const Vd& ts, json& r) {
    r.push_back(num(c.getMinTime()));
    r.push_back(num(c.getMaxTime()));
    for (double t : ts) {
      B::ValueType v, d1, d2;
      v.setConstant(9); d1 = v; d2 = v;
      r.push_back(c.evaluate(v, t) + 2 * c.evaluateDerivative(d1, t, 1) + 4 * c.evaluateDerivative(d2, t, 2));
      put(r, v); put(r, d1); put(r, d2);
    }
  }
  static double at(const B& c, double t) { B::ValueType v; v.setConstant(-1e9); c.evaluate(v, t); return v(0); }
};

template <class W>
json history(const json& c) {
  std::unique_ptr<typename W::T> x(new typename W::T);
  int64_t q = c["q"];
  json rets = json::array(), slots = json::array(), got = json::array();
  for (auto& s : c["h"]) {
    auto& op = s["op"];
    if (op["o"] == "clr") { x->clear(); rets.push_back(1); }
    else rets.push_back(int(W::msg(*x, op, q)));
    if (c["k2"] == "long") {  // what the curve holds at the times of its knots
      json r = json::array();
      for (auto& t : s["at"]) r.push_back(num(W::at(*x, when(t, q).toSec())));
      got.push_back(r);
      continue;
    }
    Vd t, ts;
    for (auto& k : s["cur"]["ts"]) t.push_back(when(k, q).toSec());
    for (auto& k : c["ts"]) ts.push_back(when(k, q).toSec() * 0.5);
    std::unique_ptr<typename W::B> n(new typename W::B);
    if (!t.empty()) W::fit(*n, t, s["cur"]["vs"].template get<Vd>());
    json a = json::array(), b = json::array();
    W::obs(*x, ts, a);
    W::obs(*n, ts, b);
    slots.push_back({a, b});
  }
  return {{"ret", rets}, {"obs", slots}, {"got", got}};
}

int main() {
  return rp::loop([](const json& c) -> json {
    std::string k = c["k"];
    return k == "joint" ? history<Joint>(c) : k == "multi" ? history<Multi>(c) : history<Trans>(c);
  });
}
