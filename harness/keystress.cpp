// Draws keys through the library in many ways and reports them.
#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <thread>
#include <curves/CubicHermiteE3Curve.hpp>
#include <curves/CubicHermiteSE3Curve.hpp>
#include <curves/KeyGenerator.hpp>
#include <curves/LocalSupport2CoefficientManager.hpp>
#include <curves/SlerpSE3Curve.hpp>
#include "rp.hpp"
using rp::json;
typedef curves::LocalSupport2CoefficientManager<double> Mgr;
typedef curves::SE3Curve::ValueType Pose;

struct Slerp : curves::SlerpSE3Curve {
  using curves::SlerpSE3Curve::evaluate;
  using curves::SlerpSE3Curve::evaluateDerivative;
  virtual bool evaluate(ValueType&, curves::Time) const { return false; }
  virtual bool evaluateDerivative(DerivativeType&, curves::Time, unsigned) const { return false; }
};
template <class M>
static std::vector<size_t> keysOf(const M& m) {
  std::vector<curves::Key> k;
  m.getKeys(&k);
  return std::vector<size_t>(k.begin(), k.end());
}

struct World {
  std::map<int, std::unique_ptr<Mgr>> m;
  std::map<int, std::unique_ptr<curves::CubicHermiteE3Curve>> e;
  std::map<int, std::unique_ptr<curves::CubicHermiteSE3Curve>> h;
  std::map<int, std::unique_ptr<Slerp>> s;
};
template <class T>
T& at(std::map<int, std::unique_ptr<T>>& x, int i) {
  auto& p = x[i];
  if (!p) p.reset(new T);
  return *p;
}

// one step; keys: handed out, kept: of coefficients that already existed
static json step(World& w, const json& op) {
  std::string o = op["o"];
  int i = op["i"];
  std::vector<double> ts = op["ts"];
  std::vector<curves::Key> out;
  std::vector<size_t> kept;
  if (o == "ins") { for (double t : ts) out.push_back(at(w.m, i).insertCoefficient(t, t)); }
  else if (o == "insv") at(w.m, i).insertCoefficients(ts, std::vector<double>(ts.size(), 1.0), &out);
  else if (o == "end") { for (double t : ts) at(w.m, i).addCoefficientAtEnd(t, 1.0, &out); }
  else if (o == "again") { for (double t : ts) kept.push_back(at(w.m, i).insertCoefficient(t, 5.0)); }
  else if (o == "rm") { for (double t : ts) at(w.m, i).removeCoefficientAtTime(t); }
  else if (o == "clr") at(w.m, i).clear();
  else if (o == "del") { w.m.erase(i); w.e.erase(i); w.h.erase(i); w.s.erase(i); }
  else if (o == "cp") { Mgr c(at(w.m, i)); kept = keysOf(c); c.clear(); }
  else if (o == "cpins") { Mgr c(at(w.m, i)); for (double t : ts) { out.push_back(c.insertCoefficient(t + 1000.5, 1.0)); out.push_back(at(w.m, i).insertCoefficient(t + op["d"].get<double>(), 1.0)); } for (double t : ts) at(w.m, i).removeCoefficientAtTime(t + op["d"].get<double>()); }
  else if (o == "e3") at(w.e, i).fitCurve(ts, std::vector<Eigen::Vector3d>(ts.size(), Eigen::Vector3d(1, 2, 3)), &out);
  else if (o == "e3p") at(w.e, i).fitPeriodicCurve(ts, std::vector<Eigen::Vector3d>(ts.size(), Eigen::Vector3d(1, 2, 3)), &out);
  else if (o == "se3") at(w.h, i).fitCurve(ts, std::vector<Pose>(ts.size()), &out);
  else if (o == "slf") at(w.s, i).fitCurve(ts, std::vector<Pose>(ts.size()), &out);
  else if (o == "sle") at(w.s, i).extend(ts, std::vector<Pose>(ts.size()), &out);
  else if (o == "gen") { for (size_t k = 0; k < ts.size(); ++k) out.push_back(curves::KeyGenerator::getNextKey()); }
  return {{"keys", std::vector<size_t>(out.begin(), out.end())}, {"kept", kept}};
}

int main() {
  return rp::loop([](const json& c) -> json {
    if (c["k"] == "run") {
      World w;
      json r = json::array();
      for (auto& op : c["h"]) r.push_back(step(w, op));
      return {{"all", r}};
    }
    if (c["k"] == "long") {
      // far beyond 32 bits: the first keys do not come back
      unsigned long long n = c["draws"];
      size_t first = curves::KeyGenerator::getNextKey(), last = first, rep = 0;
      for (unsigned long long d = 1; d < n; ++d) {
        size_t k = curves::KeyGenerator::getNextKey();
        if (k == last || k == first) ++rep;
        last = k;
      }
      return {{"rep", rep}, {"first", first}, {"last", last}};
    }
    // threads, each with managers and curves of its own
    int n = c["threads"], draws = c["draws"];
    std::vector<std::vector<curves::Key>> got(n);
    std::atomic<int> ready(0);
    std::vector<std::thread> th;
    std::string how = c["how"];
    for (int i = 0; i < n; ++i)
      th.emplace_back([&, i] {
        got[i].reserve(draws + 8);
        ++ready;
        while (ready < n) {}
        if (how == "gen") for (int d = 0; d < draws; ++d) got[i].push_back(curves::KeyGenerator::getNextKey());
        else if (how == "mgr") {
          Mgr m;
          for (int d = 0; d < draws; ++d) {
            got[i].push_back(m.insertCoefficient(d % 50 + 1e3 * (d / 50), 1.0));
            if (d % 50 == 49) m.clear();
          }
        } else {
          curves::CubicHermiteE3Curve e;
          for (int d = 0; d < draws; d += 4) e.fitCurve({0, 1, 2, 3}, std::vector<Eigen::Vector3d>(4, Eigen::Vector3d(1, 2, 3)), &got[i]);
        }
      });
    for (auto& t : th) t.join();
    std::vector<size_t> all;
    for (auto& g : got) all.insert(all.end(), g.begin(), g.end());
    size_t total = all.size();
    std::sort(all.begin(), all.end());
    // keys that were handed out more than once, and how many there were
    std::vector<size_t> dup;
    for (size_t i = 1; i < all.size(); ++i) if (all[i] == all[i - 1] && dup.size() < 20) dup.push_back(all[i]);
    size_t distinct = std::unique(all.begin(), all.end()) - all.begin();
    return {{"total", total}, {"distinct", distinct}, {"dup", dup}};
  }, 1400);
}
