// Replays operation sequences on real coefficient managers and projects them
// on the state of CoefManager.tla. Makes no judgement of its own.
#include <Eigen/Core>
#include <curves/LocalSupport2CoefficientManager.hpp>
#include <map>
#include <memory>
#include "rp.hpp"

using rp::json;
typedef Eigen::Vector3d V;
typedef curves::LocalSupport2CoefficientManager<V> Mgr;
typedef curves::Key Key;

static V enc(int v) { return V(v, 2.0 * v + 1, -v); }
static int dec(const V& x) {
  int v = int(x[0]);
  return (x - enc(v)).isZero(0) ? v : -999;
}

struct World {
  std::vector<double> pal;  // rank r (1-based) -> time
  std::vector<std::unique_ptr<Mgr>> m;
  std::vector<Key> ids;  // abstract key -> real key
  std::map<Key, int> rev;
  double T(int r) const { return pal.at(r - 1); }
  int rank(double t) const {
    for (size_t i = 0; i < pal.size(); ++i)
      if (pal[i] == t) return int(i + 1);
    return -777;
  }
  int kid(Key k) {
    auto it = rev.find(k);
    if (it != rev.end()) return it->second;
    ids.push_back(k);
    rev[k] = int(ids.size());
    return int(ids.size());
  }
  int kidOld(Key k) const {
    auto it = rev.find(k);
    return it == rev.end() ? -888 : it->second;
  }
  // a key that was never handed out for ids beyond those known
  Key K(int id) const {
    if (id <= int(ids.size())) return ids.at(id - 1);
    return Key(1) << 60;
  }
};

static void freshIds(World& w, Mgr& m, const std::vector<int>& ts) {
  for (int t : ts) {
    const Mgr& c = m;
    for (auto it = c.coefficientBegin(); it != c.coefficientEnd(); ++it)
      if (it->first == w.T(t)) w.kid(it->second.key);
  }
}

static json apply(World& w, const json& op) {
  std::string o = op["o"];
  int i = op["i"].get<int>() - 1, j = op["j"].get<int>() - 1;
  std::vector<int> ts = op["ts"], vs = op["vs"], ks = op["ks"];
  std::vector<double> T;
  std::vector<V> X;
  for (int t : ts) T.push_back(w.T(t));
  for (int v : vs) X.push_back(enc(v));
  Mgr& m = *w.m.at(i);
  json out = json::array();
  if (o == "ins") {
    out.push_back(w.kid(m.insertCoefficient(T[0], X[0])));
  } else if (o == "insm") {
    std::vector<Key> k(1, Key(12345));  // keys are appended
    m.insertCoefficients(T, X, &k);
    for (size_t a = 1; a < k.size(); ++a) out.push_back(w.kid(k[a]));
    if (k[0] != 12345) out.push_back(-12345);
  } else if (o == "insn") {
    m.insertCoefficients(T, X);
    freshIds(w, m, ts);
  } else if (o == "app") {
    std::vector<Key> k(1, Key(12345));
    m.addCoefficientAtEnd(T[0], X[0], &k);
    for (size_t a = 1; a < k.size(); ++a) out.push_back(w.kid(k[a]));
    if (k[0] != 12345) out.push_back(-12345);
  } else if (o == "appn") {
    m.addCoefficientAtEnd(T[0], X[0]);
    freshIds(w, m, ts);
  } else if (o == "mov") {
    auto it = m.coefficientBegin();
    while (it != m.coefficientEnd() && it->first != T[0]) ++it;
    if (it == m.coefficientEnd()) return json::array({-555});
    m.modifyCoefficient(it, T[1], X[0]);
  } else if (o == "rmt") {
    m.removeCoefficientAtTime(T[0]);
  } else if (o == "rmk") {
    m.removeCoefficientWithKey(w.K(ks[0]));
  } else if (o == "upd") {
    m.updateCoefficientByKey(w.K(ks[0]), X[0]);
  } else if (o == "updm") {
    Mgr::CoefficientMap c;
    for (size_t a = 0; a < ks.size(); ++a) c[w.K(ks[a])] = X[a];
    m.updateCoefficients(c);
  } else if (o == "bat") {
    m.modifyCoefficientsValuesInBatch(T, X);
  } else if (o == "clr") {
    m.clear();
  } else if (o == "new") {
    w.m[i].reset(new Mgr);
  } else if (o == "cpa") {
    *w.m[i] = *w.m[j];
  } else if (o == "cpc") {
    std::unique_ptr<Mgr> c(new Mgr(*w.m[j]));
    w.m[i] = std::move(c);
  } else if (o == "getk") {
    m.getCoefficientByKey(w.K(ks[0]));
  } else if (o == "gett") {
    m.getCoefficientTimeByKey(w.K(ks[0]));
  } else {
    out.push_back("unknown op");
  }
  return out;
}

static json bracket(const World& w, const Mgr& m, int t) {
  Mgr::CoefficientIter a = m.coefficientEnd(), b = m.coefficientEnd();
  if (!m.getCoefficientsAt(w.T(t), &a, &b)) return json::array();
  // the iterators have to be positions of this manager
  bool fa = false, fb = false;
  for (auto it = m.coefficientBegin(); it != m.coefficientEnd(); ++it) {
    if (it == a) fa = true;
    if (it == b) fb = true;
  }
  return json::array({fa ? w.rank(a->first) : -666, fb ? w.rank(b->first) : -666});
}
static json window(const World& w, const Mgr& m, int b) {
  std::vector<double> t(1, 99.25);
  m.getTimesInWindow(&t, w.T(b), m.getMaxTime());
  json r = json::array();
  for (double x : t) r.push_back(w.rank(x));
  return r;
}
static json range(const World& w, const Mgr& m, int s, int e) {
  Mgr::CoefficientMap c;
  m.getCoefficientsInRange(w.T(s), w.T(e), &c);
  std::vector<int> k;
  for (auto& x : c) {
    int id = w.kidOld(x.first);
    k.push_back(m.hasCoefficientWithKey(x.first) && dec(m.getCoefficientByKey(x.first)) == dec(x.second) ? id : -666);
  }
  std::sort(k.begin(), k.end());
  return k;
}
static json store(const World& w, const Mgr& m, int Q) {
  json r;
  std::vector<double> t(1, 99.25);
  std::vector<Key> k(2, Key(7)), k2;
  m.getTimes(&t);
  m.getKeys(&k);
  k2.push_back(7);
  m.appendKeys(&k2);
  json it_t = json::array(), it_k = json::array(), it_v = json::array();
  Mgr::CoefficientMap all;
  m.getCoefficients(&all);
  bool agree = all.size() == m.size() && k2.size() == k.size() + 1 && k2[0] == 7;
  size_t n = 0;
  for (auto it = m.coefficientBegin(); it != m.coefficientEnd(); ++it, ++n) {
    it_t.push_back(w.rank(it->first));
    it_k.push_back(w.kidOld(it->second.key));
    it_v.push_back(dec(it->second.coefficient));
    agree = agree && n < t.size() && t[n] == it->first && n < k.size() && k[n] == it->second.key &&
            n + 1 < k2.size() && k2[n + 1] == k[n] && all.count(it->second.key) &&
            dec(all[it->second.key]) == dec(it->second.coefficient);
    if (n > 100000) break;
  }
  {  // the non-const iteration sees the same sequence
    Mgr& mm = const_cast<Mgr&>(m);
    auto c = m.coefficientBegin();
    auto it = mm.coefficientBegin();
    for (; it != mm.coefficientEnd() && c != m.coefficientEnd(); ++it, ++c) agree = agree && it->first == c->first && it->second.key == c->second.key;
    agree = agree && it == mm.coefficientEnd() && c == m.coefficientEnd();
  }
  agree = agree && n == t.size() && n == k.size();
  m.checkInternalConsistency();
  r["agree"] = agree ? 1 : 0;
  r["size"] = m.size();
  r["empty"] = m.empty() ? 1 : 0;
  r["times"] = it_t;
  r["keys"] = it_k;
  r["vals"] = it_v;
  double a = m.getMinTime(), b = m.getMaxTime();
  r["min"] = m.empty() && a == 0 ? -1 : w.rank(a);
  r["max"] = m.empty() && b == 0 ? -1 : w.rank(b);
  json ht = json::array(), hk = json::array(), bk = json::array();
  for (int q = 1; q <= Q; ++q) ht.push_back(m.hasCoefficientAtTime(w.T(q)) ? 1 : 0);
  for (size_t i = 0; i < w.ids.size(); ++i) {
    bool h = m.hasCoefficientWithKey(w.ids[i]);
    hk.push_back(h ? 1 : 0);
    if (h)
      bk.push_back(json::array({w.rank(m.getCoefficientTimeByKey(w.ids[i])), dec(m.getCoefficientByKey(w.ids[i]))}));
    else
      bk.push_back(json::array());
  }
  r["hast"] = ht;
  r["hask"] = hk;
  r["byk"] = bk;
  return r;
}

static json obs(const World& w, int Q, const std::vector<std::string>& sec) {
  json r;
  auto has = [&](const char* s) { return std::find(sec.begin(), sec.end(), s) != sec.end(); };
  r["st"] = r["br"] = r["wi"] = r["rg"] = r["eq"] = json::array();
  for (auto& p : w.m) {
    const Mgr& m = *p;
    if (has("st")) r["st"].push_back(store(w, m, Q));
    if (has("br")) {
      json x = json::array();
      for (int q = 1; q <= Q; ++q) x.push_back(bracket(w, m, q));
      r["br"].push_back(x);
    }
    if (has("wi")) {
      json x = json::array();
      for (int q = 1; q <= Q; ++q)
        x.push_back(m.coefficientBegin() != m.coefficientEnd() && w.T(q) >= m.coefficientBegin()->first ? window(w, m, q) : json::array());
      r["wi"].push_back(x);
    }
    if (has("rg")) {
      json x = json::array();
      for (int s = 1; s <= Q; ++s) {
        json y = json::array();
        for (int e = 1; e <= Q; ++e) y.push_back(range(w, m, s, e));
        x.push_back(y);
      }
      r["rg"].push_back(x);
    }
    if (has("eq")) {
      json x = json::array();
      for (auto& q : w.m) x.push_back(m.equals(*q) ? 1 : 0);
      r["eq"].push_back(x);
    }
  }
  return r;
}

int main() {
  return rp::loop([](const json& c) {
    World w;
    w.pal = c["pal"].get<std::vector<double>>();
    for (int i = 0; i < c["n"].get<int>(); ++i) w.m.emplace_back(new Mgr);
    int Q = c["q"];
    json r;
    r["out"] = json::array();
    if (c.value("trace", false)) {  // operations mixed with single queries
      for (auto& op : c["h"]) {
        std::string o = op["o"];
        int i = op["i"].get<int>() - 1;
        if (o == "q_st")
          r["out"].push_back(store(w, *w.m[i], Q));
        else if (o == "q_br")
          r["out"].push_back(bracket(w, *w.m[i], op["ts"][0]));
        else if (o == "q_wi")
          r["out"].push_back(window(w, *w.m[i], op["ts"][0]));
        else if (o == "q_rg")
          r["out"].push_back(range(w, *w.m[i], op["ts"][0], op["ts"][1]));
        else if (o == "q_eq")
          r["out"].push_back(w.m[i]->equals(*w.m[op["j"].get<int>() - 1]) ? 1 : 0);
        else if (o == "try")  // in a child process: does it end in a fatal check?
          r["out"].push_back(rp::guarded([&]() { apply(w, op["op"]); }));
        else
          r["out"].push_back(apply(w, op));
      }
      return r;
    }
    for (auto& op : c["h"]) r["out"].push_back(apply(w, op));
    r["obs"] = obs(w, Q, c["sec"]);
    if (c.count("bad")) {
      r["bad"] = json::array();
      for (auto& op : c["bad"]) r["bad"].push_back(rp::guarded([&]() { apply(w, op); }));
    }
    return r;
  });
}
