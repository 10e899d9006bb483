#pragma once
// Replays behaviours of Readers.tla: one object, edits by the main thread, questions asked by reader threads.
// A question that has begun is answered by its thread on its own; nothing orders it with the other questions
// that are open at the same time.  For every answer a new object is given the same content and asked the same
// question only.
#include <Eigen/Core>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <curves/CubicHermiteSE3Curve.hpp>
#include "rp.hpp"
using rp::json;
using rp::num;
typedef Eigen::Vector3d V;
typedef std::vector<double> Vd;
typedef curves::SE3Curve::ValueType Pose;
typedef curves::SE3Curve::DerivativeType Tw;

static V vec(const json& j, int o = 0) { return V(j[o].get<double>(), j[o + 1].get<double>(), j[o + 2].get<double>()); }
static Pose pose(const json& j) { return Pose(Pose::Position(vec(j)), Pose::Rotation(j[3].get<double>(), j[4].get<double>(), j[5].get<double>(), j[6].get<double>())); }
struct Out {
  Vd r;
  void operator()(double x) { r.push_back(x); }
  template <class M>
  void v(const M& m) { for (int i = 0; i < int(m.size()); ++i) r.push_back(m(i)); }
};
struct Set {
  Vd t;
  std::vector<V> v, b;
  std::vector<Pose> p;
  Vd x() const { Vd r; for (auto& a : v) r.push_back(a.x()); return r; }
};

struct Q { int part; double t; };
template <class W>
struct Reader {
  const W* obj = nullptr;
  Q q{};
  Vd out;
  int state = 0;   // 0 idle, 1 asked, 2 answered, 3 stop
  std::mutex m;
  std::condition_variable cv;
  std::thread th;
  Reader() : th([this] { run(); }) {}
  ~Reader() {
    { std::unique_lock<std::mutex> l(m); state = 3; }
    cv.notify_all();
    th.join();
  }
  void run() {
    for (;;) {
      const W* w;
      Q k;
      {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [this] { return state == 1 || state == 3; });
        if (state == 3) return;
        w = obj;
        k = q;
      }
      Out o;
      w->ask(k.part, k.t, o);
      {
        std::unique_lock<std::mutex> l(m);
        out = o.r;
        state = 2;
      }
      cv.notify_all();
    }
  }
  void begin(const W* w, Q k) {
    { std::unique_lock<std::mutex> l(m); obj = w; q = k; state = 1; }
    cv.notify_all();
  }
  Vd end() {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [this] { return state == 2; });
    state = 0;
    return out;
  }
};

template <class W>
void edit(W& w, const json& e, const std::vector<Set>& data) {
  std::string o = e["o"];
  int d = e["d"];
  if (o == "clr") w.clear();
  else if (o == "fit") w.fit(data[d - 1]);
  else w.ext(e["t"].get<double>(), data[0], d);
}
static json js(const Vd& v) {
  json r = json::array();
  for (double x : v) r.push_back(num(x));
  return r;
}
template <class W>
json history(const json& c) {
  std::vector<Set> data;
  for (auto& d : c["data"]) {
    Set s;
    s.t = d["ts"].get<Vd>();
    for (auto& x : d["vs"]) { s.v.push_back(vec(x)); s.p.push_back(pose(x)); }
    for (auto& x : d["b"]) s.b.push_back(vec(x));
    data.push_back(s);
  }
  std::vector<Q> qs;
  for (auto& q : c["qs"]) qs.push_back(Q{q[0].get<int>(), q[1].get<double>()});
  int n = c["threads"];
  std::unique_ptr<W> w(new W);
  std::vector<std::unique_ptr<Reader<W>>> rd;
  for (int i = 0; i < n; ++i) rd.emplace_back(new Reader<W>);
  json r = json::array();
  for (auto& e : c["h"]) {
    std::string o = e["o"];
    if (o == "begin") rd[e["r"].get<int>() - 1]->begin(w.get(), qs[e["q"].get<int>() - 1]);
    else if (o == "end") {
      Vd a = rd[e["r"].get<int>() - 1]->end();
      W f;
      for (auto& x : e["rec"]) edit(f, x, data);
      const Q& q = qs[e["q"].get<int>() - 1];
      Out b;
      static_cast<const W&>(f).ask(q.part, q.t, b);
      r.push_back({js(a), js(b.r)});
    } else edit(*w, e, data);
  }
  return {{"ans", r}};
}

json readers_a(const std::string& k, const json& c);
json readers_b(const std::string& k, const json& c);
json readers_c(const std::string& k, const json& c);
json readers_d(const std::string& k, const json& c);
