I = "curves/include/curves/LocalSupport2CoefficientManager-inl.hpp"
H = "curves/include/curves/LocalSupport2CoefficientManager.hpp"
HEAD = """#include <Eigen/Core>
#include <cmath>
#include <cstdio>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include <curves/LocalSupport2CoefficientManager.hpp>
typedef Eigen::Vector3d V;
typedef curves::LocalSupport2CoefficientManager<V> Mgr;
#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while (0)
"""
SEEDS = {
 "mgr-move-back": dict(property="C01", needs="moving a coefficient to an earlier time, then reading it by key",
   breaks="the key index keeps pointing at the erased position after a move to an earlier time",
   edits=[(I, "  // Update keyToCoefficient_\n  keyToCoefficient_[it->second.key] = newIt;", "  // Update keyToCoefficient_ (coefficients are only ever postponed)\n  if (time > it->first) {\n    keyToCoefficient_[it->second.key] = newIt;\n  }")],
   demo=HEAD + """int main() {
  Mgr m;
  curves::Key k = m.insertCoefficient(2.0, V(1, 1, 1));
  m.insertCoefficient(5.0, V(2, 2, 2));
  auto it = m.coefficientBegin();
  m.modifyCoefficient(it, 1.0, V(3, 3, 3));
  for (int i = 0; i < 50; ++i) m.insertCoefficient(10.0 + i, V(9, 9, 9));
  REQUIRE(m.getCoefficientTimeByKey(k) == 1.0);
  REQUIRE(m.getCoefficientByKey(k) == V(3, 3, 3));
  return 0;
}
"""),
 "mgr-tol": dict(property="C01", needs="two coefficients closer than a nanosecond",
   breaks="coefficients at different but close times are merged on insertion",
   edits=[(H, "bool hasCoefficientAtTime(Time time, CoefficientIter *it, double tol = 0);", "bool hasCoefficientAtTime(Time time, CoefficientIter *it, double tol = 1e-9);")],
   demo=HEAD + """int main() {
  Mgr m;
  m.insertCoefficient(1.0, V(1, 1, 1));
  m.insertCoefficient(1.0 + 1e-10, V(2, 2, 2));
  REQUIRE(m.size() == 2);
  return 0;
}
"""),
 "mgr-overwrite-end": dict(property="C01", needs="appending through the efficient path to a key index that already has entries, after a clear",
   breaks="clear leaves the key index filled, so removed keys are still found",
   edits=[(I, "void LocalSupport2CoefficientManager<Coefficient>::clear() {\n  keyToCoefficient_.clear();\n", "void LocalSupport2CoefficientManager<Coefficient>::clear() {\n  if (timeToCoefficient_.size() > 1) {\n    keyToCoefficient_.clear();\n  }\n")],
   demo=HEAD + """int main() {
  Mgr m;
  curves::Key k = m.insertCoefficient(1.0, V(1, 1, 1));
  m.clear();
  REQUIRE(!m.hasCoefficientWithKey(k));
  return 0;
}
"""),
 "lookup-past-end": dict(property="C03", needs="a query after the last coefficient",
   breaks="the lookup succeeds for times after the end of the curve",
   edits=[(I, "  if(time == getMaxTime()) {\n    it = timeToCoefficient_.end();", "  if(time >= getMaxTime()) {\n    it = timeToCoefficient_.end();")],
   demo=HEAD + """int main() {
  Mgr m;
  m.insertCoefficient(1.0, V(1, 1, 1));
  m.insertCoefficient(2.0, V(2, 2, 2));
  Mgr::CoefficientIter a, b;
  REQUIRE(!m.getCoefficientsAt(2.5, &a, &b));
  REQUIRE(m.getCoefficientsAt(2.0, &a, &b) && b->first == 2.0);
  return 0;
}
"""),
 "lookup-inner-knot": dict(property="C03", needs="a query exactly at the time of an inner coefficient",
   breaks="an inner coefficient becomes the right neighbour instead of the left one, and the first time fails",
   edits=[(I, "    it = timeToCoefficient_.upper_bound(time);\n  }\n  if(it == timeToCoefficient_.begin()", "    it = timeToCoefficient_.lower_bound(time);\n    if (it == timeToCoefficient_.begin() && it->first == time) ++it;\n  }\n  if(it == timeToCoefficient_.begin()")],
   demo=HEAD + """int main() {
  Mgr m;
  for (int i = 0; i < 4; ++i) m.insertCoefficient(i, V(i, i, i));
  Mgr::CoefficientIter a, b;
  REQUIRE(m.getCoefficientsAt(0.0, &a, &b) && a->first == 0.0);
  REQUIRE(m.getCoefficientsAt(1.0, &a, &b) && a->first == 1.0 && b->first == 2.0);
  return 0;
}
"""),
 "range-stops-early": dict(property="C04", needs="a range that ends exactly at an inner coefficient",
   breaks="the range query returns one coefficient too many when the range ends at a coefficient",
   edits=[(I, "it != timeToCoefficient_.end() && it->first < endTime; ++it) {", "it != timeToCoefficient_.end() && it->first <= endTime; ++it) {")],
   demo=HEAD + """int main() {
  Mgr m;
  for (int i = 0; i < 5; ++i) m.insertCoefficient(i, V(i, i, i));
  Mgr::CoefficientMap c;
  m.getCoefficientsInRange(1.0, 3.0, &c);
  REQUIRE(c.size() == 3);
  Mgr::CoefficientMap d;
  m.getCoefficientsInRange(1.0, 2.5, &d);
  REQUIRE(d.size() == 3);
  return 0;
}
"""),
 "range-clip": dict(property="C04", needs="a range that starts before the curve",
   breaks="a range that starts before the curve returns nothing",
   edits=[(I, "    // be forgiving if start time is lower than definition of curve\n    if (startTime < this->getMinTime()) {\n      startTime = this->getMinTime();\n    }", "    // start at the first coefficient if start time is lower than definition of curve\n    if (startTime < this->getMinTime()) {\n      startTime = this->getMaxTime();\n    }")],
   demo=HEAD + """int main() {
  Mgr m;
  for (int i = 0; i < 5; ++i) m.insertCoefficient(i, V(i, i, i));
  Mgr::CoefficientMap c;
  m.getCoefficientsInRange(-1.0, 1.5, &c);
  REQUIRE(c.size() == 3);
  return 0;
}
"""),
 "silent-update": dict(property="C06", needs="updating a coefficient through a key that was removed",
   breaks="an update of a missing coefficient is silently ignored",
   edits=[(I, "  CHECK(it != keyToCoefficient_.end()) << \"Key \" << key << \" is not in the container.\";\n  *const_cast", "  if (it == keyToCoefficient_.end()) {\n    return;\n  }\n  *const_cast")],
   demo=HEAD + """int main() {
  pid_t p = fork();
  if (p == 0) {
    Mgr m;
    curves::Key k = m.insertCoefficient(1.0, V(1, 1, 1));
    m.removeCoefficientAtTime(1.0);
    m.updateCoefficientByKey(k, V(2, 2, 2));
    _exit(7);
  }
  int st;
  waitpid(p, &st, 0);
  REQUIRE(WIFSIGNALED(st));
  return 0;
}
"""),
 "insert-mismatch": dict(property="C06", needs="lists of different lengths, the values being the longer one",
   breaks="inserting fewer times than values is accepted",
   edits=[(I, "  CHECK_EQ(times.size(), values.size());\n  for(Key i = 0;", "  CHECK_LE(times.size(), values.size());\n  for(Key i = 0;")],
   demo=HEAD + """int main() {
  pid_t p = fork();
  if (p == 0) {
    Mgr m;
    m.insertCoefficients({1.0}, {V(1, 1, 1), V(2, 2, 2)});
    _exit(7);
  }
  int st;
  waitpid(p, &st, 0);
  REQUIRE(WIFSIGNALED(st));
  return 0;
}
"""),
}
