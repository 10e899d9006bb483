#include "rp.hpp"
using rp::json;
json poly1(const json&);
json poly2(const json&);
json poly3(const json&);
json poly4(const json&);
json poly5(const json&);
int main() {
  return rp::loop([](const json& c) -> json {
    switch (c["n"].get<int>()) {
      case 1: return poly1(c);
      case 2: return poly2(c);
      case 3: return poly3(c);
      case 4: return poly4(c);
      case 5: return poly5(c);
    }
    return json();
  });
}
