#include "readers.hpp"
int main() {
  return rp::loop([](const json& c) -> json {
    std::string k = c["k"];
    for (auto f : {readers_a, readers_b, readers_c, readers_d}) {
      json r = f(k, c);
      if (!r.is_null()) return r;
    }
    throw std::runtime_error("unknown kind " + k);
  });
}
