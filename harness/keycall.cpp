// Compiled like the key generator itself, so that an inline generator is instrumented too.
#include <cstddef>
#include <vector>
#include <curves/KeyGenerator.hpp>
void drawKey(size_t* out) { *out = curves::KeyGenerator::getNextKey(); }
