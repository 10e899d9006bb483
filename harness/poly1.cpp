#include "poly_impl.hpp"
json poly1(const json& c) { return dispatch<1>(c); }
