#include "poly_impl.hpp"
json poly2(const json& c) { return dispatch<2>(c); }
