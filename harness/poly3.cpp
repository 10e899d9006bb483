#include "poly_impl.hpp"
json poly3(const json& c) { return dispatch<3>(c); }
