#include "poly_impl.hpp"
json poly4(const json& c) { return dispatch<4>(c); }
