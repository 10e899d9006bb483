#include "poly_impl.hpp"
json poly5(const json& c) { return dispatch<5>(c); }
