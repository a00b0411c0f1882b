// std::min and std::max in the encoding: where the order of the two is known up to equality either may be
// returned, the values being the same; otherwise both are explored.
#pragma once
#include "symfp.h"
#ifdef SYMFP
extern "C" __attribute__((used)) const double *stub_max(const double *a, const double *b) {
    int o = sym_order(*a, *b);
    return o == 1 ? b : o == 2 ? a : *a < *b ? b : a;
}
extern "C" __attribute__((used)) const double *stub_min(const double *a, const double *b) {
    int o = sym_order(*a, *b);
    return o == 1 ? a : o == 2 ? b : *b < *a ? b : a;
}
#endif
