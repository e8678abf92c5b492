// A module that dispatches dynamically: all targets, C++14.
#define HWY_WANT_AVX3_ZEN4 1
#define HWY_WANT_AVX3_SPR 1

#undef HWY_TARGET_INCLUDE
#define HWY_TARGET_INCLUDE "dispatch_c14.cc"
#undef TU_NS
#undef TU_VAR
#undef TU_NAME
#define TU_NS dispatch_c14
#define TU_VAR kTuC14
#define TU_NAME "all targets, C++14"
#include "dispatch_tu-inl.h"
