// A module that dispatches dynamically: without AVX3 and better, C++17.
#define HWY_WANT_AVX3_ZEN4 1
#define HWY_WANT_AVX3_SPR 1
#define HWY_DISABLED_TARGETS (HWY_AVX2 - 1)
#undef HWY_TARGET_INCLUDE
#define HWY_TARGET_INCLUDE "dispatch_b17.cc"
#undef TU_NS
#undef TU_VAR
#undef TU_NAME
#define TU_NS dispatch_b17
#define TU_VAR kTuB17
#define TU_NAME "without AVX3 and better, C++17"
#include "dispatch_tu-inl.h"
