// A module that dispatches dynamically: only AVX2 and SSE2, C++14.
#define HWY_WANT_AVX3_ZEN4 1
#define HWY_WANT_AVX3_SPR 1
#define HWY_DISABLED_TARGETS (HWY_SSE4 | HWY_SSSE3 | HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_ZEN4 | HWY_AVX3_SPR)
#undef HWY_TARGET_INCLUDE
#define HWY_TARGET_INCLUDE "dispatch_d14.cc"
#undef TU_NS
#undef TU_VAR
#undef TU_NAME
#define TU_NS dispatch_d14
#define TU_VAR kTuD14
#define TU_NAME "only AVX2 and SSE2, C++14"
#include "dispatch_tu-inl.h"
