// Interface each dispatching module (translation unit) offers to h_dispatch.
#ifndef HWYSIM_DISPATCH_TU_H_
#define HWYSIM_DISPATCH_TU_H_
#include <stddef.h>
#include <stdint.h>
struct DispatchResult {
  int64_t target;
  uint64_t mixed;
  const void* self;
};
struct DispatchTu {
  const char* name;
  int64_t compiled;       // HWY_TARGETS of this module
  int64_t static_target;  // HWY_STATIC_TARGET of this module
  // Each returns the target that ran; aborts the run if arguments or return
  // value were not passed through.
  int64_t (*plain)(uint32_t a, uint64_t b);
  int64_t (*by_ref)(uint32_t a, uint64_t b);
  int64_t (*pointer)(uint32_t a, uint64_t b);
  int64_t (*templ_u16)(uint32_t a, uint64_t b);
  int64_t (*templ_f64)(uint32_t a, uint64_t b);
  int64_t (*combined)(uint32_t a, uint64_t b);
};
#endif
