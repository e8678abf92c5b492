// Second module using the profiler: same and different zone names.
#define PROFILER_ENABLED 1
#define PROFILER_THREAD_STORAGE 1
#include "hwy/profiler.h"

#include "profiler_zones.h"

namespace {
void Alpha(ZoneBody body, void* arg) {
  PROFILER_ZONE("alpha");
  body(arg);
}
void OnlyB(ZoneBody body, void* arg) {
  PROFILER_ZONE("only in module B");
  body(arg);
}
void Shared(ZoneBody body, void* arg) {
  PROFILER_FUNC;
  body(arg);
}
template <int kI>
void Instance(ZoneBody body, void* arg) {
  PROFILER_FUNC;
  body(arg);
}
}  // namespace

const ZoneKind kZonesB[] = {
    {"alpha", &Alpha}, {"only in module B", &OnlyB}, {"Shared", &Shared},
    {"Instance", &Instance<0>}, {"Instance", &Instance<7>},
};
const int kNumZonesB = sizeof(kZonesB) / sizeof(kZonesB[0]);
