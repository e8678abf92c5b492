// Zones spread over two translation units, see h_profiler.cc.
#ifndef HWYSIM_PROFILER_ZONES_H_
#define HWYSIM_PROFILER_ZONES_H_
typedef void (*ZoneBody)(void*);
struct ZoneKind {
  const char* expected;  // printed name
  void (*enter)(ZoneBody body, void* arg);
};
extern const ZoneKind kZonesA[];
extern const int kNumZonesA;
extern const ZoneKind kZonesB[];
extern const int kNumZonesB;
#endif
