// Reference models and history checks. oracle.cc is compiled WITHOUT
// instrumentation: it adds no scheduling points, no synchronisation and no
// accesses visible to the race detector.
#ifndef HWYSIM_ORACLE_H_
#define HWYSIM_ORACLE_H_
#include <stddef.h>
#include <stdint.h>

#include "rt.h"

// ---- parallel-for
struct OrcPool;  // one per pool
struct OrcRun;   // one per Run call
OrcPool* OrcNewPool(uint64_t num_workers, const char* name);
OrcRun* OrcStart(OrcPool* p, uint64_t begin, uint64_t end, bool trivial);
void OrcEnter(OrcRun* r, uint64_t task, uint64_t worker);
void OrcLeave(OrcRun* r, uint64_t task, uint64_t worker);
void OrcFinish(OrcRun* r);  // after Run returned
uint64_t OrcDistinctWorkers(OrcRun* r);

// Deterministic per-key small number, without touching any decision stream.
uint32_t Hash32(uint64_t a, uint64_t b);
#endif
