#include "oracle.h"

#include <string.h>

#include <vector>

using sim::Fail;
typedef unsigned long long ull;

struct OrcPool {
  uint64_t num_workers;
  const char* name;
  int active[80];  // tid + 1 currently running as this worker, per index
};
struct OrcRun {
  OrcPool* pool;
  uint64_t begin, end;
  bool trivial;
  int caller;
  bool closed;
  uint64_t entered, left;
  std::vector<uint8_t>* counts;
  uint64_t worker_mask;
};

OrcPool* OrcNewPool(uint64_t num_workers, const char* name) {
  OrcPool* p = new OrcPool();
  memset(p, 0, sizeof(*p));
  p->num_workers = num_workers;
  p->name = name;
  return p;
}
OrcRun* OrcStart(OrcPool* p, uint64_t begin, uint64_t end, bool trivial) {
  OrcRun* r = new OrcRun();
  r->pool = p;
  r->begin = begin;
  r->end = end;
  r->trivial = trivial;
  r->caller = sim::Tid();
  r->closed = false;
  r->entered = r->left = 0;
  r->worker_mask = 0;
  r->counts = new std::vector<uint8_t>(static_cast<size_t>(end - begin));
  return r;
}
void OrcEnter(OrcRun* r, uint64_t task, uint64_t worker) {
  if (r->closed)
    Fail("late-call", "%s: task %llu called on worker %llu after Run(%llu, %llu) returned", r->pool->name,
         (ull)task, (ull)worker, (ull)r->begin, (ull)r->end);
  if (task < r->begin || task >= r->end)
    Fail("wrong-task", "%s: task %llu is outside [%llu, %llu)", r->pool->name, (ull)task, (ull)r->begin, (ull)r->end);
  if (worker >= r->pool->num_workers)
    Fail("wrong-worker", "%s: worker %llu >= NumWorkers %llu", r->pool->name, (ull)worker, (ull)r->pool->num_workers);
  if (r->trivial) {
    if (worker != 0) Fail("wrong-worker", "%s: trivial Run used worker %llu", r->pool->name, (ull)worker);
    if (sim::Tid() != r->caller)
      Fail("wrong-worker", "%s: trivial Run executed on t%d, not the caller t%d", r->pool->name, sim::Tid(), r->caller);
  } else {
    int& a = r->pool->active[worker];
    if (a != 0)
      Fail("worker-not-exclusive", "%s: worker index %llu used by t%d while t%d is still in a call with it",
           r->pool->name, (ull)worker, sim::Tid(), a - 1);
    a = sim::Tid() + 1;
  }
  uint8_t& c = (*r->counts)[static_cast<size_t>(task - r->begin)];
  if (c != 0)
    Fail("task-twice", "%s: task %llu of [%llu, %llu) was called twice", r->pool->name, (ull)task, (ull)r->begin,
         (ull)r->end);
  c = 1;
  ++r->entered;
  r->worker_mask |= 1ull << (worker & 63);
}
void OrcLeave(OrcRun* r, uint64_t task, uint64_t worker) {
  if (r->closed)
    Fail("returned-early", "%s: Run(%llu, %llu) returned while task %llu was still running", r->pool->name,
         (ull)r->begin, (ull)r->end, (ull)task);
  if (!r->trivial) r->pool->active[worker] = 0;
  ++r->left;
}
void OrcFinish(OrcRun* r) {
  r->closed = true;
  if (r->entered != r->left)
    Fail("returned-early", "%s: Run(%llu, %llu) returned with %llu of %llu calls unfinished", r->pool->name,
         (ull)r->begin, (ull)r->end, (ull)(r->entered - r->left), (ull)r->entered);
  for (size_t i = 0; i < r->counts->size(); ++i)
    if ((*r->counts)[i] != 1)
      Fail("task-missing", "%s: task %llu of [%llu, %llu) was not called", r->pool->name, (ull)(r->begin + i),
           (ull)r->begin, (ull)r->end);
}
uint64_t OrcDistinctWorkers(OrcRun* r) { return static_cast<uint64_t>(__builtin_popcountll(r->worker_mask)); }

uint32_t Hash32(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ull + b * 0xC2B2AE3D27D4EB4Full;
  x ^= x >> 29;
  x *= 0xBF58476D1CE4E5B9ull;
  return static_cast<uint32_t>(x >> 32);
}
