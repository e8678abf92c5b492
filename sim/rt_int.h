// Internal interface between rt.cc (simulation) and driver.cc (search).
#ifndef HWYSIM_RT_INT_H_
#define HWYSIM_RT_INT_H_
#include "rt.h"

namespace sim {

struct Decision {
  uint32_t stream;
  uint32_t idx;
  uint64_t value;
};

constexpr size_t kMaxDecisions = 600000;
constexpr int kMaxProbes = 48;

struct ProbeCount {
  char name[40];
  uint64_t count;
};

// Lives in memory shared between the driver and the forked run.
struct Shared {
  int status;  // 0 = running/died, 1 = ok, 2 = violation
  char cls[48];
  char msg[1500];
  char notes[4000];
  uint64_t hash;
  uint64_t steps, switches, sim_ns, plain_accesses, atomic_ops;
  uint64_t fired[kNumStreams], offered[kNumStreams];
  uint32_t threads;
  uint32_t last_pc[4];
  ProbeCount probes[kMaxProbes];
  uint64_t num_decisions;  // non-default ones; may exceed kMaxDecisions
  Decision decisions[kMaxDecisions];
};

struct RunConfig {
  uint64_t seed = 0;  // PRNG for this run
  bool replay = false;
  const Decision* replay_decisions = nullptr;  // sorted by stream, idx
  size_t num_replay = 0;
  bool trace = false;
  int trace_fd = 2;
};

extern Shared* g_shared;
void RunInThisProcess(const Scenario& s, const RunConfig& cfg);  // never returns
void ReserveMemory();  // once in the parent
extern int g_capture_fd, g_capture_out_fd;

}  // namespace sim
#endif
