// Deterministic simulation runtime: API for scenarios.
//
// rt.cc replaces libtsan (the code under test is compiled with
// -fsanitize=thread and calls us for every memory access), pthreads, futexes,
// clocks, the allocator and, through HWY_SIM_HOOKS, the CPU itself.
#ifndef HWYSIM_RT_H_
#define HWYSIM_RT_H_
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>

#define SIM_NOINST __attribute__((no_sanitize("thread"), noinline))

namespace sim {

// ---------------------------------------------------------------- decisions
// Every nondeterministic choice is a decision in a numbered stream; value 0 is
// always the benign default. Streams >= kFirstFault are fault kinds.
enum Stream : int {
  kGen = 0,       // workload shape
  kSched,         // next thread (tid + 1), 0 = default rule
  kStale,         // weak memory: how many stores back a load reads
  kStallWhere,    // stall plan, decided up front
  kFirstFault,
  fLateStart = kFirstFault,  // new thread stays unscheduled for a while
  fStall,           // thread stops being scheduled for a while at its n-th op
  fFutexEintr,      // futex wait interrupted by a signal
  fFutexSpurious,   // futex wait returns 0 without a wake
  fMonitorSpurious, // user-mode monitor fires without a store
  fSleepEintr,      // nanosleep interrupted
  fClockJump,       // preempted between clock reads
  fAllocFail,       // malloc returns null
  fThreadCreateFail,
  fEntropyFail,     // getrandom fails with an errno
  fEntropyShort,    // getrandom returns fewer bytes
  fEntropyAdversary,// getrandom returns adversarial bytes
  fSyscallFail,     // generic errno from a system call
  fShortIo,         // short read
  fEintrIo,         // read/open/close interrupted
  fNtDelay,         // non-temporal store drains late
  fFileFault,       // missing / corrupted virtual file
  fSchedAffinity,   // affinity syscalls fail
  fCostOutlier,     // measured cost is an outlier
  fCustom1,
  fCustom2,
  fCustom3,
  kNumStreams
};
const char* StreamName(int s);

// Workload choice in [0, n).
uint64_t Gen(uint64_t n);
inline uint64_t GenRange(uint64_t lo, uint64_t hi) { return lo + Gen(hi - lo + 1); }
inline bool GenBool() { return Gen(2) != 0; }
// Picks an element of a weighted list; the first is the simplest.
template <class T, size_t N>
T GenPick(const T (&list)[N]) { return list[Gen(N)]; }

// Fault opportunity: returns 0 (no fault) or a value in [1, n]. The
// probability per opportunity is chosen per run (swarm), and is zero if this
// kind is disabled for the run or the fault phase is over.
uint64_t Fault(int stream, uint64_t n = 1);
// Multiplies the base probability of a fault kind / enables kinds for this
// scenario. prob_ppm = maximum probability in parts per million.
void EnableFault(int stream, uint32_t max_ppm);
uint64_t FaultsFired(int stream);  // in this run, so far
void DisableFaults();  // from now on (end of the fault phase)

// ---------------------------------------------------------------- schedule
void Yield();             // scheduling point
void Sleep(uint64_t ns);  // simulated sleep
void WorkFor(int steps);  // several scheduling points
uint64_t Step();          // global event sequence number
void SetHeapReadCost(uint32_t ns);  // per 8 bytes that instrumented code reads from the heap
uint64_t PlainAccesses(); // instrumented plain accesses so far
uint64_t NowNs();
void AdvanceNs(uint64_t ns);
int Tid();                // simulated thread id (0 = main)
int NumThreadsAlive();    // including main
int NumThreadsCreated();  // total so far, including main
const char* ThreadName(int tid);
int ThreadTidOf(unsigned long pthread_handle);
uint64_t SleepInterruptions();  // of the current thread, so far
void NoPreempt(bool on);
void SetStepBudget(uint64_t adversarial, uint64_t recovery);
void SetWeakMemory(bool allowed);
void SetRaceDetection(bool on);
void SetClock(double tsc_ghz, uint64_t tick_granularity, uint32_t step_ns,
              uint32_t read_cost_ticks);
// If set, called before each clock read; returns how long it is delayed [ns].
extern uint64_t (*clock_delay)(bool is_ticks);
uint64_t Ticks();         // current tick counter without cost
bool Recovery();          // true once faults stopped and scheduling is fair
// Starts a simulated thread without going through pthread.
int Spawn(void (*fn)(void*), void* arg);
void Join(int tid);

// Relaxed bookkeeping probes: "this rare condition was hit".
void Probe(const char* name);

// ---------------------------------------------------------------- outcome
[[noreturn]] void Fail(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] void FinishOk();  // end the run successfully from anywhere
// If set, called instead of failing on abort(); may call FinishOk.
void SetAbortHook(void (*hook)());
void Note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Reads what the code under test printed to stderr so far (real fd).
size_t CapturedStderr(char* buf, size_t cap);
size_t CapturedStdout(char* buf, size_t cap);

// ---------------------------------------------------------------- heap
struct HeapStats {
  uint64_t allocs, frees, live_blocks, live_bytes;
};
HeapStats Heap();
uint64_t HeapMark();
// Number of live blocks allocated after `mark` (see HeapMark); details of the
// first into *addr/*size.
uint64_t HeapLiveSince(uint64_t mark, const void** addr, size_t* size);
bool HeapContains(const void* p, size_t size);  // inside one live block
void SetAllocReuse(bool lifo_reuse);
// While on, allocation failures can be injected into this thread's mallocs.
void AllocFaults(bool on);
uint64_t AllocFailures();
void AllocFailAt(int64_t nth);  // fail exactly the nth malloc from now (0 = next)
void SetAllocLimit(uint64_t bytes);  // larger requests return null

// ---------------------------------------------------------------- accesses
// Plain access by the current thread for the race detector (e.g. on behalf of
// uninstrumented SIMD stores).
void PlainRead(const void* p, size_t n);
void PlainWrite(const void* p, size_t n);
// Non-temporal store buffer (x86 weakly ordered stores).
void NtStore(void* p, const void* from, size_t n);
void NtDrain();  // sfence by the current thread

// ---------------------------------------------------------------- seams
struct Cpu {
  // Returns false to use the built-in description.
  bool (*cpuid)(uint32_t leaf, uint32_t sub, uint32_t* abcd);
  uint32_t xcr0;
};
extern Cpu cpu;

struct Os {
  // Each returns true if handled. Null = default behaviour.
  bool (*getrandom)(void* buf, size_t len, unsigned flags, long* ret, int* err);
  bool (*open)(const char* path, int flags, int* ret, int* err);
  bool (*read)(int fd, void* buf, size_t n, long* ret, int* err);
  bool (*pread)(int fd, void* buf, size_t n, long off, long* ret, int* err);
  bool (*close)(int fd, int* ret, int* err);
  bool (*ioctl)(int fd, unsigned long req, void* arg, int* ret, int* err);
  bool (*prctl)(int op, int* ret, int* err);
  bool (*perf_event_open)(void* attr, int pid, int cpu, int group, unsigned long flags, long* ret, int* err);
  bool (*getaffinity)(int pid, size_t n, void* mask, long* ret, int* err);
  bool (*setaffinity)(int pid, size_t n, const void* mask, long* ret, int* err);
  bool (*sysconf)(int name, long* ret);
  bool (*uname)(void* buf, int* ret, int* err);
  bool (*stat)(const char* path, int* ret, int* err);  // also access()
  bool (*lseek)(int fd, long off, int whence, long* ret, int* err);
};
extern Os os;
int HwThreads();
void SetHwThreads(int n);

// ---------------------------------------------------------------- driver
struct Scenario {
  const char* property;
  const char* name;
  void (*fn)();
  uint32_t weight;
};
struct Registrar {
  Registrar(const char* property, const char* name, void (*fn)(), uint32_t weight = 1);
};
#define SIM_SCENARIO(prop, name, weight)                                   \
  static void Scenario_##prop##_##name();                                  \
  static ::sim::Registrar reg_##prop##_##name(#prop, #name,                \
                                              &Scenario_##prop##_##name, weight); \
  static void Scenario_##prop##_##name()

// Deterministic data generator for inputs too large to be decisions.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t Next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
};

#define SIM_CHECK(cond, cls, ...)               \
  do {                                          \
    if (!(cond)) ::sim::Fail(cls, __VA_ARGS__); \
  } while (0)

}  // namespace sim
#endif
