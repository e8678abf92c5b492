// Deterministic simulation runtime. NOT instrumented. See rt.h.
#include "rt_int.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

#include <initializer_list>
#include <new>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __executable_start;
extern char __data_start;
extern char __bss_start;
extern char _end;
extern char etext;
void* __cxa_get_globals();
}

namespace sim {

// ============================================================ memory layout
constexpr uintptr_t kArena = 0x200000000000ull;  // fixed => deterministic
constexpr size_t kMaxT = 512;
constexpr size_t kStackSize = 512 << 10;
constexpr size_t kMainStackSize = 16 << 20;
constexpr uintptr_t kStacks = kArena;
static_assert(kMainStackSize + kMaxT * kStackSize < (1ull << 30), "");
constexpr uintptr_t kHeap = kArena + (1ull << 30);
constexpr size_t kHeapSize = 3ull << 30;
constexpr uintptr_t kArenaEnd = kHeap + kHeapSize;
constexpr uintptr_t kShadow = 0x210000000000ull;      // race cells, 8x
constexpr uintptr_t kHeapState = 0x230000000000ull;   // 1 byte per 8
constexpr uintptr_t kDataShadow = 0x240000000000ull;  // for .data/.bss
constexpr uintptr_t kInternal = 0x250000000000ull;    // bump allocator
constexpr size_t kInternalSize = 8ull << 30;

Shared* g_shared;
int g_capture_fd = -1, g_capture_out_fd = -1;
Cpu cpu;
Os os;

static bool g_active = false;  // inside a simulated run
static int g_nopreempt = 0;
static RunConfig g_cfg;

static uintptr_t g_data_lo, g_data_hi;

static uintptr_t g_int_next = kInternal;
static void* IAlloc(size_t n) {
  n = (n + 15) & ~size_t{15};
  void* p = reinterpret_cast<void*>(g_int_next);
  g_int_next += n;
  if (g_int_next > kInternal + kInternalSize) {
    static const char m[] = "sim: internal memory exhausted\n";
    (void)!write(2, m, sizeof(m) - 1);
    _exit(97);
  }
  return p;
}

static void MapFixed(uintptr_t at, size_t n) {
  void* p = mmap(reinterpret_cast<void*>(at), n, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != reinterpret_cast<void*>(at)) {
    perror("sim: mmap");
    _exit(98);
  }
}

void ReserveMemory() {
  MapFixed(kArena, kArenaEnd - kArena);
  // Stacks become accessible one by one, see NewThread.
  mprotect(reinterpret_cast<void*>(kStacks), kHeap - kStacks, PROT_NONE);
  MapFixed(kShadow, (kArenaEnd - kArena) * 8);
  MapFixed(kHeapState, kHeapSize / 8);
  MapFixed(kInternal, kInternalSize);
  g_data_lo = reinterpret_cast<uintptr_t>(&__data_start) & ~uintptr_t{4095};
  g_data_hi = (reinterpret_cast<uintptr_t>(&_end) + 4095) & ~uintptr_t{4095};
  MapFixed(kDataShadow, (g_data_hi - g_data_lo) * 8);
}

// ============================================================ PRNG
struct Prng {
  uint64_t s[2];
  void Seed(uint64_t seed) {
    Rng r(seed);
    s[0] = r.Next();
    s[1] = r.Next() | 1;
  }
  uint64_t Next() {
    uint64_t s1 = s[0];
    const uint64_t s0 = s[1];
    s[0] = s0;
    s1 ^= s1 << 23;
    s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return s[1] + s0;
  }
  uint64_t Below(uint64_t n) {
    return n <= 1 ? 0 : static_cast<uint64_t>((static_cast<unsigned __int128>(Next()) * n) >> 64);
  }
  bool Ppm(uint32_t ppm) { return ppm && Below(1000000) < ppm; }
  // Log-uniform in [1, n].
  uint64_t LogUniform(uint64_t n) {
    if (n <= 1) return n;
    int bits = 64 - __builtin_clzll(n);
    uint64_t hi = 1ull << (1 + Below(bits));
    if (hi > n) hi = n;
    return 1 + Below(hi);
  }
};
static Prng g_rng_gen, g_rng_sched, g_rng_fault;

// ============================================================ state
struct VCR {
  int ref;
  int n;  // entries valid
  int cap;
  uint32_t c[];
};
static VCR* g_vcr_free[64];

enum State : uint8_t { kRunnable, kFutex, kJoin, kMonitor, kSleep, kMutex, kCond, kGuard, kDone };

struct TlsEntry {
  void* ctl;
  void* mem;
};
struct AtExit {
  void (*fn)(void*);
  void* obj;
};
struct NtBuf {
  uintptr_t addr;
  uint32_t n;
  uint8_t bytes[64];
};

struct Thread {
  int tid;
  State state;
  void* rsp;
  uintptr_t stack_lo, stack_hi;
  uint32_t vc[kMaxT];
  VCR* acq_pending;
  VCR* rel_fence;
  uint64_t sc_gseq;
  // Blocking.
  const void* wait_addr;
  int join_target;
  uint64_t wake_step;  // spurious wake at this step (0 = none)
  uint64_t wake_ns;    // timer (0 = none)
  int wake_result;     // errno if woken by wake_step
  int wake_reason;     // 0 normal, 1 wake_step, 2 timer
  bool armed;
  uintptr_t line;
  // Scheduling.
  uint64_t ops;
  uint64_t stalled_until;
  uint32_t prio;
  uint64_t stall_at[4];
  uint64_t stall_len[4];
  int num_stalls;
  // pthread.
  void* (*start)(void*);
  void* arg;
  void* retval;
  bool detached, joined;
  char name[16];
  // Saved per-OS-thread state.
  int saved_errno;
  uint64_t sleep_interruptions;
  uint64_t eh[2];
  TlsEntry tls[64];
  int num_tls;
  AtExit atexit[64];
  int num_atexit;
  bool alloc_faults;
  NtBuf* nt;
  int num_nt;
};

static Thread* g_th[kMaxT];
static int g_nth = 0;  // created
static int g_alive = 0;
static Thread* g_cur = nullptr;

static uint64_t g_runnable[kMaxT / 64];
static inline void SetRunnable(int t, bool on) {
  if (on) g_runnable[t >> 6] |= 1ull << (t & 63);
  else g_runnable[t >> 6] &= ~(1ull << (t & 63));
}

static uint64_t g_step = 0;
static uint64_t g_next_event = 0;  // step at which timed things need a look
static uint64_t g_budget_adv = 150000, g_budget_rec = 3000000;
static bool g_recovery = false;
static uint64_t g_rr_quantum = 0;
static uint64_t g_consecutive = 0;
static int g_num_timed = 0;
static int g_num_stalled = 0;

static uint64_t g_now_ns = 1000000000ull;
static double g_tsc_ghz = 2.0;
static uint64_t g_tick_gran = 1;
static uint32_t g_step_ns = 20;
static uint32_t g_read_ticks = 30;

// Strategy for this run.
enum Strategy { kRandomWalk, kPct, kBurst, kRoundRobin, kNumStrategies };
static Strategy g_strategy;
static uint32_t g_switch_ppm;
static uint32_t g_low_prio = 0;
static uint64_t g_change[32];
static int g_num_change;
static bool g_weak = false;
static uint32_t g_stale_ppm = 0;
static bool g_races = true;
static uint32_t g_fault_ppm[kNumStreams];
static bool g_fault_off = false;

static uint32_t g_idx[kNumStreams];
static size_t g_rp[kNumStreams], g_rp_end[kNumStreams];

static inline void HashMix(uint64_t v) {
  uint64_t h = g_shared->hash;
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  g_shared->hash = h ^ (h >> 32);
}

const char* StreamName(int s) {
  static const char* names[kNumStreams] = {
      "gen", "sched", "stale_load", "plan", "late_start", "stall", "futex_eintr",
      "futex_spurious", "monitor_spurious", "sleep_eintr", "clock_jump",
      "alloc_fail", "thread_create_fail", "entropy_fail", "entropy_short",
      "entropy_adversarial", "syscall_fail", "short_io", "eintr_io", "nt_delay",
      "file_fault", "affinity_fail", "cost_outlier", "custom1", "custom2", "custom3"};
  return names[s];
}

// ============================================================ outcome
static void AppendNotes(const char* s) {
  size_t n = strlen(g_shared->notes);
  size_t m = strlen(s);
  if (n + m + 2 >= sizeof(g_shared->notes)) return;
  memcpy(g_shared->notes + n, s, m);
  g_shared->notes[n + m] = '\n';
  g_shared->notes[n + m + 1] = 0;
}
void Note(const char* fmt, ...) {
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  AppendNotes(buf);
}

static size_t ReadFd(int fd, char* buf, size_t cap) {
  if (fd < 0 || cap == 0) return 0;
  long n = syscall(SYS_pread64, fd, buf, cap - 1, 0L);
  if (n < 0) n = 0;
  buf[n] = 0;
  return static_cast<size_t>(n);
}
size_t CapturedStderr(char* buf, size_t cap) {
  fflush(stderr);
  return ReadFd(g_capture_fd, buf, cap);
}
size_t CapturedStdout(char* buf, size_t cap) {
  fflush(stdout);
  return ReadFd(g_capture_out_fd, buf, cap);
}

static void Finalize(int status) {
  g_active = false;
  g_shared->status = status;
  g_shared->steps = g_step;
  g_shared->sim_ns = g_now_ns - 1000000000ull;
  g_shared->threads = static_cast<uint32_t>(g_nth);
}

[[noreturn]] static void FailV(const char* cls, const char* fmt, va_list ap) {
  g_active = false;
  snprintf(g_shared->cls, sizeof(g_shared->cls), "%s", cls);
  vsnprintf(g_shared->msg, sizeof(g_shared->msg), fmt, ap);
  Finalize(2);
  _exit(42);
}
void Fail(const char* cls, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  FailV(cls, fmt, ap);
}
void FinishOk() {
  Finalize(1);
  _exit(0);
}

void Probe(const char* name) {
  for (int i = 0; i < kMaxProbes; ++i) {
    ProbeCount& p = g_shared->probes[i];
    if (p.name[0] == 0) snprintf(p.name, sizeof(p.name), "%s", name);
    if (strncmp(p.name, name, sizeof(p.name) - 1) == 0) {
      ++p.count;
      return;
    }
  }
}

// ============================================================ decisions
static inline void LogDecision(int stream, uint32_t idx, uint64_t v) {
  const uint64_t n = g_shared->num_decisions++;
  if (n < kMaxDecisions) {
    Decision& d = g_shared->decisions[n];
    d.stream = static_cast<uint32_t>(stream);
    d.idx = idx;
    d.value = v;
  }
}

// In replay mode returns the recorded value or 0; else logs `proposed`.
static inline uint64_t Decide(int stream, uint64_t n, uint64_t proposed) {
  const uint32_t idx = g_idx[stream]++;
  uint64_t v = proposed;
  if (g_cfg.replay) {
    v = 0;
    size_t& p = g_rp[stream];
    while (p < g_rp_end[stream] && g_cfg.replay_decisions[p].idx < idx) ++p;
    if (p < g_rp_end[stream] && g_cfg.replay_decisions[p].idx == idx) {
      v = g_cfg.replay_decisions[p].value;
      if (n && v >= n) v = n - 1;
    }
  }
  if (v != 0) LogDecision(stream, idx, v);
  if (stream != kSched && v != 0)
    HashMix((static_cast<uint64_t>(stream) << 56) ^ (static_cast<uint64_t>(idx) << 24) ^ v);
  return v;
}

uint64_t Gen(uint64_t n) {
  if (n <= 1) return 0;
  return Decide(kGen, n, g_cfg.replay ? 0 : g_rng_gen.Below(n));
}

void EnableFault(int stream, uint32_t max_ppm) {
  if (g_cfg.replay) {
    g_fault_ppm[stream] = 1;  // unused, but nonzero
    return;
  }
  // Swarm: half of the runs do not have this fault kind at all.
  if (g_rng_fault.Below(2) == 0) {
    g_fault_ppm[stream] = 0;
  } else {
    g_fault_ppm[stream] = max_ppm >> g_rng_fault.Below(6);
  }
}
void DisableFaults() { g_fault_off = true; }

uint64_t Fault(int stream, uint64_t n) {
  if (!g_active || g_fault_off) return 0;
  ++g_shared->offered[stream];
  uint64_t p = 0;
  if (!g_cfg.replay) {
    if (g_fault_ppm[stream] == 0) {
      // Still consumes an index so that replays line up.
      ++g_idx[stream];
      return 0;
    }
    if (g_rng_fault.Ppm(g_fault_ppm[stream])) p = g_rng_fault.LogUniform(n);
  }
  const uint64_t v = Decide(stream, n + 1, p);
  if (v) ++g_shared->fired[stream];
  return v;
}

// ============================================================ vector clocks
static VCR* VcNew(int n) {
  const int cls = (n + 15) / 16;
  VCR* v = g_vcr_free[cls];
  if (v) {
    memcpy(&g_vcr_free[cls], v->c, sizeof(VCR*));
  } else {
    v = static_cast<VCR*>(IAlloc(sizeof(VCR) + sizeof(uint32_t) * 16 * (cls ? cls : 1)));
    v->cap = 16 * (cls ? cls : 1);
  }
  v->ref = 1;
  v->n = n;
  return v;
}
static inline void VcUnref(VCR* v) {
  if (v && --v->ref == 0) {
    const int cls = v->cap / 16;
    memcpy(v->c, &g_vcr_free[cls], sizeof(VCR*));
    g_vcr_free[cls] = v;
  }
}
static inline VCR* VcRef(VCR* v) {
  if (v) ++v->ref;
  return v;
}
static VCR* VcSnapshot(const Thread* t) {
  VCR* v = VcNew(g_nth);
  memcpy(v->c, t->vc, sizeof(uint32_t) * static_cast<size_t>(g_nth));
  return v;
}
static inline void VcAcquire(Thread* t, const VCR* v) {
  if (!v) return;
  for (int i = 0; i < v->n; ++i)
    if (v->c[i] > t->vc[i]) t->vc[i] = v->c[i];
}
// Returns a new reference to the join of a (may be null) and b (may be null).
static VCR* VcJoin(VCR* a, VCR* b) {
  if (!a) return VcRef(b);
  if (!b) return VcRef(a);
  VCR* r = VcNew(a->n > b->n ? a->n : b->n);
  for (int i = 0; i < r->n; ++i) {
    const uint32_t x = i < a->n ? a->c[i] : 0, y = i < b->n ? b->c[i] : 0;
    r->c[i] = x > y ? x : y;
  }
  return r;
}
static inline void Tick(Thread* t) { ++t->vc[t->tid]; }
static VCR* Release(Thread* t) {
  VCR* v = VcSnapshot(t);
  Tick(t);
  return v;
}

// A generic synchronisation object (mutex, guard, thread exit).
struct SyncObj {
  const void* key;
  VCR* vc;
  int owner;   // tid or -1
  int depth;
  bool done;
};
constexpr int kMaxSync = 4096;
static SyncObj* g_sync;
static SyncObj* Sync(const void* key) {
  size_t h = (reinterpret_cast<uintptr_t>(key) * 0x9E3779B97F4A7C15ull) >> 52;
  for (;;) {
    SyncObj& s = g_sync[h & (kMaxSync - 1)];
    if (s.key == key) return &s;
    if (s.key == nullptr) {
      s.key = key;
      s.owner = -1;
      return &s;
    }
    ++h;
  }
}
static void SyncRelease(SyncObj* s, Thread* t) {
  VCR* mine = Release(t);
  VCR* j = VcJoin(s->vc, mine);
  VcUnref(s->vc);
  VcUnref(mine);
  s->vc = j;
}

// ============================================================ fibers
extern "C" void sim_switch(void** save_rsp, void* new_rsp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static void SwitchTo(Thread* next) {
  Thread* prev = g_cur;
  if (next == prev) return;
  ++g_shared->switches;
  g_consecutive = 0;
  prev->saved_errno = errno;
  uint64_t* eh = static_cast<uint64_t*>(__cxa_get_globals());
  prev->eh[0] = eh[0];
  prev->eh[1] = eh[1];
  g_cur = next;
  eh[0] = next->eh[0];
  eh[1] = next->eh[1];
  HashMix((g_step << 10) ^ static_cast<uint64_t>(next->tid));
  sim_switch(&prev->rsp, next->rsp);
  // Back in prev.
  errno = g_cur->saved_errno;
}

// ============================================================ scheduler
static void MakeRunnable(Thread* t) {
  if (t->wake_step || t->wake_ns) {
    --g_num_timed;
    t->wake_step = 0;
    t->wake_ns = 0;
  }
  t->state = kRunnable;
  SetRunnable(t->tid, true);
}

static void RecomputeEvents() {
  g_next_event = ~0ull;
  for (int i = 0; i < g_nth; ++i) {
    const Thread* t = g_th[i];
    if (t->state == kDone) continue;
    if (t->wake_step && t->wake_step < g_next_event) g_next_event = t->wake_step;
    if (t->stalled_until && t->stalled_until < g_next_event) g_next_event = t->stalled_until;
  }
  if (!g_recovery && g_budget_adv < g_next_event) g_next_event = g_budget_adv;
}

static void ProcessEvents() {
  if (!g_recovery && g_step >= g_budget_adv) {
    g_recovery = true;
    g_fault_off = true;
    g_rr_quantum = 0;
    for (int i = 0; i < g_nth; ++i) g_th[i]->stalled_until = 0;
    g_num_stalled = 0;
  }
  for (int i = 0; i < g_nth; ++i) {
    Thread* t = g_th[i];
    if (t->state == kDone) continue;
    if (t->stalled_until && t->stalled_until <= g_step) {
      t->stalled_until = 0;
      --g_num_stalled;
    }
    if (t->wake_step && t->wake_step <= g_step) {
      t->wake_reason = 1;
      MakeRunnable(t);
    }
  }
  RecomputeEvents();
}

static void ProcessTimers() {
  if (!g_num_timed) return;
  for (int i = 0; i < g_nth; ++i) {
    Thread* t = g_th[i];
    if (t->wake_ns && t->wake_ns <= g_now_ns && t->state != kDone && t->state != kRunnable) {
      t->wake_reason = 2;
      MakeRunnable(t);
    }
  }
}

static bool Eligible(int tid) {
  return (g_runnable[tid >> 6] >> (tid & 63) & 1) && !g_th[tid]->stalled_until;
}

// List of eligible tids.
static int ListEligible(int* out) {
  int n = 0;
  const int words = (g_nth + 63) / 64;
  for (int w = 0; w < words; ++w) {
    uint64_t m = g_runnable[w];
    while (m) {
      const int t = w * 64 + __builtin_ctzll(m);
      m &= m - 1;
      if (!g_th[t]->stalled_until) out[n++] = t;
    }
  }
  return n;
}

static void DescribeThreads(char* buf, size_t cap) {
  static const char* st[] = {"runnable", "futex-wait", "join", "monitor-wait", "sleep",
                             "mutex", "cond", "guard", "done"};
  size_t n = 0;
  int shown = 0;
  for (int i = 0; i < g_nth && n + 64 < cap && shown < 12; ++i) {
    Thread* t = g_th[i];
    if (t->state == kDone) continue;
    ++shown;
    n += static_cast<size_t>(snprintf(buf + n, cap - n, " t%d(%s)=%s", i, t->name, st[t->state]));
  }
}

enum Kind { kNormal = 0, kYieldPoint = 1, kBlocked = 2 };

static Thread* Pick(int kind) {
  int el[kMaxT];
  int n = ListEligible(el);
  while (n == 0) {
    // Only stalled or timed threads are left.
    bool any_runnable = false;
    for (size_t w = 0; w < kMaxT / 64; ++w) any_runnable |= g_runnable[w] != 0;
    if (any_runnable) {
      // All runnable threads are stalled: end the earliest stall.
      Thread* best = nullptr;
      for (int i = 0; i < g_nth; ++i) {
        Thread* t = g_th[i];
        if ((g_runnable[i >> 6] >> (i & 63) & 1) &&
            (!best || t->stalled_until < best->stalled_until))
          best = t;
      }
      best->stalled_until = 0;
      --g_num_stalled;
    } else if (g_num_timed) {
      // Jump to the next timed event.
      Thread* best = nullptr;
      for (int i = 0; i < g_nth; ++i) {
        Thread* t = g_th[i];
        if (t->state == kDone || !t->wake_step) continue;
        if (!best || t->wake_step < best->wake_step) best = t;
      }
      if (best) {
        best->wake_reason = 1;
        MakeRunnable(best);
      } else {
        for (int i = 0; i < g_nth; ++i) {
          Thread* t = g_th[i];
          if (t->state == kDone || !t->wake_ns) continue;
          if (!best || t->wake_ns < best->wake_ns) best = t;
        }
        if (best->wake_ns > g_now_ns) g_now_ns = best->wake_ns;
        best->wake_reason = 2;
        MakeRunnable(best);
      }
      RecomputeEvents();
    } else {
      char buf[700];
      buf[0] = 0;
      DescribeThreads(buf, sizeof(buf));
      Fail("deadlock", "no thread can run and none is waiting for a timer:%s", buf);
    }
    n = ListEligible(el);
  }
  if (n == 1) return g_th[el[0]];

  const bool cur_ok = kind != kBlocked && Eligible(g_cur->tid);
  // Default rule: continue unless yielding; else next in cyclic order.
  int def;
  if (cur_ok && kind == kNormal && g_consecutive < 5000) {
    def = g_cur->tid;
  } else {
    def = el[0];
    for (int i = 0; i < n; ++i)
      if (el[i] > g_cur->tid) {
        def = el[i];
        break;
      }
  }
  if (g_recovery) {
    if (cur_ok && kind == kNormal && g_rr_quantum++ < 32) return g_cur;
    g_rr_quantum = 0;
    int nx = el[0];
    for (int i = 0; i < n; ++i)
      if (el[i] > g_cur->tid) {
        nx = el[i];
        break;
      }
    return g_th[nx];
  }

  int want = def;
  if (!g_cfg.replay) {
    switch (g_strategy) {
      case kRandomWalk:
        if (!cur_ok || kind == kYieldPoint) {
          want = el[g_rng_sched.Below(static_cast<uint64_t>(n))];
        } else if (g_rng_sched.Ppm(g_switch_ppm)) {
          want = el[g_rng_sched.Below(static_cast<uint64_t>(n))];
        } else if (g_consecutive < 5000) {
          want = g_cur->tid;
        }
        break;
      case kPct: {
        for (int i = 0; i < g_num_change; ++i) {
          if (g_change[i] <= g_step) {
            if (cur_ok) g_cur->prio = --g_low_prio;
            g_change[i] = g_change[--g_num_change];
            --i;
          }
        }
        if (kind == kYieldPoint || g_consecutive >= 5000) g_cur->prio = --g_low_prio;
        want = el[0];
        for (int i = 1; i < n; ++i)
          if (g_th[el[i]]->prio > g_th[want]->prio) want = el[i];
        break;
      }
      case kBurst:
        // Long exclusive bursts, occasionally interrupted by short ones.
        if (!cur_ok || (kind == kYieldPoint && g_rng_sched.Below(4) == 0) ||
            g_rng_sched.Ppm(g_switch_ppm / 8)) {
          want = el[g_rng_sched.Below(static_cast<uint64_t>(n))];
        } else if (kind == kYieldPoint) {
          want = def;
        } else if (g_consecutive < 5000) {
          want = g_cur->tid;
        }
        break;
      case kRoundRobin:
        if (cur_ok && kind == kNormal && g_rr_quantum++ < g_switch_ppm) {
          want = g_cur->tid;
        } else {
          g_rr_quantum = 0;
          want = el[0];
          for (int i = 0; i < n; ++i)
            if (el[i] > g_cur->tid) {
              want = el[i];
              break;
            }
        }
        break;
      default:
        break;
    }
  }
  const uint64_t v =
      Decide(kSched, kMaxT + 1, want == def ? 0 : static_cast<uint64_t>(want) + 1);
  if (g_cfg.replay) {
    if (v == 0 || !Eligible(static_cast<int>(v - 1)) || static_cast<int>(v - 1) >= g_nth) return g_th[def];
    return g_th[v - 1];
  }
  return g_th[want];
}

[[noreturn]] static void FailHang() {
  char buf[700];
  buf[0] = 0;
  DescribeThreads(buf, sizeof(buf));
  Fail("hang", "no completion within %llu fair, fault-free steps:%s",
       static_cast<unsigned long long>(g_budget_rec), buf);
}

static uint64_t g_plain_since_sched = 0;

static inline void SchedPoint(int kind) {
  if (!g_active || g_nopreempt) return;
  Thread* t = g_cur;
  ++g_step;
  ++g_consecutive;
  ++t->ops;
  g_plain_since_sched = 0;
  g_now_ns += g_step_ns;
  if (t->num_stalls && !g_recovery) {
    for (int i = 0; i < t->num_stalls; ++i) {
      if (t->stall_at[i] == t->ops && !t->stalled_until) {
        t->stalled_until = g_step + t->stall_len[i];
        ++g_num_stalled;
        ++g_shared->fired[fStall];
        if (t->stalled_until < g_next_event) g_next_event = t->stalled_until;
      }
    }
  }
  if (g_step >= g_next_event) ProcessEvents();
  if (g_num_timed) ProcessTimers();
  if (g_step > g_budget_adv + g_budget_rec) FailHang();
  if (g_nth == 1 && g_alive == 1) {
    // Alone, but a stall or timer may exist.
    t->stalled_until = 0;
    return;
  }
  Thread* next = Pick(kind);
  if (next != t) SwitchTo(next);
}

// Blocks the current thread (state and wait fields already set).
static void Block() {
  Thread* t = g_cur;
  SetRunnable(t->tid, false);
  t->wake_reason = 0;
  if (t->wake_step || t->wake_ns) {
    ++g_num_timed;
    if (t->wake_step && t->wake_step < g_next_event) g_next_event = t->wake_step;
  }
  ++g_step;
  if (g_step >= g_next_event) ProcessEvents();
  if (g_step > g_budget_adv + g_budget_rec) FailHang();
  Thread* next = Pick(kBlocked);
  SwitchTo(next);
}

static void ThreadExit();

static void FiberMain() {
  Thread* t = g_cur;
  errno = 0;
  t->retval = t->start(t->arg);
  ThreadExit();
  __builtin_trap();
}

static void SetupStack(Thread* t) {
  uintptr_t top = (t->stack_hi - 64) & ~uintptr_t{15};
  // Uninitialised variables have the same odd values in every run.
  const size_t fill = t->tid == 0 ? 12 << 10 : 4 << 10;
  memset(reinterpret_cast<void*>(top - fill), 0xA5, fill);
  uint64_t* sp = reinterpret_cast<uint64_t*>(top);
  *--sp = 0;  // fake return address / alignment
  *--sp = reinterpret_cast<uint64_t>(&FiberMain);
  for (int i = 0; i < 6; ++i) *--sp = 0;
  --sp;
  uint32_t mxcsr;
  uint16_t fcw;
  asm volatile("stmxcsr %0" : "=m"(mxcsr));
  asm volatile("fnstcw %0" : "=m"(fcw));
  reinterpret_cast<uint32_t*>(sp)[0] = mxcsr;
  reinterpret_cast<uint32_t*>(sp)[1] = fcw;
  t->rsp = sp;
}

static Thread* NewThread(void* (*fn)(void*), void* arg) {
  if (g_nth >= static_cast<int>(kMaxT)) {
    // Not a property of the code under test.
    Fail("sim-limit", "more than %zu simulated threads", kMaxT);
  }
  Thread* t = static_cast<Thread*>(IAlloc(sizeof(Thread)));
  memset(static_cast<void*>(t), 0, sizeof(*t));
  t->tid = g_nth;
  t->start = fn;
  t->arg = arg;
  t->join_target = -1;
  snprintf(t->name, sizeof(t->name), "thread%d", t->tid);
  if (t->tid == 0) {
    t->stack_lo = kStacks;
    t->stack_hi = kStacks + kMainStackSize;
  } else {
    t->stack_lo = kStacks + kMainStackSize + static_cast<uintptr_t>(t->tid - 1) * kStackSize;
    t->stack_hi = t->stack_lo + kStackSize;
  }
  // The first page of each stack also guards the end of the previous one.
  mprotect(reinterpret_cast<void*>(t->stack_lo + 4096), t->stack_hi - t->stack_lo - 4096, PROT_READ | PROT_WRITE);
  g_th[g_nth++] = t;
  ++g_alive;
  t->vc[t->tid] = 1;
  if (g_cur) {
    for (int i = 0; i < g_nth; ++i)
      if (i != t->tid) t->vc[i] = g_cur->vc[i];
    Tick(g_cur);
  }
  // Stall plan for this thread (decided now; streams keep replay stable).
  if (!g_cfg.replay) {
    t->prio = 1000000 + static_cast<uint32_t>(g_rng_sched.Below(1000000));
  }
  for (int k = 0; k < 2; ++k) {
    uint64_t v = 0;
    if (!g_cfg.replay && g_fault_ppm[fStall] && !g_fault_off &&
        g_rng_fault.Ppm(g_fault_ppm[fStall])) {
      const uint64_t at = g_rng_fault.LogUniform(2000);
      const uint64_t len = g_rng_fault.LogUniform(20000);
      v = 1 + at * 65536 + len;
    }
    v = Decide(kStallWhere, 0, v);
    if (v) {
      t->stall_at[t->num_stalls] = (v - 1) / 65536;
      t->stall_len[t->num_stalls] = (v - 1) % 65536;
      ++t->num_stalls;
    }
  }
  SetupStack(t);
  MakeRunnable(t);
  if (t->tid != 0) {
    const uint64_t late = Fault(fLateStart, 30000);
    if (late) {
      t->stalled_until = g_step + late;
      ++g_num_stalled;
      if (t->stalled_until < g_next_event) g_next_event = t->stalled_until;
    }
  }
  return t;
}

static void RunTlsDtors(Thread* t) {
  while (t->num_atexit) {
    AtExit a = t->atexit[--t->num_atexit];
    a.fn(a.obj);
  }
}

static void ThreadExit() {
  Thread* t = g_cur;
  SchedPoint(kNormal);
  RunTlsDtors(t);
  NtDrain();
  SyncRelease(Sync(t), t);
  t->state = kDone;
  SetRunnable(t->tid, false);
  --g_alive;
  for (int i = 0; i < g_nth; ++i) {
    Thread* o = g_th[i];
    if (o->state == kJoin && o->join_target == t->tid) MakeRunnable(o);
  }
  ++g_step;
  Thread* next = Pick(kBlocked);
  SwitchTo(next);
  __builtin_trap();
}

static void JoinThread(int target) {
  SchedPoint(kNormal);
  Thread* t = g_th[target];
  while (t->state != kDone) {
    g_cur->state = kJoin;
    g_cur->join_target = target;
    Block();
  }
  VcAcquire(g_cur, Sync(t)->vc);
  t->joined = true;
}

// ============================================================ public: schedule
void Yield() { SchedPoint(kNormal); }
void WorkFor(int steps) {
  for (int i = 0; i < steps; ++i) SchedPoint(kNormal);
}
uint64_t Step() { return g_step; }
uint64_t NowNs() { return g_now_ns; }
void AdvanceNs(uint64_t ns) { g_now_ns += ns; }
int Tid() { return g_cur ? g_cur->tid : -1; }
int NumThreadsAlive() { return g_alive; }
int NumThreadsCreated() { return g_nth; }
const char* ThreadName(int tid) { return g_th[tid]->name; }
void NoPreempt(bool on) { g_nopreempt += on ? 1 : -1; }
void SetStepBudget(uint64_t a, uint64_t r) {
  g_budget_adv = g_step + a;
  g_budget_rec = r;
  RecomputeEvents();
}
void SetWeakMemory(bool allowed) {
  if (!allowed) g_weak = false;
}
void SetRaceDetection(bool on) { g_races = on; }
void SetClock(double ghz, uint64_t gran, uint32_t step_ns, uint32_t read_ticks) {
  g_tsc_ghz = ghz;
  g_tick_gran = gran ? gran : 1;
  g_step_ns = step_ns;
  g_read_ticks = read_ticks;
}
bool Recovery() { return g_recovery; }

static uint64_t RawTicks() {
  return static_cast<uint64_t>(static_cast<long double>(g_now_ns) * g_tsc_ghz);
}
uint64_t Ticks() {
  const uint64_t t = RawTicks();
  return t - t % g_tick_gran;
}

void Sleep(uint64_t ns) {
  SchedPoint(kNormal);
  Thread* t = g_cur;
  t->state = kSleep;
  t->wake_ns = g_now_ns + (ns ? ns : 1);
  Block();
}

struct SpawnArg {
  void (*fn)(void*);
  void* arg;
};
static void* SpawnTramp(void* p) {
  SpawnArg* a = static_cast<SpawnArg*>(p);
  a->fn(a->arg);
  return nullptr;
}
int Spawn(void (*fn)(void*), void* arg) {
  SpawnArg* a = static_cast<SpawnArg*>(IAlloc(sizeof(SpawnArg)));
  a->fn = fn;
  a->arg = arg;
  Thread* t = NewThread(&SpawnTramp, a);
  const int tid = t->tid;
  SchedPoint(kNormal);
  return tid;
}
void Join(int tid) { JoinThread(tid); }

// ============================================================ shadow / races
struct Cell {
  uint32_t epoch;  // 0 = empty
  uint32_t pc;
  uint16_t tid;
  uint8_t mask;
  uint8_t flags;  // 1 write, 2 atomic
  uint32_t atomic_mask;  // first cell of the granule: bytes which have a Loc
};
static_assert(sizeof(Cell) == 16, "");

static inline Cell* Cells(uintptr_t a) {
  if (a - kArena < kArenaEnd - kArena)
    return reinterpret_cast<Cell*>(kShadow + ((a - kArena) & ~uintptr_t{7}) * 8);
  if (a - g_data_lo < g_data_hi - g_data_lo)
    return reinterpret_cast<Cell*>(kDataShadow + ((a - g_data_lo) & ~uintptr_t{7}) * 8);
  return nullptr;
}

static void ClearShadow(uintptr_t a, size_t n) {
  uintptr_t lo = a & ~uintptr_t{7}, hi = (a + n + 7) & ~uintptr_t{7};
  Cell* c = Cells(lo);
  if (!c || hi <= lo) return;
  const size_t bytes = (hi - lo) * 8;
  if (bytes >= (1u << 20)) {
    uintptr_t s = reinterpret_cast<uintptr_t>(c), e = s + bytes;
    uintptr_t ps = (s + 4095) & ~uintptr_t{4095}, pe = e & ~uintptr_t{4095};
    memset(c, 0, ps - s);
    madvise(reinterpret_cast<void*>(ps), pe - ps, MADV_DONTNEED);
    memset(reinterpret_cast<void*>(pe), 0, e - pe);
  } else {
    memset(c, 0, bytes);
  }
}

static inline uint8_t* StatePtr(uintptr_t a) {
  return reinterpret_cast<uint8_t*>(kHeapState + ((a - kHeap) >> 3));
}

struct Block_ {
  uintptr_t addr;
  size_t size;
  uint32_t pc;
  uint32_t state;  // 1 live, 2 freed
  uint32_t free_pc;
  uint32_t seq;
};
static Block_* FindBlock(uintptr_t a);

[[noreturn]] static void FailHeap(uintptr_t a, size_t n, bool write, uint32_t pc, uint8_t st) {
  Block_* b = FindBlock(a);
  char where[200] = "";
  if (b)
    snprintf(where, sizeof(where), "; nearest block [%p,+%zu) #%u allocated at pc 0x%x%s",
             reinterpret_cast<void*>(b->addr), b->size, b->seq, b->pc,
             b->state == 2 ? " (freed)" : "");
  Fail(st == 0xFD ? "use-after-free" : "heap-out-of-bounds",
       "%s of %zu bytes at %p, pc 0x%x%s", write ? "write" : "read", n,
       reinterpret_cast<void*>(a), pc, where);
}

static inline void HeapCheck(uintptr_t a, size_t n, bool write, uint32_t pc) {
  if (a - kHeap >= kHeapSize) return;
  uintptr_t g = a & ~uintptr_t{7};
  const uintptr_t end = a + n;
  for (; g < end; g += 8) {
    const uint8_t st = *StatePtr(g);
    if (__builtin_expect(st == 8, 1)) continue;
    if (st >= 1 && st <= 7) {
      const uintptr_t last = (end < g + 8 ? end : g + 8) - g;
      if (last <= st) continue;
    }
    FailHeap(a, n, write, pc, st);
  }
}

static uint32_t g_evict = 0;
static void DropLoc(uintptr_t granule, uint32_t mask);

[[noreturn]] static void FailRace(uintptr_t a, const Cell& c, bool write, bool atomic, uint32_t pc) {
  Fail("data-race",
       "%s%s by t%d at pc 0x%x races with %s%s by t%d at pc 0x%x, address %p",
       atomic ? "atomic " : "", write ? "write" : "read", g_cur->tid, pc,
       c.flags & 2 ? "atomic " : "", c.flags & 1 ? "write" : "read", c.tid, c.pc,
       reinterpret_cast<void*>(a));
}

static inline void GranuleAccess(uintptr_t a, Cell* cells, uint8_t mask, uint8_t flags, uint32_t pc) {
  Thread* t = g_cur;
  const uint32_t epoch = t->vc[t->tid];
  const uint16_t tid = static_cast<uint16_t>(t->tid);
  int slot = -1;
  for (int i = 0; i < 4; ++i) {
    Cell& c = cells[i];
    if (c.epoch == 0) {
      if (slot < 0) slot = i;
      continue;
    }
    if (c.tid == tid) {
      if (c.mask == mask && c.flags == flags) {
        slot = i;
      } else if ((c.mask & ~mask) == 0 && (flags & 1) && !(flags & 2)) {
        // Stronger access supersedes.
        slot = i;
      }
      continue;
    }
    if ((c.mask & mask) == 0) continue;
    if (!((c.flags | flags) & 1)) continue;
    if ((c.flags & flags) & 2) continue;
    if (c.epoch <= t->vc[c.tid]) {
      // Ordered before us: superseded by a write.
      if ((flags & 1) && (c.mask & ~mask) == 0 && slot < 0) slot = i;
      continue;
    }
    if (g_races) FailRace(a, c, flags & 1, flags & 2, pc);
  }
  if (slot < 0) {
    // Prefer evicting an access that happens-before us.
    for (int i = 0; i < 4; ++i) {
      if (cells[i].epoch <= t->vc[cells[i].tid] && (cells[i].flags == flags)) {
        slot = i;
        break;
      }
    }
    if (slot < 0) slot = static_cast<int>(g_evict++ & 3);
  }
  Cell& c = cells[slot];
  c.epoch = epoch;
  c.pc = pc;
  c.tid = tid;
  c.mask = mask;
  c.flags = flags;
  if (flags == 1 && (cells[0].atomic_mask & mask)) {
    // Plain (re)initialisation of an atomic variable.
    DropLoc(a & ~uintptr_t{7}, cells[0].atomic_mask & mask);
    cells[0].atomic_mask &= ~static_cast<uint32_t>(mask);
  }
}

static int g_num_armed = 0;
static void DisarmMonitors(uintptr_t a, size_t n) {
  for (int i = 0; i < g_nth; ++i) {
    Thread* t = g_th[i];
    if (!t->armed || t == g_cur) continue;
    if (t->line < a + n && a < t->line + 64) {
      t->armed = false;
      --g_num_armed;
      if (t->state == kMonitor) MakeRunnable(t);
    }
  }
}

static uint64_t g_max_plain = 150000000ull;
static uint32_t g_heap_read_ns = 0;

static inline void PlainAccess(uintptr_t a, size_t n, bool write, uint32_t pc) {
  if (!g_active) return;
  if (__builtin_expect(++g_plain_since_sched > g_max_plain, 0)) {
    Fail("hang", "unbounded loop without any scheduling point, pc 0x%x", pc);
  }
  Cell* cells = Cells(a);
  if (!cells) return;
  HeapCheck(a, n, write, pc);
  if (g_num_armed && write) DisarmMonitors(a, n);
  if (g_heap_read_ns && !write && a - kHeap < kHeapSize) g_now_ns += g_heap_read_ns * ((n + 7) / 8);
  if (!g_races) {
    if (write) {
      const uintptr_t last = a + n;
      for (uintptr_t g = a & ~uintptr_t{7}; g < last; g += 8, cells += 4) {
        if (!cells[0].atomic_mask) continue;
        DropLoc(g, cells[0].atomic_mask);
        cells[0].atomic_mask = 0;
      }
    }
    return;
  }
  // A thread's own stack while no one else runs is still recorded: closures
  // live there.
  ++g_shared->plain_accesses;
  uintptr_t g = a & ~uintptr_t{7};
  const uintptr_t end = a + n;
  for (; g < end; g += 8, cells += 4) {
    const uintptr_t lo = a > g ? a - g : 0;
    const uintptr_t hi = end < g + 8 ? end - g : 8;
    const uint8_t mask = static_cast<uint8_t>(((1u << hi) - 1) & ~((1u << lo) - 1));
    GranuleAccess(g, cells, mask, write ? 1 : 0, pc);
  }
}

void SetHeapReadCost(uint32_t ns) { g_heap_read_ns = ns; }
uint64_t PlainAccesses() { return g_shared->plain_accesses; }
void PlainRead(const void* p, size_t n) {
  PlainAccess(reinterpret_cast<uintptr_t>(p), n, false,
              static_cast<uint32_t>(reinterpret_cast<uintptr_t>(__builtin_return_address(0))));
}
void PlainWrite(const void* p, size_t n) {
  PlainAccess(reinterpret_cast<uintptr_t>(p), n, true,
              static_cast<uint32_t>(reinterpret_cast<uintptr_t>(__builtin_return_address(0))));
}

// ============================================================ atomics
struct StoreRec {
  uint64_t val;
  int32_t tid;
  uint32_t epoch;
  uint64_t gseq;
  VCR* rel;
};
struct FloorRec {
  uint16_t tid;
  uint8_t n;
  uint8_t stale_run;
  struct {
    uint32_t epoch;
    uint64_t gseq;
  } f[3];
};
constexpr int kHist = 6;
struct Loc {
  uintptr_t addr;
  uint8_t size;
  uint8_t n;
  bool valid;
  uint16_t nfl, capfl;
  FloorRec* fl;
  StoreRec h[kHist];
};
constexpr size_t kLocTable = 1 << 14;
static Loc** g_locs;
static uint64_t g_gseq = 1;

static inline uint64_t ReadMem(const void* p, int size) {
  switch (size) {
    case 1: return *static_cast<const volatile uint8_t*>(p);
    case 2: return *static_cast<const volatile uint16_t*>(p);
    case 4: return *static_cast<const volatile uint32_t*>(p);
    default: return *static_cast<const volatile uint64_t*>(p);
  }
}

static void LocReset(Loc* l, uint64_t val) {
  for (int i = 0; i < l->n; ++i) VcUnref(l->h[i].rel);
  l->n = 1;
  l->nfl = 0;
  l->valid = true;
  l->h[0] = StoreRec{val, -1, 0, ++g_gseq, nullptr};
}

static Loc* GetLoc(uintptr_t a, int size) {
  size_t h = ((a >> 0) * 0x9E3779B97F4A7C15ull) >> 50;
  Loc* l = nullptr;
  for (;; ++h) {
    Loc*& e = g_locs[h & (kLocTable - 1)];
    if (e == nullptr) {
      l = static_cast<Loc*>(IAlloc(sizeof(Loc)));
      memset(static_cast<void*>(l), 0, sizeof(*l));
      l->addr = a;
      l->size = static_cast<uint8_t>(size);
      e = l;
      break;
    }
    if (e->addr == a) {
      l = e;
      break;
    }
  }
  const uint64_t v = ReadMem(reinterpret_cast<void*>(a), size);
  if (!l->valid || l->size != size || l->h[l->n - 1].val != v) {
    l->size = static_cast<uint8_t>(size);
    LocReset(l, v);
  }
  return l;
}

static void DropLoc(uintptr_t granule, uint32_t mask) {
  for (uintptr_t a = granule; a < granule + 8; ++a) {
    if (!((mask >> (a & 7)) & 1)) continue;
    size_t h = (a * 0x9E3779B97F4A7C15ull) >> 50;
    for (;; ++h) {
      Loc* e = g_locs[h & (kLocTable - 1)];
      if (!e) break;
      if (e->addr == a) {
        e->valid = false;
        break;
      }
    }
  }
}

static FloorRec* GetFloor(Loc* l, int tid, bool create) {
  for (int i = 0; i < l->nfl; ++i)
    if (l->fl[i].tid == tid) return &l->fl[i];
  if (!create) return nullptr;
  if (l->nfl == l->capfl) {
    const uint16_t cap = static_cast<uint16_t>(l->capfl ? l->capfl * 2 : 8);
    FloorRec* f = static_cast<FloorRec*>(IAlloc(sizeof(FloorRec) * cap));
    if (l->nfl) memcpy(f, l->fl, sizeof(FloorRec) * l->nfl);
    l->fl = f;
    l->capfl = cap;
  }
  FloorRec* f = &l->fl[l->nfl++];
  memset(f, 0, sizeof(*f));
  f->tid = static_cast<uint16_t>(tid);
  return f;
}

static void NoteRead(Loc* l, Thread* t, uint64_t gseq, bool stale) {
  FloorRec* f = GetFloor(l, t->tid, true);
  f->stale_run = stale ? static_cast<uint8_t>(f->stale_run + 1) : 0;
  const uint32_t e = t->vc[t->tid];
  if (f->n && f->f[f->n - 1].gseq >= gseq) return;
  if (f->n && f->f[f->n - 1].epoch == e) {
    f->f[f->n - 1].gseq = gseq;
    return;
  }
  if (f->n == 3) {
    // Merge the two oldest conservatively (older epoch, newer store).
    f->f[0].gseq = f->f[1].gseq;
    f->f[1] = f->f[2];
    f->n = 2;
  }
  f->f[f->n].epoch = e;
  f->f[f->n].gseq = gseq;
  ++f->n;
}

// Returns index into history of the store to read.
static int ChooseStore(Loc* l, Thread* t, bool seq_cst) {
  const int last = l->n - 1;
  if (!g_weak || last == 0 || g_fault_off) return last;
  if (seq_cst) return last;
  int lo = 0;
  for (int i = last; i >= 0; --i) {
    const StoreRec& s = l->h[i];
    if (s.tid < 0 || s.epoch <= t->vc[s.tid] || s.gseq <= t->sc_gseq) {
      lo = i;
      break;
    }
  }
  if (lo == last) return last;
  uint64_t gfloor = 0;
  int stale_run = 0;
  for (int i = 0; i < l->nfl; ++i) {
    const FloorRec& f = l->fl[i];
    if (f.tid == t->tid) stale_run = f.stale_run;
    for (int k = f.n - 1; k >= 0; --k) {
      if (f.f[k].epoch <= t->vc[f.tid]) {
        if (f.f[k].gseq > gfloor) gfloor = f.f[k].gseq;
        break;
      }
    }
  }
  while (lo < last && l->h[lo].gseq < gfloor) ++lo;
  if (lo == last || stale_run >= 3) return last;
  ++g_shared->offered[kStale];
  const uint64_t cand = static_cast<uint64_t>(last - lo);
  uint64_t v = 0;
  if (!g_cfg.replay && g_rng_sched.Ppm(g_stale_ppm)) v = 1 + g_rng_sched.Below(cand);
  v = Decide(kStale, cand + 1, v);
  if (v) ++g_shared->fired[kStale];
  return last - static_cast<int>(v);
}

static void PushStore(Loc* l, Thread* t, uint64_t val, VCR* rel) {
  if (l->n == kHist) {
    VcUnref(l->h[0].rel);
    memmove(&l->h[0], &l->h[1], sizeof(StoreRec) * (kHist - 1));
    --l->n;
  }
  l->h[l->n++] = StoreRec{val, t->tid, t->vc[t->tid], ++g_gseq, rel};
}

enum Mo { kRelaxed = 0, kConsume, kAcquire, kRelease, kAcqRel, kSeqCst };
static inline bool IsAcq(int mo) { return mo == kConsume || mo == kAcquire || mo == kAcqRel || mo == kSeqCst; }
static inline bool IsRel(int mo) { return mo == kRelease || mo == kAcqRel || mo == kSeqCst; }

static inline void AtomicAccess(uintptr_t a, int size, bool write, uint32_t pc, Cell* cells) {
  HeapCheck(a, static_cast<size_t>(size), write, pc);
  const unsigned lo = static_cast<unsigned>(a & 7);
  unsigned hi = lo + static_cast<unsigned>(size);
  if (hi > 8) hi = 8;  // misaligned atomic: not modelled beyond the granule
  const uint8_t mask = static_cast<uint8_t>(((1u << hi) - 1) & ~((1u << lo) - 1));
  if ((cells[0].atomic_mask & mask) != mask) {
    DropLoc(a & ~uintptr_t{7}, mask);
    cells[0].atomic_mask |= mask;
  }
  GranuleAccess(a & ~uintptr_t{7}, cells, mask, static_cast<uint8_t>(write ? 3 : 2), pc);
  ++g_shared->atomic_ops;
}

static void Trace(const char* what, uintptr_t a, uint64_t v, uint32_t pc) {
  char buf[160];
  const int n = snprintf(buf, sizeof(buf), "[%8llu t%-2d] %-10s %p = %llu (pc 0x%x)\n",
                         static_cast<unsigned long long>(g_step), g_cur->tid, what,
                         reinterpret_cast<void*>(a), static_cast<unsigned long long>(v), pc);
  (void)!write(g_cfg.trace_fd, buf, static_cast<size_t>(n));
}

static uint64_t AtomicLoad(const void* p, int size, int mo, uint32_t pc) {
  const uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (!g_active) return ReadMem(p, size);
  SchedPoint(kNormal);
  Cell* cells = Cells(a);
  if (!cells) return ReadMem(p, size);
  AtomicAccess(a, size, false, pc, cells);
  Thread* t = g_cur;
  Loc* l = GetLoc(a, size);
  const int i = ChooseStore(l, t, mo == kSeqCst);
  const StoreRec& s = l->h[i];
  if (s.rel) {
    if (IsAcq(mo)) {
      VcAcquire(t, s.rel);
    } else {
      VCR* j = VcJoin(t->acq_pending, s.rel);
      VcUnref(t->acq_pending);
      t->acq_pending = j;
    }
  }
  if (g_weak) NoteRead(l, t, s.gseq, i != l->n - 1);
  if (g_cfg.trace) Trace(i == l->n - 1 ? "load" : "load-stale", a, s.val, pc);
  return s.val;
}

static void WriteMem(void* p, int size, uint64_t v) {
  switch (size) {
    case 1: *static_cast<volatile uint8_t*>(p) = static_cast<uint8_t>(v); break;
    case 2: *static_cast<volatile uint16_t*>(p) = static_cast<uint16_t>(v); break;
    case 4: *static_cast<volatile uint32_t*>(p) = static_cast<uint32_t>(v); break;
    default: *static_cast<volatile uint64_t*>(p) = v;
  }
}

static void AtomicStore(void* p, int size, uint64_t v, int mo, uint32_t pc) {
  const uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (!g_active) {
    WriteMem(p, size, v);
    return;
  }
  SchedPoint(kNormal);
  Cell* cells = Cells(a);
  if (!cells) {
    WriteMem(p, size, v);
    return;
  }
  AtomicAccess(a, size, true, pc, cells);
  Thread* t = g_cur;
  Loc* l = GetLoc(a, size);
  VCR* rel = nullptr;
  if (IsRel(mo)) rel = VcSnapshot(t);
  else rel = VcRef(t->rel_fence);
  PushStore(l, t, size == 8 ? v : v & ((1ull << (8 * size)) - 1), rel);
  if (IsRel(mo)) Tick(t);
  WriteMem(p, size, v);
  if (g_num_armed) DisarmMonitors(a, static_cast<size_t>(size));
  if (g_cfg.trace) Trace("store", a, v, pc);
}

enum RmwOp { kXchg, kAdd, kSub, kAnd, kOr, kXor, kNand };
static uint64_t RmwCommit(void* p, int size, uint64_t nv, int mo, Loc* l, Thread* t) {
  StoreRec& s = l->h[l->n - 1];
  const uint64_t old = s.val;
  VCR* prev = VcRef(s.rel);
  if (prev) {
    if (IsAcq(mo)) {
      VcAcquire(t, prev);
    } else {
      VCR* j = VcJoin(t->acq_pending, prev);
      VcUnref(t->acq_pending);
      t->acq_pending = j;
    }
  }
  VCR* own = IsRel(mo) ? VcSnapshot(t) : VcRef(t->rel_fence);
  VCR* rel = VcJoin(prev, own);
  VcUnref(prev);
  VcUnref(own);
  PushStore(l, t, size == 8 ? nv : nv & ((1ull << (8 * size)) - 1), rel);
  if (IsRel(mo)) Tick(t);
  WriteMem(p, size, nv);
  if (g_weak) NoteRead(l, t, l->h[l->n - 1].gseq, false);
  return old;
}

static uint64_t Apply(RmwOp op, uint64_t old, uint64_t v) {
  switch (op) {
    case kXchg: return v;
    case kAdd: return old + v;
    case kSub: return old - v;
    case kAnd: return old & v;
    case kOr: return old | v;
    case kXor: return old ^ v;
    default: return ~(old & v);
  }
}

static uint64_t AtomicRmw(void* p, int size, RmwOp op, uint64_t v, int mo, uint32_t pc) {
  const uintptr_t a = reinterpret_cast<uintptr_t>(p);
  Cell* cells = nullptr;
  if (g_active) {
    SchedPoint(kNormal);
    NtDrain();  // locked instructions drain write-combining buffers
    cells = Cells(a);
  }
  if (!cells) {
    const uint64_t old = ReadMem(p, size);
    WriteMem(p, size, Apply(op, old, v));
    return old;
  }
  AtomicAccess(a, size, true, pc, cells);
  Loc* l = GetLoc(a, size);
  const uint64_t cur = l->h[l->n - 1].val;
  const uint64_t old = RmwCommit(p, size, Apply(op, cur, v), mo, l, g_cur);
  if (g_num_armed) DisarmMonitors(a, static_cast<size_t>(size));
  if (g_cfg.trace) Trace("rmw(old)", a, old, pc);
  return old;
}

static bool AtomicCas(void* p, int size, uint64_t* expected, uint64_t desired, int mo, int fmo,
                      bool weak, uint32_t pc) {
  const uintptr_t a = reinterpret_cast<uintptr_t>(p);
  Cell* cells = nullptr;
  if (g_active) {
    SchedPoint(kNormal);
    NtDrain();
    cells = Cells(a);
  }
  const uint64_t mask = size == 8 ? ~0ull : (1ull << (8 * size)) - 1;
  if (!cells) {
    const uint64_t old = ReadMem(p, size);
    if (old == (*expected & mask)) {
      WriteMem(p, size, desired);
      return true;
    }
    *expected = old;
    return false;
  }
  (void)weak;
  AtomicAccess(a, size, true, pc, cells);
  Thread* t = g_cur;
  Loc* l = GetLoc(a, size);
  const uint64_t cur = l->h[l->n - 1].val;
  if (cur == (*expected & mask)) {
    RmwCommit(p, size, desired, mo, l, t);
    if (g_num_armed) DisarmMonitors(a, static_cast<size_t>(size));
    if (g_cfg.trace) Trace("cas-ok", a, desired, pc);
    return true;
  }
  StoreRec& s = l->h[l->n - 1];
  if (s.rel) {
    if (IsAcq(fmo)) {
      VcAcquire(t, s.rel);
    } else {
      VCR* j = VcJoin(t->acq_pending, s.rel);
      VcUnref(t->acq_pending);
      t->acq_pending = j;
    }
  }
  if (g_weak) NoteRead(l, t, s.gseq, false);
  *expected = cur;
  if (g_cfg.trace) Trace("cas-fail", a, cur, pc);
  return false;
}

static void Fence(int mo) {
  if (!g_active) return;
  SchedPoint(kNormal);
  Thread* t = g_cur;
  if (IsAcq(mo) && t->acq_pending) VcAcquire(t, t->acq_pending);
  if (mo == kSeqCst) {
    t->sc_gseq = g_gseq;
    NtDrain();
  }
  if (IsRel(mo)) {
    VcUnref(t->rel_fence);
    t->rel_fence = Release(t);
  }
}

// ============================================================ NT stores
void NtDrain() {
  if (!g_active) return;
  Thread* t = g_cur;
  if (!t->num_nt) return;
  const int n = t->num_nt;
  t->num_nt = 0;
  for (int i = 0; i < n; ++i) {
    NtBuf& b = t->nt[i];
    memcpy(reinterpret_cast<void*>(b.addr), b.bytes, b.n);
    PlainAccess(b.addr, b.n, true, 0);
  }
}

// A thread's pending streamed stores become visible at an arbitrary later
// time, at the latest when that thread executes a fence or a locked operation.
void NtStore(void* p, const void* from, size_t n) {
  const uintptr_t a = reinterpret_cast<uintptr_t>(p);
  HeapCheck(a, n, true, static_cast<uint32_t>(reinterpret_cast<uintptr_t>(__builtin_return_address(0))));
  Thread* t = g_cur;
  if (!g_active || n > 64 || !Fault(fNtDelay)) {
    // In program order with earlier pending stores to the same location.
    for (int i = 0; t && i < t->num_nt; ++i) {
      NtBuf& b = t->nt[i];
      if (b.addr < a + n && a < b.addr + b.n) {
        NtDrain();
        break;
      }
    }
    memcpy(p, from, n);
    if (g_active) PlainAccess(a, n, true, 0);
    return;
  }
  if (!t->nt) t->nt = static_cast<NtBuf*>(IAlloc(sizeof(NtBuf) * 64));
  if (t->num_nt == 64) NtDrain();
  NtBuf& b = t->nt[t->num_nt++];
  b.addr = a;
  b.n = static_cast<uint32_t>(n);
  memcpy(b.bytes, from, n);
}

// ============================================================ heap
constexpr size_t kMaxBlocks = 1 << 20;
static Block_* g_blocks;
static uint32_t g_num_blocks = 0;
static uintptr_t g_heap_next = kHeap;
static uint64_t g_frees = 0, g_live = 0, g_live_bytes = 0, g_alloc_failures = 0;
static bool g_lifo_reuse = false;
static int64_t g_alloc_fail_at = -1;
static uint64_t g_alloc_limit = 1ull << 30;
constexpr size_t kRed = 32;
constexpr uint32_t kMagic = 0x51ab1e77;
struct Hdr {
  uint32_t magic;
  uint32_t block;
  uint64_t pad[3];
};
static_assert(sizeof(Hdr) == kRed, "");
struct FreeList {
  uint32_t head;  // block index + 1
};
static FreeList g_freelist[64];
static uint32_t* g_next_free;

static Block_* FindBlock(uintptr_t a) {
  // Blocks are nearly sorted; linear search is fine on the failure path.
  Block_* best = nullptr;
  for (uint32_t i = 0; i < g_num_blocks; ++i) {
    Block_& b = g_blocks[i];
    if (a + kRed >= b.addr && a < b.addr + b.size + kRed) {
      best = &b;
      if (a >= b.addr && a < b.addr + b.size) return best;
    }
  }
  return best;
}

static void MarkAddressable(uintptr_t a, size_t n) {
  memset(StatePtr(a), 8, n >> 3);
  if (n & 7) *StatePtr(a + (n & ~size_t{7})) = static_cast<uint8_t>(n & 7);
}

static int SizeClass(size_t n) { return n == 0 ? 0 : 64 - __builtin_clzll((n + 15) | 15); }

static void* SimMalloc(size_t n, size_t align, uint32_t pc, bool zero) {
  if (n > g_alloc_limit) {
    ++g_alloc_failures;
    errno = ENOMEM;
    return nullptr;
  }
  if (g_cur && g_cur->alloc_faults) {
    bool fail = false;
    if (g_alloc_fail_at >= 0 && g_alloc_fail_at-- == 0) {
      fail = true;
      ++g_shared->fired[fAllocFail];
    }
    if (!fail && Fault(fAllocFail)) fail = true;
    if (fail) {
      ++g_alloc_failures;
      errno = ENOMEM;
      return nullptr;
    }
  }
  if (g_num_blocks >= kMaxBlocks) Fail("sim-limit", "too many allocations");
  const size_t rounded = (n + 7) & ~size_t{7};
  uintptr_t a = 0;
  uint32_t bi = 0;
  const int cls = SizeClass(n);
  if (g_lifo_reuse && align <= 16 && g_freelist[cls].head) {
    const uint32_t cand = g_freelist[cls].head - 1;
    if (((g_blocks[cand].size + 7) & ~size_t{7}) == rounded) {
      g_freelist[cls].head = g_next_free[cand];
      a = g_blocks[cand].addr;
    }
  }
  if (!a) {
    a = (g_heap_next + kRed + align - 1) & ~(align - 1);
    g_heap_next = (a + rounded + 15) & ~uintptr_t{15};
    if (g_heap_next + kRed > kHeap + kHeapSize) Fail("sim-limit", "simulated heap exhausted");
  }
  bi = g_num_blocks++;
  Block_& b = g_blocks[bi];
  b.addr = a;
  b.size = n;
  b.pc = pc;
  b.state = 1;
  b.seq = bi;
  Hdr* h = reinterpret_cast<Hdr*>(a - kRed);
  h->magic = kMagic;
  h->block = bi;
  for (auto& p : h->pad) p = 0xFAFAFAFAFAFAFAFAull;
  // Trailing redzone pattern for uninstrumented (SIMD) writes; it ends where
  // the next block's header starts.
  memset(reinterpret_cast<void*>(a + n), 0xFB, g_heap_next > a + n && !g_lifo_reuse ? (g_heap_next - (a + n)) : rounded - n);
  ClearShadow(a, rounded ? rounded : 8);
  MarkAddressable(a, n);
  if (zero) memset(reinterpret_cast<void*>(a), 0, n);
  else memset(reinterpret_cast<void*>(a), 0xA5, n < 4096 ? n : 4096);
  ++g_live;
  g_live_bytes += n;
  return reinterpret_cast<void*>(a);
}

static bool InHeap(const void* p) { return reinterpret_cast<uintptr_t>(p) - kHeap < kHeapSize; }

static void CheckRedzones(const Block_& b) {
  const Hdr* h = reinterpret_cast<const Hdr*>(b.addr - kRed);
  for (auto& p : h->pad)
    if (p != 0xFAFAFAFAFAFAFAFAull)
      Fail("heap-out-of-bounds", "bytes before block #%u (size %zu, pc 0x%x) were overwritten", b.seq,
           b.size, b.pc);
  const uint8_t* t = reinterpret_cast<const uint8_t*>(b.addr + b.size);
  const size_t pad = ((b.size + 7) & ~size_t{7}) - b.size;
  for (size_t i = 0; i < pad; ++i)
    if (t[i] != 0xFB)
      Fail("heap-out-of-bounds", "bytes after block #%u (size %zu, pc 0x%x) were overwritten", b.seq,
           b.size, b.pc);
}

static void SimFree(void* p, uint32_t pc) {
  const uintptr_t a = reinterpret_cast<uintptr_t>(p);
  Hdr* h = reinterpret_cast<Hdr*>(a - kRed);
  if ((a & 7) || a < kHeap + kRed || h->magic != kMagic || h->block >= g_num_blocks ||
      g_blocks[h->block].addr != a) {
    if (!g_active) return;
    Fail("bad-free", "free of %p, which is not the start of a block, pc 0x%x", p, pc);
  }
  Block_& b = g_blocks[h->block];
  if (b.state == 2) {
    if (!g_active) return;
    Fail("double-free", "free of %p (#%u, size %zu) already freed at pc 0x%x, pc 0x%x", p, b.seq,
         b.size, b.free_pc, pc);
  }
  if (g_active) {
    CheckRedzones(b);
    // Races between free and other accesses.
    if (g_cur && g_races) {
      const size_t chk = b.size < 65536 ? b.size : 65536;
      if (chk) PlainAccess(a, chk, true, pc);
    }
  }
  b.state = 2;
  b.free_pc = pc;
  memset(StatePtr(a), 0xFD, (b.size + 7) >> 3);
  if (b.size <= 1 << 20) memset(p, 0xDD, b.size < 4096 ? b.size : 4096);
  ++g_frees;
  --g_live;
  g_live_bytes -= b.size;
  const int cls = SizeClass(b.size);
  g_next_free[h->block] = g_freelist[cls].head;
  g_freelist[cls].head = h->block + 1;
}

HeapStats Heap() { return HeapStats{g_num_blocks, g_frees, g_live, g_live_bytes}; }
uint64_t HeapMark() { return g_num_blocks; }
uint64_t HeapLiveSince(uint64_t mark, const void** addr, size_t* size) {
  uint64_t n = 0;
  for (uint64_t i = mark; i < g_num_blocks; ++i) {
    if (g_blocks[i].state == 1) {
      if (n == 0) {
        if (addr) *addr = reinterpret_cast<void*>(g_blocks[i].addr);
        if (size) *size = g_blocks[i].size;
      }
      ++n;
    } 
    if (g_blocks[i].state == 1) CheckRedzones(g_blocks[i]);
  }
  return n;
}
bool HeapContains(const void* p, size_t size) {
  const uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (!InHeap(p)) return false;
  for (uint32_t i = g_num_blocks; i-- > 0;) {
    const Block_& b = g_blocks[i];
    if (b.state == 1 && a >= b.addr && a + size <= b.addr + b.size) return true;
  }
  return false;
}
void SetAllocReuse(bool r) { g_lifo_reuse = r; }
void AllocFaults(bool on) {
  if (g_cur) g_cur->alloc_faults = on;
}
uint64_t AllocFailures() { return g_alloc_failures; }
void AllocFailAt(int64_t nth) { g_alloc_fail_at = nth; }
void SetAllocLimit(uint64_t b) { g_alloc_limit = b; }

// ============================================================ run
static int g_hw_threads = 8;
int HwThreads() { return g_hw_threads; }
void SetHwThreads(int n) { g_hw_threads = n; }
static void (*g_abort_hook)() = nullptr;
void SetAbortHook(void (*h)()) { g_abort_hook = h; }

static const Scenario* g_scenario;
static void* MainFiber(void*) {
  g_scenario->fn();
  if (g_alive != 1) {
    char buf[700];
    buf[0] = 0;
    DescribeThreads(buf, sizeof(buf));
    Fail("leaked-thread", "%d simulated threads are still alive at the end:%s", g_alive - 1, buf);
  }
  RunTlsDtors(g_cur);
  FinishOk();
  return nullptr;
}

static char g_altstack[64 << 10];
static void CrashHandler(int sig, siginfo_t* si, void* uc) {
  ucontext_t* u = static_cast<ucontext_t*>(uc);
  const unsigned long long pc = static_cast<unsigned long long>(u->uc_mcontext.gregs[REG_RIP]);
  signal(sig, SIG_DFL);
  if (sig == SIGXCPU) Fail("hang", "CPU time limit exceeded at pc 0x%llx", pc);
  const int tid = g_cur ? g_cur->tid : -1;
  if (sig == SIGILL) {
    // Debug builds of hwy::Abort end in a trap, after printing.
    static char buf[4096];
    const size_t n = CapturedStderr(buf, sizeof(buf));
    const char* p = n > 300 ? buf + n - 300 : buf;
    if (g_abort_hook) g_abort_hook();
    if (strstr(buf, "Abort at ")) {
      Fail("abort", "abort in t%d: %s", tid, p);
    }
  }
  Fail("crash", "signal %d (%s) in t%d at pc 0x%llx, fault address %p", sig, strsignal(sig), tid,
       pc, si->si_addr);
}

void RunInThisProcess(const Scenario& s, const RunConfig& cfg) {
  g_cfg = cfg;
  g_scenario = &s;
  stack_t ss;
  memset(&ss, 0, sizeof(ss));
  ss.ss_sp = g_altstack;
  ss.ss_size = sizeof(g_altstack);
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = CrashHandler;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int sig : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGXCPU}) sigaction(sig, &sa, nullptr);
  struct rlimit rl = {40, 45};
  setrlimit(RLIMIT_CPU, &rl);
  struct rlimit core = {0, 0};
  setrlimit(RLIMIT_CORE, &core);

  g_rng_gen.Seed(cfg.seed ^ 0x1111);
  g_rng_sched.Seed(cfg.seed ^ 0x2222);
  g_rng_fault.Seed(cfg.seed ^ 0x3333);
  if (cfg.replay) {
    size_t p = 0;
    for (int st = 0; st < kNumStreams; ++st) {
      g_rp[st] = p;
      while (p < cfg.num_replay && cfg.replay_decisions[p].stream == static_cast<uint32_t>(st)) ++p;
      g_rp_end[st] = p;
    }
  } else {
    g_strategy = static_cast<Strategy>(g_rng_sched.Below(8) % kNumStrategies);
    const uint32_t ppm[] = {3000, 10000, 30000, 100000, 300000, 600000};
    g_switch_ppm = ppm[g_rng_sched.Below(6)];
    if (g_strategy == kRoundRobin) g_switch_ppm = static_cast<uint32_t>(g_rng_sched.Below(24));
    g_num_change = static_cast<int>(g_rng_sched.Below(12));
    const uint64_t len = 64ull << g_rng_sched.Below(12);
    for (int i = 0; i < g_num_change; ++i) g_change[i] = g_rng_sched.Below(len);
    g_low_prio = 1000000;
    g_weak = g_rng_sched.Below(2) != 0;
    const uint32_t sp[] = {5000, 50000, 200000, 500000};
    g_stale_ppm = sp[g_rng_sched.Below(4)];
  }
  // Whether stale reads are possible must be part of the recorded run.
  g_weak = Decide(kStallWhere, 2, g_weak ? 1 : 0) != 0;

  g_sync = static_cast<SyncObj*>(IAlloc(sizeof(SyncObj) * kMaxSync));
  g_locs = static_cast<Loc**>(IAlloc(sizeof(Loc*) * kLocTable));
  g_blocks = static_cast<Block_*>(IAlloc(sizeof(Block_) * kMaxBlocks));
  g_next_free = static_cast<uint32_t*>(IAlloc(sizeof(uint32_t) * kMaxBlocks));

  Thread* t = NewThread(&MainFiber, nullptr);
  snprintf(t->name, sizeof(t->name), "main");
  t->num_stalls = 0;
  RecomputeEvents();
  g_cur = t;
  g_active = true;
  static void* host_rsp;
  sim_switch(&host_rsp, t->rsp);
  __builtin_trap();
}

}  // namespace sim

using namespace sim;

template <class F>
static F Real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

#define PC static_cast<uint32_t>(reinterpret_cast<uintptr_t>(__builtin_return_address(0)))

// ============================================================ tsan ABI
extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define RW(n)                                                                                  \
  void __tsan_read##n(void* p) { PlainAccess(reinterpret_cast<uintptr_t>(p), n, false, PC); }  \
  void __tsan_write##n(void* p) { PlainAccess(reinterpret_cast<uintptr_t>(p), n, true, PC); }  \
  void __tsan_unaligned_read##n(void* p) {                                                     \
    PlainAccess(reinterpret_cast<uintptr_t>(p), n, false, PC);                                 \
  }                                                                                            \
  void __tsan_unaligned_write##n(void* p) {                                                    \
    PlainAccess(reinterpret_cast<uintptr_t>(p), n, true, PC);                                  \
  }                                                                                            \
  void __tsan_read_write##n(void* p) { PlainAccess(reinterpret_cast<uintptr_t>(p), n, true, PC); } \
  void __tsan_unaligned_read_write##n(void* p) {                                               \
    PlainAccess(reinterpret_cast<uintptr_t>(p), n, true, PC);                                  \
  }
RW(1) RW(2) RW(4) RW(8) RW(16)

void __tsan_read_range(void* p, size_t n) {
  if (n) PlainAccess(reinterpret_cast<uintptr_t>(p), n, false, PC);
}
void __tsan_write_range(void* p, size_t n) {
  if (n) PlainAccess(reinterpret_cast<uintptr_t>(p), n, true, PC);
}
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) PlainAccess(reinterpret_cast<uintptr_t>(p), 8, true, PC);
}
void __tsan_vptr_read(void** p) { PlainAccess(reinterpret_cast<uintptr_t>(p), 8, false, PC); }

void* __tsan_memcpy(void* d, const void* s, size_t n) {
  if (n) {
    PlainAccess(reinterpret_cast<uintptr_t>(s), n, false, PC);
    PlainAccess(reinterpret_cast<uintptr_t>(d), n, true, PC);
  }
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  if (n) {
    PlainAccess(reinterpret_cast<uintptr_t>(s), n, false, PC);
    PlainAccess(reinterpret_cast<uintptr_t>(d), n, true, PC);
  }
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  if (n) PlainAccess(reinterpret_cast<uintptr_t>(d), n, true, PC);
  return memset(d, c, n);
}

// Files compiled for wide accesses call these instead (see build.py).
void __asan_init() {}
void __asan_version_mismatch_check_v8() {}
void __asan_handle_no_return() {}
#define ASAN_RW(n)                                                                              \
  void __asan_load##n(uintptr_t p) { PlainAccess(p, n, false, PC); }                            \
  void __asan_store##n(uintptr_t p) { PlainAccess(p, n, true, PC); }
ASAN_RW(1) ASAN_RW(2) ASAN_RW(4) ASAN_RW(8) ASAN_RW(16)
void __asan_loadN(uintptr_t p, size_t n) {
  if (n) PlainAccess(p, n, false, PC);
}
void __asan_storeN(uintptr_t p, size_t n) {
  if (n) PlainAccess(p, n, true, PC);
}
void* __asan_memcpy(void* d, const void* s, size_t n) {
  if (n) {
    PlainAccess(reinterpret_cast<uintptr_t>(s), n, false, PC);
    PlainAccess(reinterpret_cast<uintptr_t>(d), n, true, PC);
  }
  return memcpy(d, s, n);
}
void* __asan_memmove(void* d, const void* s, size_t n) {
  if (n) {
    PlainAccess(reinterpret_cast<uintptr_t>(s), n, false, PC);
    PlainAccess(reinterpret_cast<uintptr_t>(d), n, true, PC);
  }
  return memmove(d, s, n);
}
void* __asan_memset(void* d, int c, size_t n) {
  if (n) PlainAccess(reinterpret_cast<uintptr_t>(d), n, true, PC);
  return memset(d, c, n);
}

#define ATOMICS(bits, T)                                                                         \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                                    \
    return static_cast<T>(AtomicLoad(const_cast<const T*>(a), bits / 8, mo, PC));                \
  }                                                                                              \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {                                 \
    AtomicStore(const_cast<T*>(a), bits / 8, static_cast<uint64_t>(v), mo, PC);                  \
  }                                                                                              \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {                                 \
    return static_cast<T>(AtomicRmw(const_cast<T*>(a), bits / 8, kXchg, static_cast<uint64_t>(v), mo, PC)); \
  }                                                                                              \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) {                                \
    return static_cast<T>(AtomicRmw(const_cast<T*>(a), bits / 8, kAdd, static_cast<uint64_t>(v), mo, PC));  \
  }                                                                                              \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) {                                \
    return static_cast<T>(AtomicRmw(const_cast<T*>(a), bits / 8, kSub, static_cast<uint64_t>(v), mo, PC));  \
  }                                                                                              \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) {                                \
    return static_cast<T>(AtomicRmw(const_cast<T*>(a), bits / 8, kAnd, static_cast<uint64_t>(v), mo, PC));  \
  }                                                                                              \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) {                                 \
    return static_cast<T>(AtomicRmw(const_cast<T*>(a), bits / 8, kOr, static_cast<uint64_t>(v), mo, PC));   \
  }                                                                                              \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) {                                \
    return static_cast<T>(AtomicRmw(const_cast<T*>(a), bits / 8, kXor, static_cast<uint64_t>(v), mo, PC));  \
  }                                                                                              \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) {                               \
    return static_cast<T>(AtomicRmw(const_cast<T*>(a), bits / 8, kNand, static_cast<uint64_t>(v), mo, PC)); \
  }                                                                                              \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
    uint64_t e = static_cast<uint64_t>(*c);                                                      \
    const bool ok = AtomicCas(const_cast<T*>(a), bits / 8, &e, static_cast<uint64_t>(v), mo, fmo, false, PC); \
    if (!ok) *c = static_cast<T>(e);                                                             \
    return ok;                                                                                   \
  }                                                                                              \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {   \
    uint64_t e = static_cast<uint64_t>(*c);                                                      \
    const bool ok = AtomicCas(const_cast<T*>(a), bits / 8, &e, static_cast<uint64_t>(v), mo, fmo, true, PC); \
    if (!ok) *c = static_cast<T>(e);                                                             \
    return ok;                                                                                   \
  }                                                                                              \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {       \
    uint64_t e = static_cast<uint64_t>(c);                                                       \
    AtomicCas(const_cast<T*>(a), bits / 8, &e, static_cast<uint64_t>(v), mo, fmo, false, PC);    \
    return static_cast<T>(e);                                                                    \
  }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

void __tsan_atomic_thread_fence(int mo) { Fence(mo); }
void __tsan_atomic_signal_fence(int) {}
void __sanitizer_print_stack_trace(void) {}

// ============================================================ TLS
struct EmutlsControl {
  size_t size;
  size_t align;
  union {
    uintptr_t index;
    void* address;
  } object;
  void* value;
};
static TlsEntry g_host_tls[256];
static int g_num_host_tls = 0;

void* __emutls_get_address(EmutlsControl* c) {
  TlsEntry* list = g_cur && g_active ? g_cur->tls : g_host_tls;
  int& n = g_cur && g_active ? g_cur->num_tls : g_num_host_tls;
  const int cap = g_cur && g_active ? 64 : 256;
  for (int i = 0; i < n; ++i)
    if (list[i].ctl == c) return list[i].mem;
  if (n == cap) {
    static const char m[] = "sim: too many thread_locals\n";
    (void)!write(2, m, sizeof(m) - 1);
    _exit(96);
  }
  size_t align = c->align < 16 ? 16 : c->align;
  uintptr_t p = reinterpret_cast<uintptr_t>(IAlloc(c->size + align));
  p = (p + align - 1) & ~(align - 1);
  if (c->value) memcpy(reinterpret_cast<void*>(p), c->value, c->size);
  else memset(reinterpret_cast<void*>(p), 0, c->size);
  list[n].ctl = c;
  list[n].mem = reinterpret_cast<void*>(p);
  ++n;
  return reinterpret_cast<void*>(p);
}

int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso) {
  if (g_active && g_cur) {
    if (g_cur->num_atexit < 64) g_cur->atexit[g_cur->num_atexit++] = AtExit{fn, obj};
    return 0;
  }
  (void)dso;
  return 0;
}

// ============================================================ guards
int __cxa_guard_acquire(uint64_t* g) {
  uint8_t* b = reinterpret_cast<uint8_t*>(g);
  if (!g_active) {
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
  }
  SchedPoint(kNormal);
  for (;;) {
    SyncObj* s = Sync(g);
    if (b[0]) {
      VcAcquire(g_cur, s->vc);
      return 0;
    }
    if (!b[1]) {
      b[1] = 1;
      s->owner = g_cur->tid;
      return 1;
    }
    if (s->owner == g_cur->tid) Fail("deadlock", "recursive initialisation of a static variable");
    g_cur->state = kGuard;
    g_cur->wait_addr = g;
    sim::Probe("static-init contended");
    Block();
  }
}
static void GuardDone(uint64_t* g, bool ok) {
  uint8_t* b = reinterpret_cast<uint8_t*>(g);
  if (!g_active) {
    b[0] = ok;
    b[1] = 0;
    return;
  }
  SyncObj* s = Sync(g);
  if (ok) {
    // The inline fast path is an acquire load of the first byte.
    AtomicStore(b, 1, 1, kRelease, 0);
    SyncRelease(s, g_cur);
  }
  b[1] = 0;
  s->owner = -1;
  for (int i = 0; i < g_nth; ++i) {
    Thread* o = g_th[i];
    if (o->state == kGuard && o->wait_addr == g) MakeRunnable(o);
  }
  SchedPoint(kNormal);
}
void __cxa_guard_release(uint64_t* g) { GuardDone(g, true); }
void __cxa_guard_abort(uint64_t* g) { GuardDone(g, false); }

// ============================================================ malloc
void* malloc(size_t n) {
  if (!g_active) return __libc_malloc(n);
  SchedPoint(kNormal);
  // Half of the larger blocks start at a multiple of 1 KiB, so that over-aligned payloads
  // (AllocateAligned) end where the block ends and any overrun hits the red zone.
  const size_t align = n >= 1024 && !g_lifo_reuse && (g_num_blocks & 1) ? 1024 : 16;
  return SimMalloc(n, align, PC, false);
}
void free(void* p) {
  if (!p) return;
  if (InHeap(p)) {
    SchedPoint(kNormal);
    return SimFree(p, PC);
  }
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (!g_active) return __libc_calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  SchedPoint(kNormal);
  return SimMalloc(n, 16, PC, true);
}
void* realloc(void* p, size_t n) {
  if (!InHeap(p) && !g_active) return __libc_realloc(p, n);
  if (!p) return malloc(n);
  if (!InHeap(p)) return __libc_realloc(p, n);
  Hdr* h = reinterpret_cast<Hdr*>(reinterpret_cast<uintptr_t>(p) - kRed);
  const size_t old = g_blocks[h->block].size;
  void* q = SimMalloc(n, 16, PC, false);
  if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  SimFree(p, PC);
  return q;
}
void* memalign(size_t align, size_t n) {
  if (!g_active) return __libc_memalign(align, n);
  SchedPoint(kNormal);
  return SimMalloc(n, align < 16 ? 16 : align, PC, false);
}
void* aligned_alloc(size_t align, size_t n) { return memalign(align, n); }
int posix_memalign(void** out, size_t align, size_t n) {
  void* p = memalign(align, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
size_t malloc_usable_size(void* p) {
  if (InHeap(p)) return g_blocks[reinterpret_cast<Hdr*>(reinterpret_cast<uintptr_t>(p) - kRed)->block].size;
  return 0;
}

// ============================================================ pthread
static pthread_t Handle(int tid) { return static_cast<pthread_t>(0x51D00000ull + static_cast<uint64_t>(tid)); }
static int HandleTid(pthread_t h) {
  const uint64_t t = static_cast<uint64_t>(h) - 0x51D00000ull;
  return t < static_cast<uint64_t>(g_nth) ? static_cast<int>(t) : -1;
}

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!g_active) {
    static auto real = Real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    return real(out, attr, fn, arg);
  }
  SchedPoint(kNormal);
  if (Fault(fThreadCreateFail)) return EAGAIN;
  Thread* t = NewThread(fn, arg);
  *out = Handle(t->tid);
  SchedPoint(kNormal);
  return 0;
}
int pthread_join(pthread_t h, void** ret) {
  if (!g_active) {
    static auto real = Real<int (*)(pthread_t, void**)>("pthread_join");
    return real(h, ret);
  }
  const int t = HandleTid(h);
  if (t < 0 || g_th[t]->joined || g_th[t]->detached)
    Fail("bad-join", "pthread_join of an invalid, joined or detached thread");
  JoinThread(t);
  if (ret) *ret = g_th[t]->retval;
  return 0;
}
int pthread_detach(pthread_t h) {
  if (!g_active) return 0;
  const int t = HandleTid(h);
  if (t >= 0) g_th[t]->detached = true;
  return 0;
}
pthread_t pthread_self(void) {
  if (!g_active || !g_cur) {
    static auto real = Real<pthread_t (*)()>("pthread_self");
    return real();
  }
  return Handle(g_cur->tid);
}
int pthread_setname_np(pthread_t h, const char* name) {
  if (!g_active) return 0;
  const int t = HandleTid(h);
  if (t < 0) return ESRCH;
  if (strlen(name) > 15) return ERANGE;
  snprintf(g_th[t]->name, sizeof(g_th[t]->name), "%s", name);
  return 0;
}
int pthread_getname_np(pthread_t h, char* name, size_t n) {
  const int t = HandleTid(h);
  if (t < 0) return ESRCH;
  snprintf(name, n, "%s", g_th[t]->name);
  return 0;
}

static int MutexLock(const void* m, bool try_only) {
  SchedPoint(kNormal);
  SyncObj* s = Sync(m);
  while (s->owner != -1) {
    if (s->owner == g_cur->tid) {
      if (try_only) return EBUSY;
      // Could be a recursive mutex; count depth.
      ++s->depth;
      return 0;
    }
    if (try_only) return EBUSY;
    g_cur->state = kMutex;
    g_cur->wait_addr = m;
    Block();
    s = Sync(m);
  }
  s->owner = g_cur->tid;
  s->depth = 1;
  VcAcquire(g_cur, s->vc);
  return 0;
}
static void MutexUnlock(const void* m) {
  SyncObj* s = Sync(m);
  if (s->owner == g_cur->tid && --s->depth > 0) return;
  SyncRelease(s, g_cur);
  s->owner = -1;
  for (int i = 0; i < g_nth; ++i) {
    Thread* o = g_th[i];
    if (o->state == kMutex && o->wait_addr == m) MakeRunnable(o);
  }
  SchedPoint(kNormal);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!g_active) return 0;
  return MutexLock(m, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!g_active) return 0;
  return MutexLock(m, true);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!g_active) return 0;
  MutexUnlock(m);
  return 0;
}
static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline_ns) {
  SchedPoint(kNormal);
  Thread* t = g_cur;
  SyncObj* s = Sync(m);
  SyncRelease(s, t);
  s->owner = -1;
  for (int i = 0; i < g_nth; ++i) {
    Thread* o = g_th[i];
    if (o->state == kMutex && o->wait_addr == m) MakeRunnable(o);
  }
  t->state = kCond;
  t->wait_addr = c;
  if (deadline_ns) t->wake_ns = deadline_ns > g_now_ns ? deadline_ns : g_now_ns + 1;
  const uint64_t sp = Fault(fFutexSpurious, 5000);
  if (sp) t->wake_step = g_step + sp;
  Block();
  const int reason = t->wake_reason;
  MutexLock(m, false);
  return reason == 2 ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!g_active) return 0;
  return CondWait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
  if (!g_active) return 0;
  return CondWait(c, m, static_cast<uint64_t>(ts->tv_sec) * 1000000000ull + static_cast<uint64_t>(ts->tv_nsec));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts) {
  return pthread_cond_timedwait(c, m, ts);
}
static void CondWake(pthread_cond_t* c, int n) {
  SchedPoint(kNormal);
  for (int i = 0; i < g_nth && n > 0; ++i) {
    Thread* o = g_th[i];
    if (o->state == kCond && o->wait_addr == c) {
      MakeRunnable(o);
      --n;
    }
  }
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (g_active) CondWake(c, 1);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (g_active) CondWake(c, 1 << 20);
  return 0;
}
// Reader-writer locks: modelled as exclusive (fewer schedules, never wrong).
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return g_active ? MutexLock(m, false) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return g_active ? MutexLock(m, false) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return g_active ? MutexLock(m, true) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return g_active ? MutexLock(m, true) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (g_active) MutexUnlock(m);
  return 0;
}
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_once(pthread_once_t* once, void (*fn)()) {
  if (!g_active) {
    if (*once == 0) {
      *once = 2;
      fn();
    }
    return 0;
  }
  SchedPoint(kNormal);
  SyncObj* s = Sync(once);
  while (!s->done && *once != 2) {
    if (s->owner == -1) {
      s->owner = g_cur->tid;
      fn();
      s->done = true;
      s->owner = -1;
      SyncRelease(s, g_cur);
      for (int i = 0; i < g_nth; ++i)
        if (g_th[i]->state == kGuard && g_th[i]->wait_addr == once) MakeRunnable(g_th[i]);
      return 0;
    }
    g_cur->state = kGuard;
    g_cur->wait_addr = once;
    Block();
  }
  VcAcquire(g_cur, s->vc);
  return 0;
}

// ============================================================ time
namespace sim {
extern "C++" { uint64_t (*clock_delay)(bool is_ticks); }
}
static void ClockDelay(bool is_ticks) {
  g_now_ns += Fault(fClockJump, 10000000);
  if (sim::clock_delay) {
    const uint64_t d = sim::clock_delay(is_ticks);
    if (d) ++g_shared->fired[fClockJump];
    g_now_ns += d;
  }
}
static uint64_t ClockRead() {
  SchedPoint(kNormal);
  ClockDelay(false);
  return g_now_ns;
}
uint64_t hwy_sim_ticks(void) {
  if (!g_active) {
    static uint64_t host = 1000;
    return host += 100;
  }
  // The clock advances before and after the read, so that two reads differ.
  SchedPoint(kNormal);
  ClockDelay(true);
  // Reading the counter takes time.
  static double frac = 0;
  frac += g_read_ticks / g_tsc_ghz;
  const uint64_t whole = static_cast<uint64_t>(frac);
  frac -= static_cast<double>(whole);
  g_now_ns += whole;
  return Ticks();
}
int clock_gettime(clockid_t id, struct timespec* ts) {
  if (!g_active) return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
  const uint64_t t = ClockRead() + (id == CLOCK_REALTIME ? 1700000000000000000ull : 0);
  ts->tv_sec = static_cast<time_t>(t / 1000000000);
  ts->tv_nsec = static_cast<long>(t % 1000000000);
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* out) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out) *out = ts.tv_sec;
  return ts.tv_sec;
}
clock_t clock(void) {
  if (!g_active) return 0;
  return static_cast<clock_t>(ClockRead() / 1000);
}

int nanosleep(const struct timespec* req, struct timespec* rem) {
  if (!g_active) return static_cast<int>(syscall(SYS_nanosleep, req, rem));
  SchedPoint(kNormal);
  if (req->tv_nsec < 0 || req->tv_nsec >= 1000000000 || req->tv_sec < 0) {
    errno = EINVAL;
    return -1;
  }
  const uint64_t ns = static_cast<uint64_t>(req->tv_sec) * 1000000000ull + static_cast<uint64_t>(req->tv_nsec);
  const uint64_t permille = Fault(fSleepEintr, 1000);
  Thread* t = g_cur;
  const uint64_t t0 = g_now_ns;
  uint64_t dur = ns ? ns : 1;
  if (permille) dur = ns * (permille - 1) / 1000 + 1;
  if (permille && dur >= ns) dur = ns ? ns : 1;
  t->state = kSleep;
  t->wake_ns = t0 + dur;
  Block();
  if (permille && g_now_ns - t0 < ns) {
    if (rem) {
      const uint64_t left = ns - (g_now_ns - t0);
      rem->tv_sec = static_cast<time_t>(left / 1000000000);
      rem->tv_nsec = static_cast<long>(left % 1000000000);
    }
    ++t->sleep_interruptions;
    errno = EINTR;
    return -1;
  }
  return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* req, struct timespec* rem) {
  timespec r = *req;
  if (flags & TIMER_ABSTIME) {
    const uint64_t d = static_cast<uint64_t>(req->tv_sec) * 1000000000ull + static_cast<uint64_t>(req->tv_nsec);
    const uint64_t left = d > g_now_ns ? d - g_now_ns : 0;
    r.tv_sec = static_cast<time_t>(left / 1000000000);
    r.tv_nsec = static_cast<long>(left % 1000000000);
  }
  return nanosleep(&r, rem) == 0 ? 0 : errno;
}
int usleep(useconds_t us) {
  timespec r = {static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000};
  return nanosleep(&r, nullptr);
}
int sched_yield(void) {
  if (g_active) SchedPoint(kYieldPoint);
  return 0;
}

// ============================================================ CPU hooks
void hwy_sim_pause(void) {
  if (g_active) SchedPoint(kYieldPoint);
}
void hwy_sim_flush_stream(void) {
  if (g_active) {
    SchedPoint(kNormal);
    NtDrain();
  }
}
void hwy_sim_monitor(const void* addr) {
  if (!g_active) return;
  SchedPoint(kNormal);
  Thread* t = g_cur;
  if (!t->armed) {
    t->armed = true;
    ++g_num_armed;
  }
  t->line = reinterpret_cast<uintptr_t>(addr) & ~uintptr_t{63};
  // Arming is a read of the line that sees the most recent store.
  for (size_t i = 0; i < 64; i += 4) {
    for (int size : {4, 8}) {
      if (size == 8 && (i & 7)) continue;
      const uintptr_t a = t->line + i;
      size_t h = (a * 0x9E3779B97F4A7C15ull) >> 50;
      for (;; ++h) {
        Loc* e = g_locs[h & (kLocTable - 1)];
        if (!e) break;
        if (e->addr == a) {
          if (g_weak && e->valid && e->n) NoteRead(e, t, e->h[e->n - 1].gseq, false);
          break;
        }
      }
    }
  }
}
void hwy_sim_wait(void) {
  if (!g_active) return;
  SchedPoint(kNormal);
  Thread* t = g_cur;
  if (!t->armed) return;  // already triggered
  const uint64_t sp = Fault(fMonitorSpurious, 2000);
  t->state = kMonitor;
  if (sp) t->wake_step = g_step + sp;
  sim::Probe("monitor wait blocked");
  Block();
  if (t->armed) {
    t->armed = false;
    --g_num_armed;
  }
}
void hwy_sim_cpuid(uint32_t level, uint32_t count, uint32_t* abcd);
uint32_t hwy_sim_xcr0(void) { return sim::cpu.xcr0; }

// ============================================================ syscalls
static long RawSyscall(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall"
               : "=a"(ret)
               : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
               : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) {
    errno = static_cast<int>(-ret);
    return -1;
  }
  return ret;
}

static long SimFutex(uint32_t* addr, int op, uint32_t val, const timespec* timeout) {
  const int cmd = op & 127 & ~FUTEX_CLOCK_REALTIME;
  SchedPoint(kNormal);
  NtDrain();
  Thread* t = g_cur;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    HeapCheck(reinterpret_cast<uintptr_t>(addr), 4, false, 0);
    const uint32_t cur = *static_cast<volatile uint32_t*>(addr);
    if (cur != val) {
      sim::Probe("futex EAGAIN");
      errno = EAGAIN;
      return -1;
    }
    uint64_t sp = Fault(fFutexEintr, 3000);
    int res = EINTR;
    if (!sp) {
      sp = Fault(fFutexSpurious, 3000);
      res = 0;
    }
    t->state = kFutex;
    t->wait_addr = addr;
    t->wake_result = res;
    if (sp) t->wake_step = g_step + sp;
    if (timeout) {
      t->wake_ns = (cmd == FUTEX_WAIT ? g_now_ns : 0) + static_cast<uint64_t>(timeout->tv_sec) * 1000000000ull +
                   static_cast<uint64_t>(timeout->tv_nsec);
      if (!t->wake_ns) t->wake_ns = 1;
    }
    sim::Probe("futex wait blocked");
    if (g_cfg.trace) Trace("futexwait", reinterpret_cast<uintptr_t>(addr), val, 0);
    Block();
    if (t->wake_reason == 2) {
      errno = ETIMEDOUT;
      return -1;
    }
    if (t->wake_reason == 1 && t->wake_result) {
      errno = t->wake_result;
      return -1;
    }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    long n = 0;
    for (int i = 0; i < g_nth && n < static_cast<long>(static_cast<int>(val)); ++i) {
      Thread* o = g_th[i];
      if (o->state == kFutex && o->wait_addr == addr) {
        MakeRunnable(o);
        ++n;
      }
    }
    if (g_cfg.trace) Trace("futexwake", reinterpret_cast<uintptr_t>(addr), static_cast<uint64_t>(n), 0);
    SchedPoint(kNormal);
    return n;
  }
  errno = ENOSYS;
  return -1;
}

long syscall(long n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  const long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
             e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (g_active) {
    long ret = -1;
    int err = 0;
    switch (n) {
      case SYS_futex:
        return SimFutex(reinterpret_cast<uint32_t*>(a), static_cast<int>(b), static_cast<uint32_t>(c),
                        reinterpret_cast<const timespec*>(d));
      case SYS_clock_gettime:
        return clock_gettime(static_cast<clockid_t>(a), reinterpret_cast<timespec*>(b));
      case SYS_perf_event_open:
        SchedPoint(kNormal);
        if (os.perf_event_open &&
            os.perf_event_open(reinterpret_cast<void*>(a), static_cast<int>(b), static_cast<int>(c),
                               static_cast<int>(d), static_cast<unsigned long>(e), &ret, &err)) {
          if (ret < 0) errno = err;
          return ret;
        }
        errno = ENOSYS;
        return -1;
      case SYS_getrandom:
        SchedPoint(kNormal);
        if (os.getrandom && os.getrandom(reinterpret_cast<void*>(a), static_cast<size_t>(b),
                                         static_cast<unsigned>(c), &ret, &err)) {
          if (ret < 0) errno = err;
          return ret;
        }
        break;
      case SYS_sched_getaffinity:
        SchedPoint(kNormal);
        if (os.getaffinity &&
            os.getaffinity(static_cast<int>(a), static_cast<size_t>(b), reinterpret_cast<void*>(c), &ret, &err)) {
          if (ret < 0) errno = err;
          return ret;
        }
        break;
      case SYS_sched_setaffinity:
        SchedPoint(kNormal);
        if (os.setaffinity &&
            os.setaffinity(static_cast<int>(a), static_cast<size_t>(b), reinterpret_cast<void*>(c), &ret, &err)) {
          if (ret < 0) errno = err;
          return ret;
        }
        break;
      case SYS_gettid:
        return 1000 + g_cur->tid;
      default:
        break;
    }
  }
  return RawSyscall(n, a, b, c, d, e, f);
}

ssize_t getrandom(void* buf, size_t len, unsigned flags) {
  if (g_active) {
    SchedPoint(kNormal);
    long ret = -1;
    int err = 0;
    if (os.getrandom && os.getrandom(buf, len, flags, &ret, &err)) {
      if (ret < 0) errno = err;
      return ret;
    }
    // Deterministic bytes.
    static uint64_t ctr = 0;
    Rng r(++ctr + 77);
    for (size_t i = 0; i < len; ++i) static_cast<uint8_t*>(buf)[i] = static_cast<uint8_t>(r.Next());
    return static_cast<ssize_t>(len);
  }
  return RawSyscall(SYS_getrandom, reinterpret_cast<long>(buf), static_cast<long>(len), flags, 0, 0, 0);
}
int getentropy(void* buf, size_t len) {
  return getrandom(buf, len, 0) == static_cast<ssize_t>(len) ? 0 : -1;
}

static int OpenImpl(const char* path, int flags, int mode) {
  if (g_active && os.open) {
    SchedPoint(kNormal);
    int ret = -1, err = 0;
    if (os.open(path, flags, &ret, &err)) {
      if (ret < 0) errno = err;
      return ret;
    }
  }
  return static_cast<int>(RawSyscall(SYS_openat, AT_FDCWD, reinterpret_cast<long>(path), flags, mode, 0, 0));
}
int open(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  const int mode = va_arg(ap, int);
  va_end(ap);
  return OpenImpl(path, flags, mode);
}
int open64(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  const int mode = va_arg(ap, int);
  va_end(ap);
  return OpenImpl(path, flags, mode);
}
int openat(int dirfd, const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  const int mode = va_arg(ap, int);
  va_end(ap);
  (void)dirfd;
  return OpenImpl(path, flags, mode);
}
ssize_t read(int fd, void* buf, size_t n) {
  if (g_active && os.read) {
    SchedPoint(kNormal);
    long ret = -1;
    int err = 0;
    if (os.read(fd, buf, n, &ret, &err)) {
      if (ret < 0) errno = err;
      return ret;
    }
  }
  return RawSyscall(SYS_read, fd, reinterpret_cast<long>(buf), static_cast<long>(n), 0, 0, 0);
}
ssize_t pread(int fd, void* buf, size_t n, off_t off) {
  if (g_active && os.pread) {
    SchedPoint(kNormal);
    long ret = -1;
    int err = 0;
    if (os.pread(fd, buf, n, off, &ret, &err)) {
      if (ret < 0) errno = err;
      return ret;
    }
  }
  return RawSyscall(SYS_pread64, fd, reinterpret_cast<long>(buf), static_cast<long>(n), off, 0, 0);
}
ssize_t pread64(int fd, void* buf, size_t n, off64_t off) { return pread(fd, buf, n, off); }
off_t lseek(int fd, off_t off, int whence) noexcept {
  if (g_active && os.lseek) {
    long ret = -1;
    int err = 0;
    if (os.lseek(fd, off, whence, &ret, &err)) {
      if (ret < 0) errno = err;
      return ret;
    }
  }
  return RawSyscall(SYS_lseek, fd, off, whence, 0, 0, 0);
}
int close(int fd) {
  if (g_active && os.close) {
    SchedPoint(kNormal);
    int ret = -1, err = 0;
    if (os.close(fd, &ret, &err)) {
      if (ret < 0) errno = err;
      return ret;
    }
  }
  return static_cast<int>(RawSyscall(SYS_close, fd, 0, 0, 0, 0, 0));
}
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (g_active && os.ioctl) {
    SchedPoint(kNormal);
    int ret = -1, err = 0;
    if (os.ioctl(fd, req, arg, &ret, &err)) {
      if (ret < 0) errno = err;
      return ret;
    }
  }
  return static_cast<int>(RawSyscall(SYS_ioctl, fd, static_cast<long>(req), reinterpret_cast<long>(arg), 0, 0, 0));
}
int prctl(int op, ...) noexcept {
  va_list ap;
  va_start(ap, op);
  const long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long);
  va_end(ap);
  if (g_active && os.prctl) {
    SchedPoint(kNormal);
    int ret = -1, err = 0;
    if (os.prctl(op, &ret, &err)) {
      if (ret < 0) errno = err;
      return ret;
    }
  }
  return static_cast<int>(RawSyscall(SYS_prctl, op, a, b, c, d, 0));
}
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t* mask) noexcept {
  if (g_active) {
    SchedPoint(kNormal);
    long ret = -1;
    int err = 0;
    if (os.getaffinity && os.getaffinity(pid, n, mask, &ret, &err)) {
      if (ret < 0) {
        errno = err;
        return -1;
      }
      // Like glibc: clear the rest.
      if (static_cast<size_t>(ret) < n) memset(reinterpret_cast<char*>(mask) + ret, 0, n - static_cast<size_t>(ret));
      return 0;
    }
    CPU_ZERO_S(n, mask);
    for (int i = 0; i < g_hw_threads; ++i) CPU_SET_S(static_cast<size_t>(i), n, mask);
    return 0;
  }
  return RawSyscall(SYS_sched_getaffinity, pid, static_cast<long>(n), reinterpret_cast<long>(mask), 0, 0, 0) < 0 ? -1 : 0;
}
int sched_setaffinity(pid_t pid, size_t n, const cpu_set_t* mask) noexcept {
  if (g_active) {
    SchedPoint(kNormal);
    long ret = -1;
    int err = 0;
    if (os.setaffinity && os.setaffinity(pid, n, mask, &ret, &err)) {
      if (ret < 0) errno = err;
      return static_cast<int>(ret);
    }
    return 0;
  }
  return RawSyscall(SYS_sched_setaffinity, pid, static_cast<long>(n), reinterpret_cast<long>(mask), 0, 0, 0) < 0 ? -1 : 0;
}
int get_nprocs(void) noexcept { return g_hw_threads; }
int get_nprocs_conf(void) noexcept { return g_hw_threads; }
long sysconf(int name) noexcept {
  if (g_active) {
    long ret;
    if (os.sysconf && os.sysconf(name, &ret)) return ret;
    if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return g_hw_threads;
  }
  static auto real = Real<long (*)(int)>("sysconf");
  return real(name);
}
static bool StatSeam(const char* path, int* ret) {
  int err = 0;
  if (!g_active || !os.stat || !os.stat(path, ret, &err)) return false;
  if (*ret < 0) errno = err;
  return true;
}
int stat(const char* path, struct stat* st) noexcept {
  int ret = -1;
  if (StatSeam(path, &ret)) {
    if (ret == 0) memset(st, 0, sizeof(*st));
    return ret;
  }
  return static_cast<int>(RawSyscall(SYS_newfstatat, AT_FDCWD, reinterpret_cast<long>(path), reinterpret_cast<long>(st), 0, 0, 0));
}
int access(const char* path, int mode) noexcept {
  int ret = -1;
  if (StatSeam(path, &ret)) return ret;
  return static_cast<int>(RawSyscall(SYS_faccessat, AT_FDCWD, reinterpret_cast<long>(path), mode, 0, 0, 0));
}
int uname(struct utsname* u) noexcept {
  if (g_active && os.uname) {
    int ret = -1, err = 0;
    if (os.uname(u, &ret, &err)) {
      if (ret < 0) errno = err;
      return ret;
    }
  }
  return static_cast<int>(RawSyscall(SYS_uname, reinterpret_cast<long>(u), 0, 0, 0, 0, 0));
}

// ============================================================ abort
void abort(void) noexcept {
  if (!g_active) {
    static auto real = Real<void (*)()>("abort");
    real();
    __builtin_trap();
  }
  if (g_abort_hook) g_abort_hook();
  char buf[900];
  const size_t n = CapturedStderr(buf, sizeof(buf));
  // Keep the tail.
  const char* p = n > 400 ? buf + n - 400 : buf;
  Fail("abort", "abort() in t%d: %s", g_cur ? g_cur->tid : -1, p);
}
void __assert_fail(const char* expr, const char* file, unsigned line, const char*) noexcept {
  Fail("abort", "assert %s at %s:%u", expr, file, line);
}

}  // extern "C"

// operator new/delete: same block table, distinct call sites.
static void* NewImpl(size_t n, size_t align, uint32_t pc) {
  if (!g_active) {
    void* p = align > 16 ? __libc_memalign(align, n) : __libc_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
  }
  SchedPoint(kNormal);
  void* p = SimMalloc(n, align < 16 ? 16 : align, pc, false);
  if (!p) throw std::bad_alloc();
  return p;
}
static void DeleteImpl(void* p, uint32_t pc) {
  if (!p) return;
  if (InHeap(p)) {
    SchedPoint(kNormal);
    SimFree(p, pc);
  } else {
    __libc_free(p);
  }
}
void* operator new(size_t n) { return NewImpl(n, 16, PC); }
void* operator new[](size_t n) { return NewImpl(n, 16, PC); }
void* operator new(size_t n, std::align_val_t a) { return NewImpl(n, static_cast<size_t>(a), PC); }
void* operator new[](size_t n, std::align_val_t a) { return NewImpl(n, static_cast<size_t>(a), PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  if (!g_active) return __libc_malloc(n);
  return SimMalloc(n, 16, PC, false);
}
void operator delete(void* p) noexcept { DeleteImpl(p, PC); }
void operator delete[](void* p) noexcept { DeleteImpl(p, PC); }
void operator delete(void* p, size_t) noexcept { DeleteImpl(p, PC); }
void operator delete[](void* p, size_t) noexcept { DeleteImpl(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { DeleteImpl(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { DeleteImpl(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { DeleteImpl(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { DeleteImpl(p, PC); }

// ============================================================ CPUID model
// Default CPU: an Intel-like core with AVX2. Scenarios may override.
static bool DefaultCpuid(uint32_t leaf, uint32_t sub, uint32_t* r) {
  r[0] = r[1] = r[2] = r[3] = 0;
  switch (leaf) {
    case 0:
      r[0] = 0x16;
      r[1] = 0x756e6547;
      r[3] = 0x49656e69;
      r[2] = 0x6c65746e;
      return true;
    case 1:
      r[0] = 0x000306c3;
      // SSE3, PCLMUL, SSSE3, FMA, SSE4.1, SSE4.2, MOVBE, POPCNT, AES, XSAVE, OSXSAVE, AVX, F16C
      r[2] = (1u << 0) | (1u << 1) | (1u << 9) | (1u << 12) | (1u << 19) | (1u << 20) | (1u << 22) |
             (1u << 23) | (1u << 25) | (1u << 26) | (1u << 27) | (1u << 28) | (1u << 29);
      r[3] = (1u << 25) | (1u << 26) | (1u << 4) | (1u << 15) | (1u << 23) | (1u << 24);
      return true;
    case 7:
      if (sub == 0) r[1] = (1u << 3) | (1u << 5) | (1u << 8);  // BMI1 AVX2 BMI2
      return true;
    case 0x80000000u:
      r[0] = 0x80000008u;
      return true;
    case 0x80000001u:
      r[2] = (1u << 5);                 // LZCNT
      r[3] = (1u << 27) | (1u << 29);   // RDTSCP, LM
      return true;
    case 0x80000002u:
      memcpy(r, "Sim(R) CPU @ 2.0", 16);
      return true;
    case 0x80000003u:
      memcpy(r, "0GHz\0\0\0\0\0\0\0\0\0\0\0\0", 16);
      return true;
    case 0x80000007u:
      r[3] = 1u << 8;
      return true;
    default:
      return true;
  }
}
extern "C" void hwy_sim_cpuid(uint32_t level, uint32_t count, uint32_t* abcd) {
  if (g_active) SchedPoint(kNormal);
  if (sim::cpu.cpuid && sim::cpu.cpuid(level, count, abcd)) return;
  DefaultCpuid(level, count, abcd);
}
__attribute__((constructor)) static void InitCpu() { sim::cpu.xcr0 = 7; }

namespace sim {
uint64_t FaultsFired(int stream) { return g_shared->fired[stream]; }
uint64_t SleepInterruptions() { return g_cur->sleep_interruptions; }
int ThreadTidOf(unsigned long h) { return HandleTid(static_cast<pthread_t>(h)); }
}
