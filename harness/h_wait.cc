// C07: futex.h and spin.h.
#include <atomic>
#include <memory>
#include <vector>

#include "common.h"
#include "hwy/contrib/thread_pool/futex.h"
#include "hwy/contrib/thread_pool/spin.h"
#include "hwy/timer.h"

using namespace sim;
typedef unsigned long long ull;

namespace {

constexpr int kMaxValues = 40;

enum WaitKind { kFutex = 0, kSpinFirst = 1 };

// Values are `first`, `first`+1, ...; `payload[i]` is plain data written
// before `first + i` is stored.
struct World {
  alignas(64) std::atomic<uint32_t> value{0};
  uint32_t first = 0;
  uint32_t last_offset = 0;
  uint64_t payload[kMaxValues + 1] = {};
  bool use_futex = true;
  hwy::SpinType spin = hwy::SpinType::kPause;
  std::atomic<uint32_t> stored{0};  // highest offset stored so far (harness bookkeeping)
  int work = 0;
};

uint32_t Until(World* w, uint32_t prev) {
  if (w->use_futex) return hwy::BlockUntilDifferent(prev, w->value);
  uint32_t ret = 0;
  hwy::CallWithSpin(w->spin, [&](const auto& spin) { ret = spin.UntilDifferent(prev, w->value).current; });
  return ret;
}

void CheckReturned(World* w, uint32_t prev, uint32_t got) {
  SIM_CHECK(got != prev, "condition-false", "wait for a value other than %u returned %u", prev, got);
  const uint32_t off = got - w->first;
  SIM_CHECK(off <= w->last_offset, "invented-value", "wait returned %u, which was never stored (first %u, last offset %u)", got,
            w->first, w->last_offset);
  // Synchronises with the store: reading the plain payload is not a race.
  const uint64_t p = w->payload[off];
  SIM_CHECK(p == off * 3 + 1, "not-synchronised", "payload of value offset %u is %llu", off, (ull)p);
}

void Follower(void* arg) {
  World* w = static_cast<World*>(arg);
  uint32_t prev = w->first;
  while (prev - w->first != w->last_offset) {
    const uint32_t got = Until(w, prev);
    CheckReturned(w, prev, got);
    SIM_CHECK(got - w->first > prev - w->first, "went-backwards", "wait returned %u after %u", got, prev);
    prev = got;
    if (w->work) WorkFor(w->work);
  }
}

// Waits once for "different from a value that is not current": must return at once.
void Immediate(void* arg) {
  World* w = static_cast<World*>(arg);
  const uint32_t never = w->first - 7;
  const uint32_t got = Until(w, never);
  CheckReturned(w, never, got);
}

void PickWait(World* w) {
  const int cpu_kind = ChooseSpinCpu();
  switch (Gen(4)) {
    case 0:
    case 1: w->use_futex = true; break;
    default: {
      w->use_futex = false;
      const int disabled = Gen(3) == 2 ? ((1 << static_cast<int>(hwy::SpinType::kMonitorX)) |
                                         (1 << static_cast<int>(hwy::SpinType::kUMonitor)))
                                      : 0;
      w->spin = hwy::DetectSpin(disabled);
      const hwy::SpinType expect = disabled || cpu_kind == 0 ? hwy::SpinType::kPause
                                   : cpu_kind == 1           ? hwy::SpinType::kMonitorX
                                                             : hwy::SpinType::kUMonitor;
      SIM_CHECK(w->spin == expect, "wrong-spin-type", "DetectSpin(%d) on CPU kind %d: %d", disabled, cpu_kind,
                static_cast<int>(w->spin));
      if (w->spin != hwy::SpinType::kPause) Probe("monitor wait");
    }
  }
}

void Publish(World* w, uint32_t off) {
  w->payload[off] = off * 3 + 1;
  w->value.store(w->first + off, std::memory_order_release);
  if (w->use_futex) hwy::WakeAll(w->value);
}

}  // namespace

// One writer stores increasing values, any number of threads follow it.
SIM_SCENARIO(C07, followers, 4) {
  CommonFaults();
  SetStepBudget(40000, 2000000);
  auto w = std::make_unique<World>();
  PickWait(w.get());
  const uint32_t firsts[] = {0, 1, 0xFFFFFFF0u, 0x7FFFFFFEu};
  w->first = firsts[Gen(4)];
  w->last_offset = 1 + static_cast<uint32_t>(Gen(Gen(3) == 0 ? kMaxValues : 6));
  w->value.store(w->first, std::memory_order_relaxed);
  w->payload[0] = 1;
  w->work = static_cast<int>(Gen(4) * 3);
  const int waiters = static_cast<int>(1 + Gen(Gen(4) == 0 ? 16 : 4));
  std::vector<int> tids;
  for (int i = 0; i < waiters; ++i) tids.push_back(Spawn(&Follower, w.get()));
  const int pace = static_cast<int>(Gen(4) * 8);
  for (uint32_t off = 1; off <= w->last_offset; ++off) {
    if (pace) WorkFor(static_cast<int>(Hash32(off, 5) % static_cast<uint32_t>(pace)));
    Publish(w.get(), off);
    if (Hash32(off, 6) % 8 == 0) Immediate(w.get());
  }
  for (int t : tids) Join(t);
}

// Several writers, each changing the value once under its own turn.
namespace {
struct Relay {
  World* w;
  uint32_t turn, step;
};
void RelayMain(void* arg) {
  Relay* r = static_cast<Relay*>(arg);
  World* w = r->w;
  // Waits until the value reaches its turn, publishes the next, and so on.
  for (uint32_t off = r->turn; off < w->last_offset; off += r->step) {
    uint32_t cur = w->value.load(std::memory_order_acquire);
    while (cur - w->first < off) {
      const uint32_t got = Until(w, cur);
      CheckReturned(w, cur, got);
      cur = got;
    }
    SIM_CHECK(cur - w->first == off, "invented-value", "offset %u in turn %u", cur - w->first, off);
    // Sees everything every predecessor wrote.
    for (uint32_t i = 0; i <= off; ++i)
      SIM_CHECK(w->payload[i] == i * 3 + 1, "not-synchronised", "payload %u is %llu", i, (ull)w->payload[i]);
    Publish(w, off + 1);
  }
}
}  // namespace

SIM_SCENARIO(C07, relay, 3) {
  CommonFaults();
  SetStepBudget(40000, 2000000);
  auto w = std::make_unique<World>();
  PickWait(w.get());
  w->first = GenBool() ? 0 : 0xFFFFFFFAu;
  const uint32_t threads = 2 + static_cast<uint32_t>(Gen(4));
  w->last_offset = threads * (1 + static_cast<uint32_t>(Gen(6)));
  w->value.store(w->first, std::memory_order_relaxed);
  w->payload[0] = 1;
  std::vector<Relay> rs(threads);
  std::vector<int> tids;
  for (uint32_t i = 0; i < threads; ++i) rs[i] = Relay{w.get(), i, threads};
  for (uint32_t i = 1; i < threads; ++i) tids.push_back(Spawn(&RelayMain, &rs[i]));
  RelayMain(&rs[0]);
  for (int t : tids) Join(t);
}

// UntilEqual in both directions: ping-pong over two cache lines or one.
namespace {
struct PingPong {
  alignas(64) std::atomic<uint32_t> ping{0};
  std::atomic<uint32_t> pong_same_line{0};
  alignas(64) std::atomic<uint32_t> pong_other{0};
  std::atomic<uint32_t>* pong = nullptr;
  std::atomic<uint32_t> noise{0};  // same line as pong_other: disturbs monitors
  uint64_t data = 0;               // plain, alternately owned
  uint32_t rounds = 0;
  hwy::SpinType spin = hwy::SpinType::kPause;
};
void WaitEqual(PingPong* p, uint32_t expected, const std::atomic<uint32_t>& v) {
  hwy::CallWithSpin(p->spin, [&](const auto& spin) { (void)spin.UntilEqual(expected, v); });
  SIM_CHECK(v.load(std::memory_order_acquire) == expected, "condition-false", "UntilEqual(%u) returned at %u", expected,
            v.load(std::memory_order_relaxed));
}
void Ponger(void* arg) {
  PingPong* p = static_cast<PingPong*>(arg);
  for (uint32_t r = 1; r <= p->rounds; ++r) {
    WaitEqual(p, r, p->ping);
    SIM_CHECK(p->data == r * 10, "not-synchronised", "data %llu in round %u", (ull)p->data, r);
    p->data = r * 10 + 1;
    p->pong->store(r, std::memory_order_release);
    p->noise.store(r, std::memory_order_relaxed);
  }
}
}  // namespace

SIM_SCENARIO(C07, until_equal, 3) {
  CommonFaults();
  SetStepBudget(40000, 2000000);
  auto p = std::make_unique<PingPong>();
  World w;
  PickWait(&w);
  p->spin = w.use_futex ? hwy::DetectSpin() : w.spin;
  p->pong = GenBool() ? &p->pong_same_line : &p->pong_other;
  p->rounds = 1 + static_cast<uint32_t>(Gen(12));
  const int t = Spawn(&Ponger, p.get());
  for (uint32_t r = 1; r <= p->rounds; ++r) {
    p->data = r * 10;
    p->ping.store(r, std::memory_order_release);
    p->noise.store(r + 100, std::memory_order_relaxed);
    WaitEqual(p.get(), r, *p->pong);
    SIM_CHECK(p->data == r * 10 + 1, "not-synchronised", "data %llu in round %u", (ull)p->data, r);
  }
  Join(t);
}

// NanoSleep, possibly from several threads at once.
namespace {
struct Sleeper {
  uint64_t ns;
};
bool g_alone;  // No other thread could delay the caller.
void SleepMain(void* arg) {
  const uint64_t ns = static_cast<Sleeper*>(arg)->ns;
  const uint64_t t0 = NowNs();
  const uint64_t i0 = SleepInterruptions();
  const bool ok = hwy::NanoSleep(ns);
  const uint64_t elapsed = NowNs() - t0;
  const uint64_t interrupted = SleepInterruptions() - i0;
  if (ok && interrupted < 3)
    SIM_CHECK(elapsed >= ns, "slept-short", "NanoSleep(%llu) took %llu ns with %llu interruptions", (ull)ns, (ull)elapsed,
              (ull)interrupted);
  // 1 ms covers the time of the calls themselves.
  if (g_alone && ok)
    SIM_CHECK(elapsed <= ns + 1000000, "slept-long", "NanoSleep(%llu) took %llu ns with %llu interruptions", (ull)ns,
              (ull)elapsed, (ull)interrupted);
  if (interrupted) Probe("sleep interrupted");
  if (interrupted >= 3) Probe("sleep retry limit");
}
}  // namespace

// Interruptions must not lengthen the sleep either.
SIM_SCENARIO(C07, nanosleep_alone, 1) {
  EnableFault(fSleepEintr, 600000);
  g_alone = true;
  Sleeper s;
  s.ns = GenRange(0, 5) * 1000000000ull + Gen(1000000000);
  SleepMain(&s);
}

SIM_SCENARIO(C07, nanosleep, 1) {
  CommonFaults();
  g_alone = false;
  EnableFault(fSleepEintr, 600000);
  const uint64_t base[] = {0, 1, 1000, 2000, 999999999ull, 1000000000ull, 5000000001ull, 123456789ull};
  const int n = static_cast<int>(1 + Gen(4));
  std::vector<Sleeper> s(static_cast<size_t>(n));
  std::vector<int> tids;
  for (int i = 0; i < n; ++i) s[static_cast<size_t>(i)].ns = base[Gen(8)] + Gen(3);
  for (int i = 1; i < n; ++i) tids.push_back(Spawn(&SleepMain, &s[static_cast<size_t>(i)]));
  SleepMain(&s[0]);
  for (int t : tids) Join(t);
}
