// C13: timer.{h,cc}.
#include "hwy/timer.h"

#include <math.h>
#include <stdio.h>
#include <string.h>

#include <atomic>
#include <memory>

#include "common.h"

using namespace sim;
typedef unsigned long long ull;

namespace {

struct Clk {
  double ghz;
  uint64_t gran;
  uint32_t step_ns;
  uint32_t read;
};
Clk ChooseClock() {
  const double ghz[] = {1.0, 2.5, 3.7, 0.024, 0.6};
  const uint32_t step[] = {200, 60, 1000};
  Clk k;
  k.ghz = ghz[Gen(5)];
  const uint64_t gran[] = {1, 1, 1, 25, 1000, 20000};
  k.gran = gran[Gen(6)];
  k.step_ns = step[Gen(3)];
  k.read = static_cast<uint32_t>(Gen(3) * 20);
  SetClock(k.ghz, k.gran, k.step_ns, k.read);
  const uint64_t up[] = {0, 0, 86400ull * 1000000000ull, 86400ull * 400 * 1000000000ull};
  AdvanceNs(up[Gen(4)]);
  return k;
}

// The rate and the error the clock's granularity allows.
double Eps(const Clk& k) { return 0.004 + 2.0 * static_cast<double>(k.gran) / (k.ghz * 1E9 * 0.01); }

void CheckRate(double rate, const Clk& k, bool calm, uint64_t jumps) {
  const double truth = k.ghz * 1E9, eps = Eps(k);
  SIM_CHECK(rate > 0 && std::isfinite(rate), "bad-rate", "rate %g (true %g)", rate, truth);
  if (!calm) return;
  // A delay between the two clocks' reads at the start of a repetition lowers
  // its estimate, one at its end raises it: at most by the longest delay.
  if (jumps <= 2)
    SIM_CHECK(rate >= truth * (1 - eps), "rate-too-low", "rate %.6g, true %.6g, with only %llu delays", rate, truth, (ull)jumps);
  SIM_CHECK(rate <= truth * (1 + eps + (jumps ? 1.001 : 0)), "rate-too-high", "rate %.6g, true %.6g with %llu delays", rate, truth,
            (ull)jumps);
}

void CheckResolution(uint64_t res, const Clk& k) {
  const double typical = (k.step_ns * k.ghz) + k.read;
  if (k.gran == 1) {
    SIM_CHECK(fabs(static_cast<double>(res) - typical) <= 2 + typical * 0.01, "wrong-resolution", "resolution %llu, back-to-back reads take %.1f",
              (ull)res, typical);
  } else {
    SIM_CHECK(static_cast<double>(res) <= typical + static_cast<double>(k.gran) + 1, "wrong-resolution",
              "resolution %llu, reads take %.1f, granularity %llu", (ull)res, typical, (ull)k.gran);
  }
}

// One reading: between the tick counts before and after.
double Reading(double rate) {
  const uint64_t before = Ticks();
  const double now = hwy::platform::Now();
  const uint64_t after = Ticks();
  const double lo = static_cast<double>(before) / rate, hi = static_cast<double>(after) / rate;
  const double tol = 1E-9 + hi * 1E-12;
  SIM_CHECK(now >= lo - tol && now <= hi + tol, "wrong-time", "Now() is %.9f, clock went from %.9f to %.9f", now, lo, hi);
  return now;
}

struct Shared {
  std::atomic<uint64_t> latest_bits{0};  // of the latest published time
  std::atomic<uint64_t> rate_bits{0};
  uint32_t rounds;
};
uint64_t Bits(double d) {
  uint64_t b;
  memcpy(&b, &d, 8);
  return b;
}
double FromBits(uint64_t b) {
  double d;
  memcpy(&d, &b, 8);
  return d;
}

struct ThreadArg {
  Shared* s;
  uint32_t index;
  uint32_t form;
};

void Reader(void* arg) {
  ThreadArg* a = static_cast<ThreadArg*>(arg);
  Shared* s = a->s;
  double rate = 0;
  double prev = 0;
  if (a->form == 0) prev = hwy::platform::Now();  // first use through Now
  if (a->form == 1) rate = hwy::platform::InvariantTicksPerSecond();
  if (a->form == 2) {
    hwy::Timestamp t;
    prev = t.t;
  }
  for (uint32_t i = 0; i < s->rounds; ++i) {
    const double r = hwy::platform::InvariantTicksPerSecond();
    SIM_CHECK(rate == 0 || r == rate, "rate-changed", "rate was %.9g, now %.9g", rate, r);
    rate = r;
    uint64_t expected = 0;
    if (!s->rate_bits.compare_exchange_strong(expected, Bits(r)))
      SIM_CHECK(expected == Bits(r), "rate-changed", "threads disagree on the rate: %.9g and %.9g", FromBits(expected), r);
    // Whatever another thread read before is not in the future.
    const double seen = FromBits(s->latest_bits.load());
    const double now = Reading(rate);
    SIM_CHECK(now >= prev, "went-backwards", "Now() returned %.9f after %.9f", now, prev);
    SIM_CHECK(now >= seen, "went-backwards", "Now() returned %.9f after another thread's %.9f", now, seen);
    prev = now;
    uint64_t cur = s->latest_bits.load();
    while (FromBits(cur) < now && !s->latest_bits.compare_exchange_weak(cur, Bits(now))) {
    }
    const hwy::Timestamp t0;
    const uint64_t k0 = Ticks();
    if (Hash32(i, a->index) % 8 == 1) AdvanceNs(1ull << (Hash32(i, 9) % 37));
    if (Hash32(i, a->index) % 3 == 0) Sleep(1 + Hash32(i, 7) % 100000);
    const uint64_t k1 = Ticks();
    const double elapsed = hwy::SecondsSince(t0);
    const uint64_t k2 = Ticks();
    SIM_CHECK(t0.t >= prev, "went-backwards", "Timestamp %.9f after %.9f", t0.t, prev);
    const double tol = 1E-8 + t0.t * 1E-12;
    SIM_CHECK(elapsed >= static_cast<double>(k1 - k0) / rate - tol, "wrong-elapsed", "SecondsSince %.9f, at least %.9f elapsed", elapsed,
              static_cast<double>(k1 - k0) / rate);
    SIM_CHECK(t0.t + elapsed <= static_cast<double>(k2) / rate + tol, "wrong-elapsed", "SecondsSince %.9f exceeds the current time", elapsed);
    prev = t0.t + elapsed - 1E-9 - t0.t * 1E-15;
  }
}

}  // namespace

// Several threads use the timer for the first time.
SIM_SCENARIO(C13, first_use, 5) {
  SetStepBudget(3000000, 8000000);
  EnableFault(fLateStart, 400000);
  EnableFault(fStall, 400000);
  EnableFault(fClockJump, 30000);
  EnableFault(fSleepEintr, 300000);
  ChooseClock();
  Shared s;
  s.rounds = 1 + static_cast<uint32_t>(Gen(6));
  const int n = 1 + static_cast<int>(Gen(5));
  ThreadArg args[6];
  int tids[6];
  for (int i = 0; i < n; ++i) {
    args[i] = ThreadArg{&s, static_cast<uint32_t>(i), static_cast<uint32_t>(Gen(3))};
    tids[i] = Spawn(&Reader, &args[i]);
  }
  if (GenBool()) {
    ThreadArg mine = {&s, 77, static_cast<uint32_t>(Gen(3))};
    Reader(&mine);
  }
  for (int i = 0; i < n; ++i) Join(tids[i]);
}

// Up to two delays at chosen reads: the n-th read of one kind after a time that is near the
// start or a multiple of 10 ms, where a delay hurts most.
namespace {
struct Delay {
  uint64_t after_ns;
  bool ticks;
  uint64_t nth;
  uint64_t ns;
};
Delay g_delays[2];
int g_num_delays;
SIM_NOINST uint64_t PlannedDelay(bool is_ticks) {
  for (int i = 0; i < g_num_delays; ++i) {
    Delay& d = g_delays[i];
    if (!d.ns || NowNs() < d.after_ns || d.ticks != is_ticks || d.nth-- != 0) continue;
    const uint64_t ns = d.ns;
    d.ns = 0;
    Probe("planned delay");
    return ns;
  }
  return 0;
}
void PlanDelays() {
  g_num_delays = 1 + static_cast<int>(Gen(2));
  for (int i = 0; i < g_num_delays; ++i) {
    g_delays[i].after_ns = NowNs() + 10000000 * Gen(4);
    g_delays[i].ticks = Gen(4) != 3;
    g_delays[i].nth = Gen(Gen(4) == 3 ? 1000 : 3);
    g_delays[i].ns = 1000000 + Gen(9000000);
  }
  clock_delay = &PlannedDelay;
}
}  // namespace

// One thread calibrates; clock reads are delayed or not.
SIM_SCENARIO(C13, calibration, 5) {
  SetWeakMemory(false);
  SetStepBudget(20000000, 8000000);
  const Clk k = ChooseClock();
  switch (Gen(4)) {
    case 1: EnableFault(fClockJump, Gen(2) ? 20 : 2000); break;
    case 2:
    case 3: PlanDelays(); break;
  }
  const double rate = hwy::platform::InvariantTicksPerSecond();
  const uint64_t fired = FaultsFired(fClockJump);
  if (fired == 0) Probe("calibration undisturbed");
  if (fired == 1 || fired == 2) Probe("calibration with 1-2 delays");
  if (fired > 2) Probe("calibration with more delays");
  CheckRate(rate, k, true, fired);
  SIM_CHECK(hwy::platform::InvariantTicksPerSecond() == rate, "rate-changed", "second query differs");
  for (int i = 0; i < 4; ++i) Reading(rate);
  // A measured interval matches real time.
  const uint64_t n0 = NowNs();
  const hwy::Timestamp t0;
  AdvanceNs(1000000ull << Gen(12));
  const uint64_t n1 = NowNs();
  const double elapsed = hwy::SecondsSince(t0);
  if (fired == 0) {
    const double lo = 1E-9 * static_cast<double>(n1 - n0), hi = 1E-9 * static_cast<double>(NowNs() - n0);
    const double gran_s = 2.0 * static_cast<double>(k.gran) / (k.ghz * 1E9) + t0.t * 1E-12;
    const double read_s = 1E-5;
    SIM_CHECK(elapsed >= lo * (1 - Eps(k)) - gran_s - read_s && elapsed <= hi * (1 + Eps(k)) + gran_s + read_s, "wrong-interval",
              "interval of %.9f to %.9f s measured as %.9f", lo, hi, elapsed);
  }
}

// A phase (at most a fifth of the measurement) in which every reading is slow.
namespace {
uint64_t g_burst_from, g_burst_to, g_burst_n;
uint32_t g_burst_seed, g_burst_max;
SIM_NOINST uint64_t BurstDelay(bool) {
  const uint64_t n = g_burst_n++;
  if (n < g_burst_from || n >= g_burst_to) return 0;
  return Hash32(static_cast<uint32_t>(n), g_burst_seed) % g_burst_max;
}
}  // namespace
SIM_SCENARIO(C13, resolution, 3) {
  SetWeakMemory(false);
  SetStepBudget(20000000, 8000000);
  if (GenBool()) EnableFault(fClockJump, 50000);
  const Clk k = ChooseClock();
  if (GenBool()) {
    g_burst_from = Gen(110000);
    g_burst_to = g_burst_from + Gen(25000);
    g_burst_seed = static_cast<uint32_t>(Gen(1u << 20));
    g_burst_max = 1u << (4 + Gen(16));
    clock_delay = &BurstDelay;
  }
  const uint64_t res = hwy::platform::TimerResolution();
  CheckResolution(res, k);
}

// Concurrent calibrations must all terminate.
namespace {
void ResolutionMain(void* arg) { *static_cast<uint64_t*>(arg) = hwy::platform::TimerResolution(); }
}  // namespace
SIM_SCENARIO(C13, concurrent_resolution, 1) {
  SetWeakMemory(false);
  SetStepBudget(2000000, 20000000);
  EnableFault(fStall, 400000);
  EnableFault(fClockJump, 3000);
  const Clk k = ChooseClock();
  uint64_t res[3];
  int tids[3];
  const int n = 1 + static_cast<int>(Gen(3));
  for (int i = 0; i < n; ++i) tids[i] = Spawn(&ResolutionMain, &res[i]);
  for (int i = 0; i < n; ++i) Join(tids[i]);
  const double back_to_back = (k.step_ns * k.ghz) + k.read;
  for (int i = 0; i < n; ++i)
    SIM_CHECK(k.gran != 1 || static_cast<double>(res[i]) >= back_to_back - 2 - 0.01 * back_to_back, "wrong-resolution",
              "resolution %llu, reads take at least %.1f", (ull)res[i], back_to_back);
}

// CPU descriptions.
namespace {
struct CpuDesc {
  bool few, ext8, brand, rdtscp, invariant;
  char name[48];
} g_cpu;
SIM_NOINST bool DescCpuid(uint32_t leaf, uint32_t, uint32_t* r) {
  r[0] = r[1] = r[2] = r[3] = 0;
  if (leaf == 0x80000000u) {
    r[0] = g_cpu.brand ? (g_cpu.few ? 0x80000004u : 0x80000008u) : g_cpu.ext8 ? 0x80000001u : 0;
    return true;
  }
  if (leaf == 0x80000001u) {
    r[3] = (1u << 29) | (g_cpu.rdtscp ? 1u << 27 : 0);
    r[0] = r[1] = r[2] = ~r[3];
    return true;
  }
  if (leaf == 0x80000007u) {
    r[3] = g_cpu.invariant ? 1u << 8 : 0;
    r[0] = r[1] = r[2] = ~r[3];
    return true;
  }
  if (leaf >= 0x80000002u && leaf <= 0x80000004u) {
    memcpy(r, g_cpu.name + 16 * (leaf - 0x80000002u), 16);
    return true;
  }
  return false;
}
void DescMain(void*) {
  char expect[49];
  memcpy(expect, g_cpu.name, 48);
  expect[48] = 0;
  for (int i = 0; i < 2; ++i) {
    std::unique_ptr<char[]> buf(new char[100]);
    memset(buf.get(), 'x', 100);
    const bool ok = hwy::platform::GetCpuString(buf.get());
    SIM_CHECK(ok == g_cpu.brand, "wrong-cpu", "GetCpuString returned %d", ok);
    SIM_CHECK(memchr(buf.get(), 0, 100), "wrong-cpu", "GetCpuString did not terminate the string");
    if (ok) SIM_CHECK(!strcmp(buf.get(), expect), "wrong-cpu", "GetCpuString: '%s', expected '%s'", buf.get(), expect);
    memset(buf.get(), 'x', 100);
    const bool stop = hwy::platform::HaveTimerStop(buf.get());
    SIM_CHECK(stop == g_cpu.rdtscp, "wrong-cpu", "HaveTimerStop returned %d", stop);
    SIM_CHECK(memchr(buf.get(), 0, 100), "wrong-cpu", "HaveTimerStop did not terminate the string");
    if (!stop && g_cpu.brand) SIM_CHECK(!strcmp(buf.get(), expect), "wrong-cpu", "HaveTimerStop: '%s', expected '%s'", buf.get(), expect);
  }
}
}  // namespace
SIM_SCENARIO(C13, cpu_description, 2) {
  SetStepBudget(3000000, 8000000);
  cpu.cpuid = &DescCpuid;
  g_cpu.brand = GenBool();
  g_cpu.ext8 = true;
  g_cpu.few = GenBool();
  g_cpu.rdtscp = GenBool();
  g_cpu.invariant = GenBool();
  Rng rng(Gen(1u << 20));
  const uint64_t len = Gen(49);
  for (uint64_t i = 0; i < 48; ++i) g_cpu.name[i] = i < len ? static_cast<char>(1 + rng.Below(126)) : 0;
  const int t = Spawn(&DescMain, nullptr);
  DescMain(nullptr);
  Join(t);
  // Works on old CPUs, too.
  if (Gen(4) == 3) {
    const Clk k = ChooseClock();
    CheckResolution(hwy::platform::TimerResolution(), k);
  }
}
