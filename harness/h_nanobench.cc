// C14: nanobenchmark.
#include "hwy/nanobenchmark.h"

#include <math.h>
#include <stdio.h>
#include <string.h>

#include <algorithm>
#include <memory>
#include <vector>

#include "common.h"
#include "hwy/robust_statistics.h"
#include "hwy/timer.h"

using namespace sim;
typedef unsigned long long ull;

namespace {

constexpr size_t kMaxInputs = 12;

struct World {
  size_t num_inputs;
  hwy::FuncInput inputs[kMaxInputs];
  size_t num_unique;
  hwy::FuncInput unique[kMaxInputs];  // ascending
  uint64_t cost_ns[kMaxInputs];
  uint64_t calls[kMaxInputs];
  uint64_t total_calls;
  const void* expected_arg;
  uint64_t magic;
  uint32_t outlier_per;  // every n-th call (about) is delayed, 0 = never
  uint32_t outlier_ns;
  uint32_t jitter_ns;    // every call takes up to this much longer
  uint32_t seed;
  double ghz;
  uint64_t gran;
  double read_ticks;
};
World g_w;

SIM_NOINST uint64_t OnCall(const void* arg, hwy::FuncInput in) {
  World& w = g_w;
  SIM_CHECK(arg == w.expected_arg, "wrong-argument", "function called with arg %p, expected %p", arg, w.expected_arg);
  size_t i = 0;
  while (i < w.num_unique && w.unique[i] != in) ++i;
  SIM_CHECK(i < w.num_unique, "wrong-input", "function called with input %llu, which was not given", (ull)in);
  ++w.calls[i];
  ++w.total_calls;
  uint64_t ns = w.cost_ns[i];
  if (w.outlier_per && Hash32(static_cast<uint32_t>(w.total_calls), w.seed) % w.outlier_per == 0) {
    ns += 1 + Hash32(static_cast<uint32_t>(w.total_calls), w.seed ^ 1) % w.outlier_ns;
    Probe("call delayed");
  }
  if (w.jitter_ns) ns += Hash32(static_cast<uint32_t>(w.total_calls), w.seed ^ 2) % (w.jitter_ns + 1);
  AdvanceNs(ns);
  return in * 3;
}

hwy::FuncOutput Cost(const void* arg, hwy::FuncInput in) { return OnCall(arg, in); }

// Distinct inputs of any size, each given one or more times in any order.
void ChooseInputs(World& w) {
  w.num_unique = 1 + Gen(Gen(2) ? 5 : 1);
  Rng rng(Gen(1u << 24));
  for (size_t i = 0; i < w.num_unique; ++i) {
    for (;;) {
      const uint64_t kinds[] = {rng.Below(10), rng.Next(), ~0ull - rng.Below(4), 0, 1ull << rng.Below(64)};
      const uint64_t v = kinds[rng.Below(5)];
      bool dup = false;
      for (size_t j = 0; j < i; ++j) dup |= w.unique[j] == v;
      if (dup) continue;
      w.unique[i] = v;
      break;
    }
  }
  std::sort(w.unique, w.unique + w.num_unique);
  w.num_inputs = w.num_unique + Gen(4);
  for (size_t i = 0; i < w.num_inputs; ++i) w.inputs[i] = w.unique[i < w.num_unique ? i : rng.Below(w.num_unique)];
  for (size_t i = w.num_inputs; i > 1; --i) std::swap(w.inputs[i - 1], w.inputs[rng.Below(i)]);
}

void ChooseCosts(World& w, bool nonzero) {
  const uint64_t scale = 1ull << Gen(11);
  for (size_t i = 0; i < w.num_unique; ++i) {
    w.cost_ns[i] = (Gen(4) == 3 ? 20 : 1) * Gen(scale * 4);
    if (nonzero) w.cost_ns[i] = (w.cost_ns[i] + 4 + scale / 4) & ~uint64_t{1};
  }
}

void ChooseClock(World& w, bool fine) {
  // Without jitter (every duration is a whole number of ticks) if `fine`.
  const double ghz[] = {1.0, 2.5, 4.0, 0.5, 3.7, 0.6};
  w.ghz = ghz[Gen(fine ? 4 : 6)];
  const uint64_t gran[] = {1, 1, 25, 1000, 50000};
  w.gran = fine ? 1 : gran[Gen(5)];
  const uint32_t step = 60 + 70 * static_cast<uint32_t>(Gen(3));
  const uint32_t read = static_cast<uint32_t>(Gen(3) * 20);
  SetClock(w.ghz, w.gran, step, read);
  w.read_ticks = step * w.ghz + read;
}

hwy::Params ChooseParams(bool noisy) {
  hwy::Params p;
  const size_t div[] = {1024, 256, 64, 4000};
  p.precision_divisor = div[Gen(4)];
  p.subset_ratio = 2 + Gen(3);
  const double spe[] = {1E-6, 2E-5, 1E-4};
  p.seconds_per_eval = spe[Gen(3)];
  p.min_samples_per_eval = noisy ? 80 : 1 + Gen(10);
  p.min_mode_samples = noisy ? 64 : 8 << Gen(4);
  p.max_evals = 1 + Gen(noisy ? 3 : 4);
  p.verbose = GenBool();
  return p;
}

// What must hold whatever the clock does. Returns whether it succeeded.
bool CheckAnswer(const World& w, size_t n, const hwy::Result* r, uint64_t elapsed_ticks) {
  if (n == 0) {
    Probe("measurement failed");
    return false;
  }
  SIM_CHECK(n == w.num_unique, "wrong-count", "%zu results for %zu unique inputs", n, w.num_unique);
  for (size_t i = 0; i < n; ++i) {
    SIM_CHECK(r[i].input == w.unique[i], "wrong-identity", "result %zu is for input %llu, expected %llu", i, (ull)r[i].input,
              (ull)w.unique[i]);
    SIM_CHECK(std::isfinite(r[i].ticks) && r[i].ticks >= 0, "bad-ticks", "input %llu: %g ticks", (ull)r[i].input, r[i].ticks);
    SIM_CHECK(std::isfinite(r[i].variability) && r[i].variability >= 0, "bad-variability", "input %llu: variability %g",
              (ull)r[i].input, r[i].variability);
    SIM_CHECK(static_cast<double>(r[i].ticks) <= static_cast<double>(elapsed_ticks), "bad-ticks",
              "input %llu: %g ticks, but the whole measurement took %llu", (ull)r[i].input, r[i].ticks, (ull)elapsed_ticks);
    SIM_CHECK(w.calls[i] != 0, "not-measured", "input %llu was never passed to the function", (ull)r[i].input);
  }
  return true;
}

// Upper bound on the number of calls the parameters allow.
void CheckCalls(const World& w, const hwy::Params& p, double rate_max) {
  const double spe = std::max(static_cast<double>(p.min_samples_per_eval), rate_max * p.seconds_per_eval);
  const double samples = 1 + spe * ((1 << p.max_evals) - 1);
  const double full = static_cast<double>(p.subset_ratio * p.precision_divisor * w.num_inputs);
  const double bound = samples * (static_cast<double>(w.num_unique) + full * static_cast<double>(1 + w.num_unique));
  SIM_CHECK(static_cast<double>(w.total_calls) <= bound, "too-many-calls", "%llu calls, the parameters allow %.0f", (ull)w.total_calls, bound);
}

struct Answer {
  size_t n;
  std::unique_ptr<hwy::Result[]> results;
  uint64_t elapsed;
};

void RunMeasure(World& w, const hwy::Params& p, bool closure, Answer* a) {
  // Block-exact arrays: out of bounds accesses are reported.
  std::unique_ptr<hwy::FuncInput[]> inputs(new hwy::FuncInput[w.num_inputs]);
  std::copy(w.inputs, w.inputs + w.num_inputs, inputs.get());
  a->results.reset(new hwy::Result[w.num_unique]);
  const uint64_t t0 = Ticks();
  if (closure) {
    const uint64_t magic = w.magic;
    const auto f = [magic, &w](const hwy::FuncInput in) {
      SIM_CHECK(magic == w.magic, "wrong-argument", "closure data is %llx", (ull)magic);
      return OnCall(w.expected_arg, in);
    };
    a->n = hwy::MeasureClosure(f, inputs.get(), w.num_inputs, a->results.get(), p);
  } else {
    static const uint8_t arg[4] = {1, 2, 3, 4};
    w.expected_arg = GenBool() ? arg : nullptr;
    a->n = hwy::Measure(&Cost, static_cast<const uint8_t*>(w.expected_arg), inputs.get(), w.num_inputs, a->results.get(), p);
  }
  a->elapsed = Ticks() - t0;
  SIM_CHECK(std::equal(w.inputs, w.inputs + w.num_inputs, inputs.get()), "inputs-modified", "the input array was modified");
}

// Agreement with the true costs.
void CheckAccuracy(const World& w, const hwy::Params& p, const hwy::Result* r, double slack_rel) {
  double min_cost = 1E30, sum = 0;
  for (size_t i = 0; i < w.num_unique; ++i) min_cost = std::min(min_cost, static_cast<double>(w.cost_ns[i]) * w.ghz);
  for (size_t i = 0; i < w.num_inputs; ++i)
    for (size_t j = 0; j < w.num_unique; ++j)
      if (w.unique[j] == w.inputs[i]) sum += static_cast<double>(w.cost_ns[j]) * w.ghz;
  for (size_t i = 0; i < w.num_unique; ++i) {
    const double truth = static_cast<double>(w.cost_ns[i]) * w.ghz, got = r[i].ticks;
    // The difference of two totals, each within the variability and the clock's resolution,
    // divided by how many calls were skipped.
    const double skip = std::max(1.0, std::floor(static_cast<double>(p.precision_divisor) / (min_cost + 4)));
    const double total = sum * static_cast<double>(p.subset_ratio) * (skip + 1);
    const double all_calls = static_cast<double>(p.subset_ratio * w.num_inputs), jitter = static_cast<double>(w.jitter_ns) * w.ghz;
    const double tol = truth * 0.01 + (4.0 + 4.0 * static_cast<double>(w.gran) + total * r[i].variability * slack_rel) / skip +
                       2.0 * all_calls * jitter * (skip + 1.0) / skip;
    // Undisturbed totals differ by at most the clock's resolution, and so does the median of their deviations.
    const double calls = static_cast<double>(p.subset_ratio * w.num_inputs - 1);
    const double least = std::max(1.0, min_cost * calls - 2.0 * static_cast<double>(w.gran));
    const double most = (4.0 + 2.0 * static_cast<double>(w.gran)) / least + jitter / min_cost;
    SIM_CHECK(static_cast<double>(r[i].variability) <= most, "bad-variability", "input %llu: variability %g, but timings differ by at most %g", (ull)r[i].input,
              r[i].variability, most);
    SIM_CHECK(fabs(got - truth) <= tol, "inaccurate", "input %llu costs %.1f ticks, measured %.1f (variability %.4f, tolerance %.2f)",
              (ull)r[i].input, truth, got, r[i].variability, tol);
  }
}

void Begin() {
  SetWeakMemory(false);
  SetStepBudget(60000000, 30000000);
  memset(&g_w, 0, sizeof(g_w));
  g_w.magic = 0x1234567890ABCDEFull;
}

}  // namespace

// Nothing disturbs the measurement.
SIM_SCENARIO(C14, calm, 3) {
  Begin();
  World& w = g_w;
  ChooseInputs(w);
  ChooseClock(w, true);
  ChooseCosts(w, true);
  const hwy::Params p = ChooseParams(false);
  // Passing an input to the function takes time, which is to be deducted.
  SetHeapReadCost(static_cast<uint32_t>(Gen(4)) * 40);
  Answer a;
  RunMeasure(w, p, GenBool(), &a);
  SIM_CHECK(CheckAnswer(w, a.n, a.results.get(), a.elapsed), "failed", "measurement of an undisturbed function failed");
  CheckAccuracy(w, p, a.results.get(), 0.5);
  CheckCalls(w, p, w.ghz * 1.01E9);
}

// A minority of the measured intervals contains a delay.
SIM_SCENARIO(C14, preempted, 4) {
  Begin();
  World& w = g_w;
  ChooseInputs(w);
  ChooseClock(w, true);
  ChooseCosts(w, true);
  const hwy::Params p = ChooseParams(true);
  switch (Gen(3)) {
    case 0: EnableFault(fClockJump, 40000); break;
    default: {
      // Calls per timed interval: at most this many.
      uint64_t min_cost = ~0ull;
      for (size_t i = 0; i < w.num_unique; ++i) min_cost = std::min(min_cost, w.cost_ns[i]);
      const double skip = static_cast<double>(p.precision_divisor) / (static_cast<double>(min_cost) * w.ghz) + 2;
      const double calls = skip * static_cast<double>(p.subset_ratio * w.num_inputs);
      w.outlier_per = static_cast<uint32_t>(calls * static_cast<double>(12 + Gen(40)));
      w.outlier_ns = 1u << (5 + Gen(20));
      w.seed = static_cast<uint32_t>(Gen(1u << 20));
    }
  }
  if (Gen(3) == 2) {
    uint64_t least = ~0ull;
    for (size_t i = 0; i < w.num_unique; ++i) least = std::min(least, w.cost_ns[i]);
    w.jitter_ns = 1 + static_cast<uint32_t>(Gen(least / 8 + 1));
    Probe("jitter");
  }
  // Passing an input to the function takes time, which is to be deducted.
  SetHeapReadCost(static_cast<uint32_t>(Gen(4)) * 40);
  Answer a;
  RunMeasure(w, p, GenBool(), &a);
  SIM_CHECK(CheckAnswer(w, a.n, a.results.get(), a.elapsed), "failed", "measurement with few delays failed");
  CheckAccuracy(w, p, a.results.get(), 1.0);
  CheckCalls(w, p, w.ghz * 2.1E9);
}

// Any clock: coarse, jumping, free functions.
SIM_SCENARIO(C14, hostile, 5) {
  Begin();
  World& w = g_w;
  ChooseInputs(w);
  ChooseClock(w, false);
  ChooseCosts(w, false);
  if (Gen(4) == 3)
    for (size_t i = 0; i < w.num_unique; ++i) w.cost_ns[i] = 0;
  const hwy::Params p = ChooseParams(false);
  EnableFault(fClockJump, 300000);
  if (GenBool()) {
    w.outlier_per = 1 + static_cast<uint32_t>(Gen(2000));
    w.outlier_ns = 1u << Gen(26);
    w.seed = static_cast<uint32_t>(Gen(1u << 20));
  }
  Answer a;
  RunMeasure(w, p, GenBool(), &a);
  CheckAnswer(w, a.n, a.results.get(), a.elapsed);
  CheckCalls(w, p, w.ghz * 2.1E9 + 2000.0 * static_cast<double>(w.gran));
}

namespace {
bool OldCpu(uint32_t leaf, uint32_t, uint32_t* r) {
  if (leaf != 0x80000001u) return false;
  r[0] = r[1] = r[2] = 0;
  r[3] = 1u << 29;
  return true;
}
}  // namespace
// A function that never becomes stable: the number of evaluations is bounded exactly.
SIM_SCENARIO(C14, unstable, 2) {
  Begin();
  World& w = g_w;
  ChooseInputs(w);
  ChooseClock(w, true);
  for (size_t i = 0; i < w.num_unique; ++i) w.cost_ns[i] = 2000;
  w.outlier_per = 1;
  w.outlier_ns = 1u << 14;
  w.seed = static_cast<uint32_t>(Gen(1u << 20));
  hwy::Params p = ChooseParams(false);
  p.precision_divisor = 1;
  p.seconds_per_eval = 1E-9;
  p.target_rel_mad = 0.0;
  Answer a;
  RunMeasure(w, p, GenBool(), &a);
  CheckAnswer(w, a.n, a.results.get(), a.elapsed);
  const uint64_t samples = 1 + p.min_samples_per_eval * ((1ull << p.max_evals) - 1);
  const uint64_t full = p.subset_ratio * w.num_inputs, u = w.num_unique;
  const uint64_t bound = samples * (u + full + u * (full - 1));
  SIM_CHECK(w.total_calls <= bound, "too-many-calls", "%llu calls, at most %llu expected", (ull)w.total_calls, (ull)bound);
  // Every call takes between 2000 and 18384 ns, uniformly: the deviation of sums of `full` such.
  if (a.n && p.min_samples_per_eval >= 8 && p.min_samples_per_eval * ((1ull << p.max_evals) - 1) >= 40) {
    const double least = 0.46 / sqrt(static_cast<double>(full)) * 0.1;
    for (size_t i = 0; i < a.n; ++i)
      SIM_CHECK(static_cast<double>(a.results[i].variability) >= least, "bad-variability", "input %llu: variability %g although timings vary by at least %g",
                (ull)a.results[i].input, static_cast<double>(a.results[i].variability), least);
    Probe("variability of unstable timings");
  }
}

SIM_SCENARIO(C14, old_cpu, 1) {
  Begin();
  World& w = g_w;
  cpu.cpuid = &OldCpu;
  ChooseInputs(w);
  ChooseClock(w, true);
  ChooseCosts(w, true);
  const hwy::Params p = ChooseParams(false);
  Answer a;
  RunMeasure(w, p, GenBool(), &a);
  SIM_CHECK(a.n == 0, "not-refused", "measured on a CPU without RDTSCP");
  SIM_CHECK(w.total_calls == 0, "not-refused", "function called on a CPU without RDTSCP");
}

// Two threads measure at once: each sees the other's time as noise.
namespace {
struct ThreadArg {
  hwy::Params p;
  Answer a;
};
void MeasureMain(void* arg) {
  ThreadArg* t = static_cast<ThreadArg*>(arg);
  RunMeasure(g_w, t->p, true, &t->a);
}
}  // namespace
SIM_SCENARIO(C14, concurrent, 2) {
  Begin();
  World& w = g_w;
  EnableFault(fStall, 400000);
  EnableFault(fLateStart, 400000);
  ChooseInputs(w);
  ChooseClock(w, false);
  ChooseCosts(w, GenBool());
  ThreadArg t[2];
  t[0].p = ChooseParams(false);
  t[1].p = ChooseParams(false);
  const int tid = Spawn(&MeasureMain, &t[1]);
  MeasureMain(&t[0]);
  Join(tid);
  for (const ThreadArg& x : t) CheckAnswer(w, x.a.n, x.a.results.get(), x.a.elapsed);
}

// The estimators behind the timings: fewer than half of the measurements are
// disturbed (in order of arrival decided by the schedule), the rest is not.
namespace {

constexpr size_t kMaxTimes = 300;

SIM_NOINST uint64_t RefMedian(uint64_t* v, size_t n) {
  std::sort(v, v + n);
  return n % 2 ? v[n / 2] : (v[n / 2] + v[n / 2 - 1] + 1) / 2;
}
// Half-sample mode; false if any step has more than one narrowest half.
SIM_NOINST bool RefMode(const uint64_t* sorted, size_t n, uint64_t* mode) {
  size_t begin = 0, left = n;
  for (; left > 2; left = left / 2 + 1) {  // the densest window of more than half of them
    const size_t half = left / 2;
    uint64_t best = ~0ull;
    size_t at = 0, num = 0;
    for (size_t i = begin; i + half < begin + left; ++i) {
      const uint64_t range = sorted[i + half] - sorted[i];
      if (range < best) {
        best = range;
        at = i;
        num = 0;
      }
      num += range == best;
    }
    if (num != 1) return false;
    begin = at;
  }
  *mode = left == 2 ? (sorted[begin] + sorted[begin + 1] + 1) / 2 : sorted[begin];
  return true;
}

}  // namespace

SIM_SCENARIO(C14, robust, 1) {
  EnableFault(fCostOutlier, 600000);
  static uint64_t times[kMaxTimes], work[kMaxTimes], sorted[kMaxTimes];
  const size_t n = 1 + static_cast<size_t>(GenBool() ? Gen(12) : Gen(kMaxTimes));
  const uint64_t kinds = Gen(4);
  const uint64_t base = kinds == 3 ? 1ull << (10 + Gen(50)) : 100 + Gen(100000), spread = Gen(3) ? 1 + Gen(base / 2) : 1;
  Rng rng(Gen(1u << 20));
  size_t disturbed = 0;
  for (size_t i = 0; i < n; ++i) {
    times[i] = base + rng.Below(spread);
    const uint64_t f = 2 * (disturbed + 1) < n ? Fault(fCostOutlier, 5) : 0;
    if (f == 1) times[i] *= 4;
    if (f == 2) times[i] /= 50;
    if (f == 3) times[i] += base / 2 + 1;
    if (f == 4) times[i] = rng.Below(2 * base);
    if (f == 5) times[i] = base + spread;
    disturbed += f != 0;
  }
  memcpy(sorted, times, sizeof(times));
  const uint64_t median = RefMedian(sorted, n);

  namespace rs = hwy::robust_statistics;
  memcpy(work, times, sizeof(times));
  rs::CountingSort(work, n);
  SIM_CHECK(memcmp(work, sorted, n * sizeof(uint64_t)) == 0, "wrong-estimate", "CountingSort of %zu timings", n);
  memcpy(work, times, sizeof(times));
  const uint64_t got_median = rs::Median(work, n);
  SIM_CHECK(got_median == median, "wrong-estimate", "Median of %zu timings is %llu, not %llu", n, static_cast<ull>(got_median), static_cast<ull>(median));
  if (disturbed * 2 < n) {
    SIM_CHECK(got_median >= base && got_median <= base + spread, "not-robust", "Median %llu of %zu timings (%zu disturbed)", static_cast<ull>(got_median), n,
              disturbed);
  }
  memcpy(work, times, sizeof(times));
  const uint64_t mode = rs::Mode(work, n);
  SIM_CHECK(mode >= sorted[0] && mode <= sorted[n - 1], "wrong-estimate", "Mode %llu of %zu timings in [%llu, %llu]", static_cast<ull>(mode), n,
            static_cast<ull>(sorted[0]), static_cast<ull>(sorted[n - 1]));
  SIM_CHECK(rs::ModeOfSorted(sorted, n) == mode, "wrong-estimate", "Mode of %zu timings depends on their order", n);
  size_t equal = 0;
  for (size_t i = 0; i < n; ++i) equal += times[i] == base;
  if (equal >= n / 2 + 1) SIM_CHECK(mode == base, "not-robust", "Mode %llu, although %zu of %zu timings are %llu", static_cast<ull>(mode), equal, n, static_cast<ull>(base));
  uint64_t want;
  if (RefMode(sorted, n, &want)) {
    SIM_CHECK(mode == want, "wrong-estimate", "Mode of %zu timings is %llu, not %llu", n, static_cast<ull>(mode), static_cast<ull>(want));
    Probe("half-sample mode is unique");
  }
  for (size_t i = 0; i < n; ++i) work[i] = times[i] > median ? times[i] - median : median - times[i];
  const uint64_t mad = RefMedian(work, n);
  const uint64_t got_mad = rs::MedianAbsoluteDeviation(times, n, median);
  SIM_CHECK(got_mad == mad, "wrong-estimate", "MedianAbsoluteDeviation of %zu timings is %llu, not %llu", n, static_cast<ull>(got_mad), static_cast<ull>(mad));
}
