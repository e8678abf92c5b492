// C06: AutoTune and CostDistribution.
#include <stdio.h>

#include <algorithm>
#include <vector>

#include "common.h"
#include "hwy/auto_tune.h"

using namespace sim;

namespace {

struct Range {
  double lo = 1e300, hi = -1.0;
  uint64_t n = 0;
  void Add(double x) {
    lo = std::min(lo, x);
    hi = std::max(hi, x);
    ++n;
  }
};

void CheckEstimate(double est, const Range& r, const char* what, size_t idx) {
  const double tol = 1e-6 * (r.hi + 1.0);
  SIM_CHECK(est >= r.lo - tol && est <= r.hi + tol, "estimate-out-of-range",
            "%s %zu: estimate %g is outside the %llu notified costs [%g, %g]", what, idx, est,
            (unsigned long long)r.n, r.lo, r.hi);
}

// One stream of costs per candidate.
struct Source {
  int kind;
  double base;
  double noise;  // relative
  Rng rng{1};
  uint64_t n = 0;

  uint64_t Next() {
    const uint64_t i = n++;
    const double u = static_cast<double>(rng.Below(1000001)) * 1e-6 * 2.0 - 1.0;
    double x = base * (1.0 + noise * u);
    switch (kind) {
      case 0: break;                                              // noisy
      case 1: x = base; break;                                    // constant
      case 2: x = (i & 1) ? base : base * 4; break;               // bimodal
      case 3: x = base * (1.0 + static_cast<double>(i)); break;   // growing
      case 4: x = base * 100.0 / (1.0 + static_cast<double>(i)); break;  // shrinking
      case 5: x = i < 7 ? base : base * 10; break;                // level shift
      case 6: x = i < 30 ? base * 10 : base; break;
      case 7: x = static_cast<double>(rng.Below(3)); break;       // coarse clock
      case 8: x = static_cast<double>(rng.Next() >> rng.Below(64)); break;  // anything
      default: x = 0.0; break;
    }
    const uint64_t f = Fault(fCostOutlier, 6);
    if (f) {
      const double mul[] = {1.0, 20.0, 3.0, 1000.0, 0.5, 0.01, 1e12};
      x *= mul[f];
    }
    if (x < 0) x = 0;
    if (x > 1.8e19) x = 1.8e19;
    return static_cast<uint64_t>(x);
  }
};

double GenBase() {
  const double b[] = {1000, 100, 1e6, 10, 1, 1e12, 1e18};
  return b[Gen(7)];
}

template <size_t kMin>
void AnyCosts() {
  const size_t num = Gen(4) == 0 ? 1 + Gen(120) : 1 + Gen(12);
  hwy::AutoTune<int, kMin> tuner;
  std::vector<int> cand(num);
  for (size_t i = 0; i < num; ++i) cand[i] = static_cast<int>(1000 + i);
  std::vector<Source> src(num);
  const bool same_kind = GenBool();
  const int kind0 = static_cast<int>(Gen(10));
  const double base = GenBase();
  Rng setup(Gen(1u << 20));
  for (size_t i = 0; i < num; ++i) {
    src[i].kind = same_kind ? kind0 : static_cast<int>(setup.Below(10));
    src[i].base = base * (1.0 + 0.01 * static_cast<double>(setup.Below(500)));
    src[i].noise = 0.01 * static_cast<double>(setup.Below(60));
    src[i].rng = Rng(setup.Next());
  }
  SIM_CHECK(!tuner.HasCandidates(), "wrong-state", "HasCandidates before SetCandidates");
  tuner.SetCandidates(cand);
  std::vector<Range> ranges(num);
  std::vector<uint8_t> active(num, 1), seen(num, 0);
  const uint64_t bound = num * (3 * kMin / 2 + 1);
  uint64_t calls = 0;
  size_t prev = num;  // none
  while (!tuner.Best()) {
    SIM_CHECK(calls < bound, "tuning-unbounded", "%zu candidates, kMinSamples %zu: no winner after %llu notifications", num,
              kMin, (unsigned long long)calls);
    const size_t idx = static_cast<size_t>(tuner.NextConfig() - 1000);
    SIM_CHECK(idx < num, "wrong-candidate", "NextConfig returned %d", tuner.NextConfig());
    // Round robin: candidates are only ever dropped, never resurrected.
    if (prev == num || idx <= prev) {  // new round
      for (size_t i = 0; i < num; ++i) {
        if (prev != num && active[i] && !seen[i]) active[i] = 0;
        seen[i] = 0;
      }
    }
    SIM_CHECK(active[idx], "wrong-candidate", "candidate %zu was measured again after being dropped", idx);
    seen[idx] = 1;
    prev = idx;
    const uint64_t cost = src[idx].Next();
    ranges[idx].Add(static_cast<double>(cost));
    tuner.NotifyCost(cost);
    ++calls;
  }
  for (size_t i = 0; i < num; ++i)
    SIM_CHECK(ranges[i].n >= kMin, "not-measured", "candidate %zu measured %llu times, kMinSamples %zu", i,
              (unsigned long long)ranges[i].n, kMin);
  const int* best = tuner.Best();
  const int best_value = *best;
  const auto all = tuner.Candidates();
  SIM_CHECK(all.size() == num && best >= all.data() && best < all.data() + num && best_value == 1000 + (best - all.data()),
            "wrong-candidate", "Best is not a member of Candidates");
  const size_t ib = static_cast<size_t>(best_value - 1000);
  auto costs = tuner.Costs();
  SIM_CHECK(costs.size() == num, "wrong-candidate", "%zu costs", costs.size());
  const double best_cost = costs[ib].EstimateCost();
  for (size_t i = 0; i < num; ++i) {
    const double e = costs[i].EstimateCost();
    CheckEstimate(e, ranges[i], "candidate", i);
    SIM_CHECK(best_cost <= e, "not-best", "winner %zu costs %g, but candidate %zu costs %g", ib, best_cost, i, e);
  }
  SIM_CHECK(tuner.Best() == best && *tuner.Best() == best_value, "not-stable", "Best changed");
  if (calls < bound) Probe("some candidates dropped early");
}

template <size_t kMin>
void ClearMargin(bool outliers, bool many = false) {
  const size_t num = many ? 16383 - Gen(9000) : Gen(4) == 0 ? 2 + Gen(60) : 2 + Gen(10);
  hwy::AutoTune<int, kMin> tuner;
  std::vector<int> cand(num);
  for (size_t i = 0; i < num; ++i) cand[i] = static_cast<int>(i);
  tuner.SetCandidates(cand);
  const size_t good = Gen(num);
  const double base = 1e3 * static_cast<double>(1 + Gen(1000));
  const bool coarse = Gen(4) == 3;  // quantised: many equal measurements
  const double noise = GenBool() ? 0.04 : 0.005 * static_cast<double>(Gen(31));
  Rng rng(Gen(1u << 20));
  // At most 1 in 5 of any window of 14 consecutive measurements of a
  // candidate is disturbed.
  struct State {
    double base;
    uint32_t recent = 0;  // bit per measurement: outlier
  };
  std::vector<State> st(num);
  std::vector<uint32_t> measured(num, 0);
  for (size_t i = 0; i < num; ++i)
    st[i].base = i == good ? base : base * (2.0 + 0.01 * static_cast<double>(rng.Below(300)));
  uint64_t injected = 0;
  while (!tuner.Best()) {
    const size_t idx = static_cast<size_t>(tuner.NextConfig());
    State& s = st[idx];
    double x = s.base * (1.0 + noise * (static_cast<double>(rng.Below(2001)) * 1e-3 - 1.0));
    if (coarse) x = s.base;
    bool out = false;
    if (outliers && __builtin_popcount(s.recent & 0x1FFF) < 3) {
      const uint64_t f = Fault(fCostOutlier, 8);
      const double mul[] = {1.0, 20.0, 3.0, 300.0, 0.6, 0.3, 5.0, 2.0, 8.0};
      x *= mul[f];
      out = f != 0;
      injected += out;
    }
    s.recent = (s.recent << 1) | out;
    ++measured[idx];
    tuner.NotifyCost(static_cast<uint64_t>(x));
  }
  if (!outliers) {
    for (size_t i = 0; i < num; ++i)
      SIM_CHECK(i == good || measured[i] <= kMin + 1, "not-dropped",
                "kMinSamples %zu, %zu candidates: candidate %zu, at least 2x worse than the best, was measured %u times", kMin, num, i, measured[i]);
  }
  if (injected) Probe("outliers injected");
  SIM_CHECK(static_cast<size_t>(*tuner.Best()) == good, "wrong-winner",
            "kMinSamples %zu, %zu candidates: candidate %zu (base %g) won although %zu (base %g) is at least 2x cheaper", kMin, num,
            static_cast<size_t>(*tuner.Best()), st[static_cast<size_t>(*tuner.Best())].base, good, base);
}

}  // namespace

SIM_SCENARIO(C06, any_costs, 3) {
  EnableFault(fCostOutlier, 400000);
  switch (Gen(6)) {
    case 0: return AnyCosts<30>();
    case 1: return AnyCosts<2>();
    case 2: return AnyCosts<1>();
    case 3: return AnyCosts<5>();
    case 4: return AnyCosts<14>();
    default: return AnyCosts<60>();
  }
}

SIM_SCENARIO(C06, clear_margin, 3) {
  EnableFault(fCostOutlier, 300000);
  switch (Gen(GenRange(0, 30) == 30 ? 6 : 5)) {
    case 0: return ClearMargin<30>(true);
    case 1: return ClearMargin<2>(false);
    case 2: return ClearMargin<5>(false);
    case 3: return ClearMargin<20>(true);
    case 5: return ClearMargin<1>(false, true);
    default: return ClearMargin<60>(true);
  }
}

namespace {
// Leaves other values on the unused part of the stack.
SIM_NOINST __attribute__((noinline)) void Garbage(double value) {
  double buf[400];
  for (double& d : buf) d = value;
  asm volatile("" : : "r"(buf) : "memory");
}

// Neither the estimates nor the choice depend on the unit of the costs.
void UnitOfCosts() {
  const size_t num = 1 + Gen(8);
  constexpr size_t kMin = 6;
  hwy::AutoTune<int, kMin> a, b;
  std::vector<int> cand(num);
  std::vector<Source> src(num);
  const double base = 10.0 * static_cast<double>(1 + Gen(10000));
  Rng setup(Gen(1u << 20));
  for (size_t i = 0; i < num; ++i) {
    cand[i] = static_cast<int>(i);
    src[i].kind = static_cast<int>(setup.Below(8));
    src[i].base = base * (1.0 + 0.02 * static_cast<double>(setup.Below(50)));
    src[i].noise = 0.01 * static_cast<double>(setup.Below(60));
    src[i].rng = Rng(setup.Next());
  }
  const int shift = static_cast<int>(1 + Gen(10));
  a.SetCandidates(cand);
  b.SetCandidates(cand);
  while (!a.Best()) {
    const int idx = a.NextConfig();
    SIM_CHECK(!b.Best() && b.NextConfig() == idx, "unit-dependent", "costs in units of 1/%u: candidate %d is measured instead of %d", 1u << shift,
              b.Best() ? *b.Best() : b.NextConfig(), idx);
    uint64_t cost = src[static_cast<size_t>(idx)].Next();
    if (cost >> 40) cost = 1ull << 40;
    Garbage(1.0);
    a.NotifyCost(cost);
    Garbage(1E9);
    b.NotifyCost(cost << shift);
  }
  SIM_CHECK(b.Best() && *b.Best() == *a.Best(), "unit-dependent", "costs in units of 1/%u: another winner", 1u << shift);
  for (size_t i = 0; i < num; ++i) {
    const double ea = a.Costs()[i].EstimateCost() * static_cast<double>(1u << shift), eb = b.Costs()[i].EstimateCost();
    SIM_CHECK(eb >= ea * (1 - 1E-9) && eb <= ea * (1 + 1E-9), "unit-dependent", "costs in units of 1/%u: estimate %g instead of %g", 1u << shift, eb, ea);
  }
}
}  // namespace

SIM_SCENARIO(C06, unit, 1) {
  EnableFault(fCostOutlier, 200000);
  UnitOfCosts();
}

// The estimator on its own, with sequences of any length.
SIM_SCENARIO(C06, distribution, 3) {
  EnableFault(fCostOutlier, 400000);
  hwy::CostDistribution d, scaled;
  const double scale = static_cast<double>(1ull << Gen(20)) / 64;
  Source s;
  s.kind = static_cast<int>(Gen(10));
  s.base = GenBase();
  s.noise = 0.01 * static_cast<double>(Gen(60));
  s.rng = Rng(Gen(1u << 20));
  const uint64_t n = Gen(3) == 0 ? 1 + Gen(600) : 1 + Gen(40);
  const uint64_t early = Gen(n + 1);
  Range r;
  for (uint64_t i = 0; i < n; ++i) {
    const double x = static_cast<double>(s.Next());
    r.Add(x);
    d.Notify(x);
    scaled.Notify(x * scale);
    if (i == early || (i + 1 == n)) {
      Garbage(1.0);
      const double e = d.EstimateCost();
      Garbage(1E6);
      const double es = scaled.EstimateCost() / scale;
      SIM_CHECK(es >= e * (1 - 1E-9) && es <= e * (1 + 1E-9), "unit-dependent", "estimate of costs times %g is %g instead of %g", scale, es * scale,
                e * scale);
      CheckEstimate(e, r, "distribution", 0);
      SIM_CHECK(e == d.EstimateCost(), "not-stable", "EstimateCost changed without new costs");
    }
  }
}
