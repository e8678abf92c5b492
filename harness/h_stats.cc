// C22: statistics gathered by several threads and merged.
#include <math.h>
#include <stdio.h>
#include <string.h>

#include <string>

#include "common.h"
#include "hwy/stats.h"

using namespace sim;
typedef unsigned long long ull;

namespace {

constexpr size_t kMaxThreads = 6, kMaxSamples = 400, kBins = 12;

struct Shared {
  size_t num;
  float samples[kMaxSamples];
  uint8_t bin[kMaxSamples];
  size_t next;  // under `lock`
  bool dynamic;
  size_t threads, chunk;
  uint8_t merge_yield;
};
Shared g;
SIM_NOINST size_t Take(size_t* end) {  // from a shared queue (not part of the code under test)
  const size_t begin = g.next;
  *end = begin + g.chunk < g.num ? begin + g.chunk : g.num;
  g.next = *end;
  return begin;
}

struct Mine {
  size_t id;
  hwy::Stats stats;
  hwy::Bins<kBins> bins;
  size_t taken = 0;
};
void Gather(void* arg) {
  Mine* m = static_cast<Mine*>(arg);
  if (g.dynamic) {
    for (;;) {
      Yield();
      size_t end;
      const size_t begin = Take(&end);
      if (begin == end) break;
      for (size_t i = begin; i < end; ++i) {
        m->stats.Notify(g.samples[i]);
        m->bins.Notify(static_cast<int>(g.bin[i]));
      }
      m->taken += end - begin;
    }
  } else {
    for (size_t i = g.num * m->id / g.threads; i < g.num * (m->id + 1) / g.threads; ++i) {
      m->stats.Notify(g.samples[i]);
      m->bins.Notify(static_cast<size_t>(g.bin[i]));
      ++m->taken;
      if (i % 16 == 0) Yield();
    }
  }
}

// Merges pairs in a tree, by several threads.
struct MergeJob {
  Mine* to;
  const Mine* from;
};
void MergeMain(void* arg) {
  const MergeJob* j = static_cast<const MergeJob*>(arg);
  Yield();
  j->to->stats.Assimilate(j->from->stats);
  j->to->bins.Assimilate(j->from->bins);
}

struct Moments {
  long double n, mean, m2, m3, m4, log;
  float min, max;
};
SIM_NOINST Moments Reference(const float* x, size_t num) {
  Moments r = {};
  r.n = static_cast<long double>(num);
  r.min = 3.402823466e+38f;
  r.max = -3.402823466e+38f;
  for (size_t i = 0; i < num; ++i) {
    r.mean += x[i];
    r.log += logl(static_cast<long double>(x[i]));
    r.min = x[i] < r.min ? x[i] : r.min;
    r.max = x[i] > r.max ? x[i] : r.max;
  }
  if (num) r.mean /= r.n;
  for (size_t i = 0; i < num; ++i) {
    const long double d = x[i] - r.mean;
    r.m2 += d * d;
    r.m3 += d * d * d;
    r.m4 += d * d * d * d;
  }
  return r;
}
SIM_NOINST void Near(const char* what, double got, long double want, long double scale) {
  const long double err = fabsl(static_cast<long double>(got) - want);
  SIM_CHECK(err <= 1E-7L * (fabsl(want) + scale), "wrong-statistic", "%s of %zu samples is %.12g, not %.12g", what, g.num, got,
            static_cast<double>(want));
}

// Leaves a recognisable string on the unused part of the stack.
SIM_NOINST __attribute__((noinline)) void Garbage() {
  char buf[3000];
  memset(buf, 'x', sizeof(buf) - 1);
  buf[sizeof(buf) - 1] = 0;
  asm volatile("" : : "r"(buf) : "memory");
}

// `times`: every sample was counted this often.
SIM_NOINST void Check(const hwy::Stats& s, const Moments& r, long double times, bool positive) {
  SIM_CHECK(s.Count() == static_cast<int64_t>(r.n * times), "wrong-statistic", "Count is %lld of %.0Lf samples", static_cast<long long>(s.Count()),
            r.n * times);
  if (r.n == 0) {
    SIM_CHECK(s.Mean() == 0.0 && s.Variance() == 0.0 && s.GeometricMean() == 0.0 && s.SampleVariance() == 0.0 && s.ToString() == "(none)",
              "wrong-statistic", "statistics of no samples are not zero");
    return;
  }
  SIM_CHECK(s.Min() == r.min && s.Max() == r.max, "wrong-statistic", "min %g max %g instead of %g and %g", static_cast<double>(s.Min()),
            static_cast<double>(s.Max()), static_cast<double>(r.min), static_cast<double>(r.max));
  const long double n = r.n * times, m2 = r.m2 * times, m3 = r.m3 * times, m4 = r.m4 * times;
  const long double range = static_cast<long double>(r.max) - r.min, big = fmaxl(fabsl(r.max), fabsl(r.min));
  const long double sd = sqrtl(m2 / n);
  Near("Mean", s.Mean(), r.mean, big);
  Near("Mu1", s.Mu1(), r.mean, big);
  if (positive) Near("GeometricMean", s.GeometricMean(), expl(r.log / r.n), 0.0L);
  // Cancellation if the offset is large.
  const long double cancel = big * big * 1E-3L;
  Near("SampleVariance", s.SampleVariance(), m2 / n, cancel);
  Near("Mu2", s.Mu2(), m2 / n, cancel);
  Near("Variance", s.Variance(), n < 2 ? m2 : m2 / (n - 1), cancel);
  if (sd > big * 1E-2L) Near("StandardDeviation", s.StandardDeviation(), n < 2 ? sd : sqrtl(m2 / (n - 1)), big);
  if (m2 < 1E-6L) {
    if (m2 < 1E-8L) {
      SIM_CHECK(fabs(s.SampleSkewness()) == 0.0 && fabs(s.SampleKurtosis()) == 0.0, "wrong-statistic", "skewness of (nearly) constant samples");
    }
    return;
  }
  if (sd < big * 1E-2L) return;
  (void)range;
  Near("Mu3", s.Mu3(), m3 / n, big * big * big);
  Near("Mu4", s.Mu4(), m4 / n, big * big * big * big);
  const long double skew = m3 * sqrtl(n) / powl(m2, 1.5L), kurt = m4 * n / (m2 * m2), ratio = (n - 1) / n;
  Near("SampleSkewness", s.SampleSkewness(), skew, 1E3L);
  Near("Skewness", s.Skewness(), skew * powl(ratio, 1.5L), 1E3L);
  Near("SampleKurtosis", s.SampleKurtosis(), kurt, 1E3L);
  Near("Kurtosis", s.Kurtosis(), kurt * ratio * ratio, 1E3L);
  // Text: the parts that are not excluded, each as in the full text.
  const std::string text = s.ToString();
  char want[64];
  snprintf(want, sizeof(want), "Count=%9zu ", static_cast<size_t>(s.Count()));
  SIM_CHECK(text.compare(0, strlen(want), want) == 0, "wrong-text", "ToString: %s", text.c_str());
  static const char* const kParts[5] = {"Count=", "Mean=", "Min=", "Skew=", "GeoMean="};
  size_t pos[6];
  for (size_t i = 0; i < 5; ++i) {
    pos[i] = text.find(kParts[i]);
    SIM_CHECK(pos[i] != std::string::npos && (i == 0 || pos[i] > pos[i - 1]), "wrong-text", "no %s in ToString: %s", kParts[i], text.c_str());
  }
  pos[5] = text.size();
  const int exclude = static_cast<int>(Gen(32));
  std::string parts;
  for (size_t i = 0; i < 5; ++i) {
    if (!(exclude >> i & 1)) parts += text.substr(pos[i], pos[i + 1] - pos[i]);
  }
  Garbage();
  const std::string some = s.ToString(exclude);
  SIM_CHECK(some == parts, "wrong-text", "ToString(%d) is '%.400s', not '%s'", exclude, some.c_str(), parts.c_str());
}

SIM_NOINST void Fill(bool* positive) {
  Rng rng(Gen(1u << 20));
  const uint64_t kind = Gen(7);
  const float offset = static_cast<float>(Gen(3) * 40);
  *positive = true;
  for (size_t i = 0; i < g.num; ++i) {
    const float u = static_cast<float>(rng.Below(1u << 20)) / (1u << 20);
    float x = 1.0f;
    switch (kind) {
      case 0: x = 1.0f + u * 100.0f + offset; break;
      case 1: x = 3.0f; break;
      case 2: x = 1.0f + static_cast<float>(rng.Below(3)); break;
      case 3: x = 1.0f / (u + 1E-3f); break;
      case 4: x = 1E-6f * (1 + u); break;
      case 5: x = 1E6f * (0.5f + u); break;
      default: x = (u - 0.5f) * 50.0f; *positive = false; break;
    }
    g.samples[i] = x;
    g.bin[i] = static_cast<uint8_t>(rng.Below(GenBool() ? kBins : 3));
  }
}

}  // namespace

SIM_SCENARIO(C22, merge, 3) {
  CommonFaults();
  SetStepBudget(100000, 1000000);
  g.num = static_cast<size_t>(GenBool() ? Gen(8) : Gen(kMaxSamples + 1));
  bool positive;
  Fill(&positive);
  g.threads = 1 + static_cast<size_t>(Gen(kMaxThreads));
  g.dynamic = GenBool();
  g.chunk = 1 + static_cast<size_t>(Gen(50));
  g.next = 0;
  static Mine mine[kMaxThreads + 2];
  int tids[kMaxThreads];
  for (size_t t = 0; t < g.threads; ++t) {
    mine[t].id = t;
    if (t) tids[t] = Spawn(&Gather, &mine[t]);
  }
  Gather(&mine[0]);
  for (size_t t = 1; t < g.threads; ++t) Join(tids[t]);

  // In any order, in a chain or a tree, into one of them or an empty one.
  Mine* list[kMaxThreads + 1];
  size_t n = 0;
  if (GenBool()) list[n++] = &mine[kMaxThreads];
  for (size_t t = 0; t < g.threads; ++t) list[n++] = &mine[t];
  for (size_t i = n; i > 1; --i) {
    const size_t k = static_cast<size_t>(Gen(i));
    Mine* t = list[i - 1];
    list[i - 1] = list[k];
    list[k] = t;
  }
  if (GenBool()) {
    for (size_t i = 1; i < n; ++i) {
      list[0]->stats.Assimilate(list[i]->stats);
      list[0]->bins.Assimilate(list[i]->bins);
    }
  } else {
    for (size_t half = 1; half < n; half *= 2) {
      MergeJob jobs[kMaxThreads];
      int ids[kMaxThreads];
      size_t num = 0;
      for (size_t i = 0; i + half < n; i += 2 * half) {
        jobs[num] = MergeJob{list[i], list[i + half]};
        ids[num] = Spawn(&MergeMain, &jobs[num]);
        ++num;
      }
      for (size_t i = 0; i < num; ++i) Join(ids[i]);
    }
  }
  const Moments ref = Reference(g.samples, g.num);
  Check(list[0]->stats, ref, 1, positive);

  size_t counts[kBins] = {};
  size_t last = 0;
  for (size_t i = 0; i < g.num; ++i) {
    ++counts[g.bin[i]];
    if (g.bin[i] > last) last = g.bin[i];
  }
  char buf[2048];
  const size_t before = CapturedStderr(buf, sizeof(buf));
  list[0]->bins.Print("bins");
  const size_t len = CapturedStderr(buf, sizeof(buf));
  char want[1024];
  int pos = snprintf(want, sizeof(want), "\nbins [%zu]\n", kBins);
  for (size_t i = 0; i <= last; ++i) pos += snprintf(want + pos, sizeof(want) - static_cast<size_t>(pos), "  %zu\n", counts[i]);
  SIM_CHECK(len - before == static_cast<size_t>(pos) && memcmp(buf + before, want, len - before) == 0, "wrong-bins", "Bins printed %.*s instead of %s",
            static_cast<int>(len - before), buf + before, want);
  // Reset forgets everything.
  list[0]->stats.Reset();
  list[0]->bins.Reset();
  list[0]->stats.Notify(2.0f);
  SIM_CHECK(list[0]->stats.Count() == 1 && list[0]->stats.Mean() == 2.0 && list[0]->stats.Min() == 2.0f && list[0]->stats.Max() == 2.0f &&
                list[0]->stats.Variance() == 0.0,
            "wrong-statistic", "after Reset");
}

// A history of merges that leads to very large counts.
SIM_SCENARIO(C22, many_merges, 1) {
  CommonFaults();
  g.num = 2 + static_cast<size_t>(Gen(20));
  bool positive;
  Fill(&positive);
  hwy::Stats s;
  for (size_t i = 0; i < g.num; ++i) s.Notify(g.samples[i]);
  const Moments ref = Reference(g.samples, g.num);
  long double times = 1;
  const int doublings = static_cast<int>(Gen(36));
  for (int i = 0; i < doublings; ++i) {
    const hwy::Stats copy(s);
    s.Assimilate(copy);
    times *= 2;
  }
  Check(s, ref, times, positive);
  // The same samples once more, one by one.
  for (size_t i = 0; i < g.num; ++i) s.Notify(g.samples[i]);
  Check(s, ref, times + 1, positive);
}
