// C20: random number streams of several threads.
#include <stdlib.h>
#include <string.h>

#include <array>
#include <memory>
#include <new>
#include <utility>

#include "common.h"
#include "hwy/contrib/random/random-inl.h"

using namespace sim;
typedef unsigned long long ull;

// ------------------------------------------------ reference: xoshiro256++, sequentially
struct Ref {
  uint64_t s[4];
  static uint64_t Rot(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t Next() {
    const uint64_t r = Rot(s[0] + s[3], 23) + s[0];
    const uint64_t t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = Rot(s[3], 45);
    return r;
  }
  // Polynomials of 2^128 and 2^192 steps.
  void Advance(const uint64_t (&poly)[4]) {
    uint64_t a[4] = {0, 0, 0, 0};
    for (uint64_t word : poly) {
      for (int b = 0; b < 64; ++b) {
        if ((word >> b) & 1)
          for (int k = 0; k < 4; ++k) a[k] ^= s[k];
        Next();
      }
    }
    memcpy(s, a, sizeof(a));
  }
  void Jump() { Advance({0x180ec6d33cfd0abaull, 0xd5a61266f0c9392cull, 0xa9582618e03fc9aaull, 0x39abdc4529b1661cull}); }
  void LongJump() { Advance({0x76e15d3efefdcbbfull, 0xc5004e441c522fb3ull, 0x77710069854ee241ull, 0x39109bb02acbe635ull}); }
  explicit Ref(uint64_t seed) {
    for (int k = 0; k < 4; ++k) {
      uint64_t z = (seed += 0x9e3779b97f4a7c15ull);
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      s[k] = z ^ (z >> 31);
    }
  }
};
static double RefUniform(uint64_t bits) { return static_cast<double>(bits >> 11) * (1.0 / 9007199254740992.0); }

HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {

constexpr size_t kLanes = HWY_MAX_BYTES / 8;
enum Kind { kVector, kCached1, kCached2, kCached16, kCached1024, kScalar, kNumKinds };

// One stream and its reference.
struct RandomStream {
  Kind kind;
  uint64_t seed, number;
  std::unique_ptr<VectorXoshiro> vec;
  std::unique_ptr<CachedXoshiro<1>> c1;
  std::unique_ptr<CachedXoshiro<2>> c2;
  std::unique_ptr<CachedXoshiro<16>> c16;
  std::unique_ptr<CachedXoshiro<1024>> c1024;
  std::unique_ptr<internal::Xoshiro> scalar;
  Ref ref[kLanes] = {
#if HWY_MAX_BYTES >= 64
      Ref(0), Ref(0), Ref(0), Ref(0),
#endif
#if HWY_MAX_BYTES >= 32
      Ref(0), Ref(0),
#endif
#if HWY_MAX_BYTES >= 16
      Ref(0),
#endif
      Ref(0)};
  uint64_t pending[kLanes];  // of the last reference vector, for cached generators
  size_t used = 0, have = 0;

  SIM_NOINST void InitRef() {
    Ref r(seed);
    if (kind == kScalar) {
      for (uint64_t i = 0; i < number; ++i) r.Jump();
      ref[0] = r;
      return;
    }
    for (uint64_t i = 0; i < number; ++i) r.LongJump();
    for (size_t l = 0; l < kLanes; ++l) {
      ref[l] = r;
      r.Jump();
    }
  }
  void Create() {
    switch (kind) {
      case kVector: vec.reset(new VectorXoshiro(seed, number)); break;
      case kCached1: c1.reset(new CachedXoshiro<1>(seed, number)); break;
      case kCached2: c2.reset(new CachedXoshiro<2>(seed, number)); break;
      case kCached16: c16.reset(new CachedXoshiro<16>(seed, number)); break;
      case kCached1024: c1024.reset(new CachedXoshiro<1024>(seed, number)); break;
      default: scalar.reset(new internal::Xoshiro(seed, number)); break;
    }
  }
  // What whole vectors of draws yield: n numbers, from as many vectors as needed.
  SIM_NOINST void Expect(uint64_t* out, size_t n) {
    for (size_t i = 0; i < n; i += kLanes) {
      for (size_t l = 0; l < kLanes; ++l) {
        const uint64_t v = ref[l].Next();
        if (i + l < n) out[i + l] = v;
      }
    }
  }
  // What a cached generator yields next: it refills `size` at a time.
  SIM_NOINST uint64_t ExpectCached(size_t size) {
    if (used == have) {
      have = HWY_MIN(size, kLanes);
      // Of a vector longer than the cache, only the first `size` numbers.
      Expect(pending, have);
      used = 0;
    }
    return pending[used++];
  }
};

void Same(const RandomStream& s, const char* what, size_t n, const uint64_t* got, const uint64_t* want) {
  for (size_t i = 0; i < n; ++i) {
    SIM_CHECK(got[i] == want[i], "wrong-number", "%s: number %zu of %zu of stream %llu (seed %llu) is %016llx and not %016llx", what, i, n, (ull)s.number,
              (ull)s.seed, (ull)got[i], (ull)want[i]);
  }
}
void SameUniform(const RandomStream& s, const char* what, size_t n, const double* got, const uint64_t* want) {
  for (size_t i = 0; i < n; ++i) {
    SIM_CHECK(got[i] == RefUniform(want[i]), "wrong-number", "%s: uniform %zu of %zu of stream %llu (seed %llu) is %.17g and not %.17g", what, i, n,
              (ull)s.number, (ull)s.seed, got[i], RefUniform(want[i]));
  }
}

template <uint64_t N>
HWY_ATTR void DrawArray(RandomStream& s, bool uniform) {
  uint64_t want[N + kLanes];
  s.Expect(want, N);
  if (uniform) {
    // In its own heap block, whose ends are guarded.
    std::unique_ptr<std::array<double, N>> r(new std::array<double, N>(s.vec->template Uniform<N>()));
    SameUniform(s, "Uniform<N>", N, r->data(), want);
  } else {
    std::unique_ptr<std::array<uint64_t, N>> r(new std::array<uint64_t, N>(s.vec->template operator()<N>()));
    Same(s, "operator()<N>", N, r->data(), want);
  }
}
HWY_ATTR void DrawArrays(RandomStream& s, uint32_t x, bool uniform) {
  switch (x % 6) {
    case 0: return DrawArray<1>(s, uniform);
    case 1: return DrawArray<3>(s, uniform);
    case 2: return DrawArray<8>(s, uniform);
    case 3: return DrawArray<21>(s, uniform);
    case 4: return DrawArray<64>(s, uniform);
    default: return DrawArray<5>(s, uniform);
  }
}

// One operation; `faults`: allocations may fail.
HWY_ATTR void Draw(RandomStream& s, uint32_t x, bool faults) {
  uint64_t want[72 + kLanes];
  switch (s.kind) {
    case kScalar: {
      SIM_CHECK((*s.scalar).StateSize() == 4, "wrong-state", "StateSize");
      for (uint32_t i = 0; i < x % 7; ++i) {
        want[0] = s.ref[0].Next();
        if ((x >> i) & 1) {
          const double got = s.scalar->Uniform();
          SameUniform(s, "Xoshiro::Uniform", 1, &got, want);
        } else {
          const uint64_t got = (*s.scalar)();
          Same(s, "Xoshiro", 1, &got, want);
        }
      }
      if (x & 256) {  // continue elsewhere
        internal::Xoshiro* other = new internal::Xoshiro(x);
        other->SetState(s.scalar->GetState());
        s.scalar.reset(other);
      }
      if (x & 512) {
        s.scalar->Jump();
        s.ref[0].Jump();
      }
      return;
    }
    case kCached1:
    case kCached2:
    case kCached16:
    case kCached1024:
      for (uint32_t i = 0; i < x % 41; ++i) {
        uint64_t got;
        switch (s.kind) {
          case kCached1: got = (*s.c1)(); want[0] = s.ExpectCached(1); break;
          case kCached2: got = (*s.c2)(); want[0] = s.ExpectCached(2); break;
          case kCached16: got = (*s.c16)(); want[0] = s.ExpectCached(16); break;
          default: got = (*s.c1024)(); want[0] = s.ExpectCached(1024); break;
        }
        Same(s, "CachedXoshiro", 1, &got, want);
      }
      return;
    default: break;
  }
  VectorXoshiro& gen = *s.vec;
  const ScalableTag<uint64_t> d;
  const ScalableTag<double> df;
  const size_t n = (x >> 8) % 70;
  switch (x % 8) {
    case 0: {
      uint64_t got[kLanes];
      StoreU(gen(), d, got);
      s.Expect(want, kLanes);
      return Same(s, "operator()", kLanes, got, want);
    }
    case 1: {
      double got[kLanes];
      StoreU(gen.Uniform(), df, got);
      s.Expect(want, kLanes);
      return SameUniform(s, "Uniform", kLanes, got, want);
    }
    case 2:
    case 3:
    case 4: {
      AllocFaults(faults);
      try {
        auto r = gen(n);
        AllocFaults(false);
        SIM_CHECK(r.size() == n, "wrong-size", "%zu numbers, not %zu", r.size(), n);
        s.Expect(want, n);
        Same(s, "operator()(n)", n, r.data(), want);
      } catch (const std::bad_alloc&) {
        AllocFaults(false);
        SIM_CHECK(AllocFailures() > 0, "unexpected-exception", "bad_alloc although no allocation failed");
        Probe("draw failed");  // no number may be lost
      }
      return;
    }
    case 5: {
      AllocFaults(faults);
      try {
        auto r = gen.Uniform(n);
        AllocFaults(false);
        SIM_CHECK(r.size() == n, "wrong-size", "%zu numbers, not %zu", r.size(), n);
        s.Expect(want, n);
        SameUniform(s, "Uniform(n)", n, r.data(), want);
      } catch (const std::bad_alloc&) {
        AllocFaults(false);
        SIM_CHECK(AllocFailures() > 0, "unexpected-exception", "bad_alloc although no allocation failed");
        Probe("draw failed");
      }
      return;
    }
    case 6: return DrawArrays(s, x >> 8, (x & 128) != 0);
    default: {  // hand over to another object
      std::unique_ptr<VectorXoshiro> other(new VectorXoshiro(std::move(gen)));
      s.vec = std::move(other);
      SIM_CHECK(s.vec->StateSize() == 4 * kLanes, "wrong-state", "StateSize %llu", (ull)s.vec->StateSize());
      for (size_t k = 0; k < 4; ++k)
        for (size_t l = 0; l < kLanes; ++l)
          SIM_CHECK(s.vec->GetState()[{k}][l] == s.ref[l].s[k], "wrong-state", "state %zu of lane %zu", k, l);
      return;
    }
  }
}

struct Drawer {
  RandomStream* stream;
  bool create, faults;
  int num_ops;
  uint32_t ops[8];
};

void DrawerThread(void* arg) {
  Drawer& t = *static_cast<Drawer*>(arg);
  if (t.create) t.stream->Create();
  for (int i = 0; i < t.num_ops; ++i) {
    Draw(*t.stream, t.ops[i], t.faults);
    Yield();
  }
}

// In each phase, every thread draws from one stream; between phases, streams
// change hands.
void RunStreams(int threads, bool faults) {
  const size_t total = 8;
  RandomStream* streams = new RandomStream[total];
  const uint64_t seed = GenBool() ? Gen(1000) : ~uint64_t{0} - Gen(1000);
  const Kind all = static_cast<Kind>(Gen(kNumKinds));
  const bool mixed = GenBool();
  for (int t = 0; t < threads; ++t) {
    RandomStream& s = streams[t];
    s.kind = mixed ? static_cast<Kind>(Gen(kNumKinds)) : all;
    // Consecutive, as documented, or some.
    s.number = GenRange(0, 3) != 0 ? static_cast<uint64_t>(t) : Gen(20) == 19 ? 250 + Gen(20) : Gen(12);
    s.seed = seed;
    s.InitRef();
    Note("stream %d: kind %d, number %llu, seed %llu", t, static_cast<int>(s.kind), (ull)s.number, (ull)s.seed);
  }
  const int phases = static_cast<int>(GenRange(1, 2));
  static Drawer drawers[6];
  for (int p = 0; p < phases; ++p) {
    int tids[6];
    for (int t = 0; t < threads; ++t) {
      Drawer& d = drawers[t];
      d.stream = &streams[(t + p) % threads];
      d.create = p == 0;
      d.faults = faults;
      d.num_ops = static_cast<int>(Gen(8));
      for (int i = 0; i < d.num_ops; ++i) d.ops[i] = static_cast<uint32_t>(Gen(1 << 16));
      if (!d.create && d.num_ops == 0) d.num_ops = 1, d.ops[0] = 7;
    }
    for (int t = 0; t < threads; ++t) tids[t] = Spawn(&DrawerThread, &drawers[t]);
    for (int t = 0; t < threads; ++t) Join(tids[t]);
  }
  delete[] streams;
}

// Memory runs out while a generator is created.
void CreateWithoutMemory() {
  RandomStream s;
  s.kind = GenBool() ? kVector : kCached16;
  s.seed = Gen(100);
  s.number = Gen(4);
  s.InitRef();
  const uint32_t nth = static_cast<uint32_t>(Gen(4));
  AllocFaults(true);
  AllocFailAt(nth);
  try {
    s.Create();
    AllocFaults(false);
    AllocFailAt(-1);
    Draw(s, 0x1234, false);
    Draw(s, 0x0500, false);
  } catch (const std::bad_alloc&) {
    AllocFaults(false);
    AllocFailAt(-1);
    SIM_CHECK(AllocFailures() > 0, "unexpected-exception", "bad_alloc although no allocation failed");
  }
}

}  // namespace HWY_NAMESPACE
}  // namespace hwy
HWY_AFTER_NAMESPACE();

namespace {
void CheckLeaks(uint64_t mark) {
  const void* addr;
  size_t size;
  const uint64_t live = HeapLiveSince(mark, &addr, &size);
  SIM_CHECK(live == 0, "leak", "%llu blocks were not freed, e.g. %zu bytes", (ull)live, size);
}
void OnAbort() {
  if (AllocFailures() > 0) FinishOk();
  char buf[2000];
  const size_t n = CapturedStderr(buf, sizeof(buf) - 1);
  buf[n < sizeof(buf) ? n : sizeof(buf) - 1] = 0;
  Fail("abort", "aborted although no allocation failed: %.300s", buf);
}
}  // namespace

SIM_SCENARIO(C20, streams, 4) {
  CommonFaults();
  (void)hwy::VectorBytes();
  const uint64_t mark = HeapMark();
  hwy::HWY_NAMESPACE::RunStreams(static_cast<int>(GenRange(1, 5)), false);
  CheckLeaks(mark);
}

SIM_SCENARIO(C20, failing_draws, 2) {
  CommonFaults();
  EnableFault(fAllocFail, 300000);
  (void)hwy::VectorBytes();
  const uint64_t mark = HeapMark();
  hwy::HWY_NAMESPACE::RunStreams(static_cast<int>(GenRange(1, 4)), true);
  CheckLeaks(mark);
}

SIM_SCENARIO(C20, failing_constructor, 1) {
  SetAbortHook(&OnAbort);
  (void)hwy::VectorBytes();
  const uint64_t mark = HeapMark();
  hwy::HWY_NAMESPACE::CreateWithoutMemory();
  CheckLeaks(mark);
}
