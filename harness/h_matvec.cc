// C18: MatVec and MatVecAdd on a pool, with delayed non-temporal stores.
#include <stdlib.h>
#include <string.h>

#include <memory>

#include "common.h"
#include "hwy/contrib/thread_pool/thread_pool.h"
#include "hwy/highway.h"

using namespace sim;
typedef unsigned long long ull;

// Streamed stores go to the simulated write-combining buffers.
namespace hwy {
namespace HWY_NAMESPACE {
template <class V, class D, typename T>
SIM_NOINST void SimStream(V v, D d, T* p) {
  const size_t bytes = Lanes(d) * sizeof(T);
  const uintptr_t align = reinterpret_cast<uintptr_t>(p) % (bytes < 16 ? 1 : bytes);
  SIM_CHECK(align == 0, "misaligned-stream", "streamed %zu bytes to %p", bytes, static_cast<void*>(p));
  alignas(64) T buf[64 / sizeof(T) + 1];
  Store(v, d, buf);
  sim::NtStore(p, buf, bytes);
}
}  // namespace HWY_NAMESPACE
}  // namespace hwy
#define Stream SimStream
#include "hwy/contrib/matvec/matvec-inl.h"
#undef Stream

namespace hn = hwy::HWY_NAMESPACE;
using hwy::PoolWaitMode;
using hwy::ThreadPool;

namespace {

template <class T>
SIM_NOINST T FromInt(int x) {
  return hwy::ConvertScalarTo<T>(static_cast<float>(x));
}
template <class T>
SIM_NOINST double ToDouble(T x) {
  return hwy::ConvertScalarTo<double>(x);
}
template <>
SIM_NOINST double ToDouble(hwy::bfloat16_t x) {
  return static_cast<double>(hwy::ConvertScalarTo<float>(x));
}

template <class T>
SIM_NOINST void Fill(T* p, size_t n, uint64_t salt, bool exact) {
  for (size_t i = 0; i < n; ++i) {
    const uint32_t h = Hash32(i, salt);
    // Small integers: every order of summation gives the same result.
    if (exact) p[i] = FromInt<T>(static_cast<int>(h % 17) - 8);
    else p[i] = hwy::ConvertScalarTo<T>(static_cast<float>(static_cast<int>(h >> 8) - (1 << 23)) * 1E-4f);
  }
}


template <size_t kOuter, size_t kInner, class TM, class TV, class TO>
struct Product {
  static constexpr size_t kGuard = 64;
  hwy::AlignedFreeUniquePtr<TM[]> mat;
  hwy::AlignedFreeUniquePtr<TV[]> vec, add;
  hwy::AlignedFreeUniquePtr<TO[]> out, one;  // one: result with one thread

  SIM_NOINST static void Poison(TO* p) { memset(reinterpret_cast<void*>(p), 0x5A, (kOuter + 2 * kGuard) * sizeof(TO)); }
  SIM_NOINST void CheckGuards(const char* what, const TO* p) {
    const unsigned char* b = reinterpret_cast<const unsigned char*>(p);
    for (size_t i = 0; i < (kOuter + 2 * kGuard) * sizeof(TO); ++i) {
      if (i >= kGuard * sizeof(TO) && i < (kGuard + kOuter) * sizeof(TO)) continue;
      SIM_CHECK(b[i] == 0x5A, "wrote-outside", "%s: %zux%zu product wrote at byte %td", what, kOuter, kInner,
                static_cast<ptrdiff_t>(i) - static_cast<ptrdiff_t>(kGuard * sizeof(TO)));
    }
  }
  SIM_NOINST void CheckExact(const TO* p, bool with_add) {
    for (size_t r = 0; r < kOuter; ++r) {
      double sum = 0;
      for (size_t c = 0; c < kInner; ++c) sum += ToDouble(mat[r * kInner + c]) * ToDouble(vec[c]);
      if (with_add) sum += ToDouble(add[r]);
      SIM_CHECK(ToDouble(p[kGuard + r]) == sum, "wrong-product", "row %zu of %zux%zu is %g, expected %g (add %d)", r, kOuter, kInner, ToDouble(p[kGuard + r]), sum,
                with_add);
    }
  }
  SIM_NOINST void CheckSame() {
    for (size_t r = 0; r < kOuter; ++r)
      SIM_CHECK(!memcmp(&out[kGuard + r], &one[kGuard + r], sizeof(TO)), "wrong-product", "row %zu of %zux%zu is %.9g, with one thread %.9g", r, kOuter, kInner,
                ToDouble(out[kGuard + r]), ToDouble(one[kGuard + r]));
  }
  SIM_NOINST void PrepareInputs(uint64_t salt, bool exact) {
    Fill(mat.get(), kOuter * kInner, salt, exact);
    Fill(vec.get(), kInner, salt + 1, exact);
    Fill(add.get(), kOuter, salt + 2, exact);
  }

  void Multiply(bool with_add, TO* p, ThreadPool& pool) {
    if (with_add) hn::MatVecAdd<kOuter, kInner>(mat.get(), vec.get(), add.get(), p + kGuard, pool);
    else hn::MatVec<kOuter, kInner>(mat.get(), vec.get(), p + kGuard, pool);
  }

  void Go(ThreadPool& pool, ThreadPool& alone) {
    mat = hwy::AllocateAligned<TM>(kOuter * kInner);
    vec = hwy::AllocateAligned<TV>(kInner);
    add = hwy::AllocateAligned<TV>(kOuter);
    out = hwy::AllocateAligned<TO>(kOuter + 2 * kGuard);
    one = hwy::AllocateAligned<TO>(kOuter + 2 * kGuard);
    const int rounds = 1 + static_cast<int>(Gen(3));
    for (int i = 0; i < rounds; ++i) {
      const bool with_add = GenBool(), exact = Gen(3) != 2;
      // Also visible to the race detector: workers may still be reading or writing.
      PlainWrite(mat.get(), kOuter * kInner * sizeof(TM));
      PlainWrite(vec.get(), kInner * sizeof(TV));
      PlainWrite(add.get(), kOuter * sizeof(TV));
      PrepareInputs(Gen(1u << 20), exact);
      PlainWrite(out.get(), (kOuter + 2 * kGuard) * sizeof(TO));
      Poison(out.get());
      if (!exact) {
        Poison(one.get());
        Multiply(with_add, one.get(), alone);
        CheckGuards("one thread", one.get());
      }
      Multiply(with_add, out.get(), pool);
      PlainRead(out.get(), (kOuter + 2 * kGuard) * sizeof(TO));
      CheckGuards("pool", out.get());
      if (exact) CheckExact(out.get(), with_add);
      else CheckSame();
      if (pool.NumWorkers() > 1 && kOuter * sizeof(TO) >= 128) Probe("product on several chunks and workers");
    }
  }
};

typedef void (*Func)(ThreadPool&, ThreadPool&);
template <size_t kOuter, size_t kInner, class TM, class TV, class TO>
void Run(ThreadPool& pool, ThreadPool& alone) {
  Product<kOuter, kInner, TM, TV, TO>().Go(pool, alone);
}

using BF = hwy::bfloat16_t;
template <class TM, class TV, class TO>
Func PickShape() {
  switch (Gen(10)) {
    case 0: return &Run<64, 8, TM, TV, TO>;
    case 1: return &Run<33, 3, TM, TV, TO>;
    case 2: return &Run<1, 17, TM, TV, TO>;
    case 3: return &Run<16, 1, TM, TV, TO>;
    case 4: return &Run<31, 64, TM, TV, TO>;
    case 5: return &Run<128, 5, TM, TV, TO>;
    case 6: return &Run<100, 33, TM, TV, TO>;
    case 7: return &Run<257, 7, TM, TV, TO>;
    case 8: return &Run<48, 131, TM, TV, TO>;
    default: return &Run<15, 40, TM, TV, TO>;
  }
}

Func PickProduct() {
  if (Gen(12) == 11) {  // tall and wide ones; 16 rows of floats are a task
    Probe("large product");
    switch (Gen(8)) {
      case 0: return &Run<65539, 1, float, float, float>;
      case 1: return &Run<2, 65541, float, float, float>;
      case 2:
      case 3: return &Run<9, 1027, float, float, float>;
      default: return &Run<4117, 2, float, float, float>;
    }
  }
  switch (Gen(5)) {
    case 0: return PickShape<float, float, float>();
    case 1: return PickShape<double, double, double>();
#if HWY_TARGET != HWY_SCALAR
    case 2: return PickShape<BF, float, float>();
    case 3: return PickShape<BF, BF, float>();
#endif
    default: return PickShape<int32_t, int32_t, int32_t>();
  }
}

size_t GenThreads() {
  switch (Gen(8)) {
    case 0: return 1;
    case 1: return 2;
    case 2: return 3;
    case 3: return 4;
    case 4: return GenRange(1, 9);
    case 5: return GenRange(5, 17);
    case 6: return 0;
    default: return GenRange(1, 63);
  }
}

}  // namespace

SIM_SCENARIO(C18, products, 1) {
  CommonFaults();
  ChooseSpinCpu();
  EnableFault(fNtDelay, 900000);
  SetStepBudget(600000, 600000);
  auto pool = hwy::MakeUniqueAligned<ThreadPool>(GenThreads());
  auto alone = hwy::MakeUniqueAligned<ThreadPool>(size_t{0});
  const int products = 1 + static_cast<int>(Gen(4));
  for (int i = 0; i < products; ++i) {
    if (Gen(4) == 3) pool->SetWaitMode(GenBool() ? PoolWaitMode::kSpin : PoolWaitMode::kBlock);
    PickProduct()(*pool, *alone);
  }
}
