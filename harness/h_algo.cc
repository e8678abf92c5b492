// C19: algorithms and partial stores on disjoint ranges of shared arrays.
#include <stdlib.h>
#include <string.h>

#include <vector>

#include "common.h"
#include "hwy/contrib/algo/copy-inl.h"
#include "hwy/contrib/algo/find-inl.h"
#include "hwy/contrib/algo/transform-inl.h"
#include "hwy/contrib/dot/dot-inl.h"
#include "hwy/contrib/unroller/unroller-inl.h"
#include "hwy/highway.h"

using namespace sim;
typedef unsigned long long ull;

HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {

enum Op {
  kGenerate,
  kTransform,
  kTransform1,
  kTransform2,
  kReplace,
  kReplaceIf,
  kForeach,
  kFill,
  kCopy,
  kFind,
  kFindIf,
  kCopyIf,
  kStoreN,
  kStore,
  kInterleaved,
  kScatter,
  kDot,
  kUnroll1,
  kUnroll2,
  kNumOps
};
const char* const kOpNames[kNumOps] = {"Generate", "Transform", "Transform1", "Transform2", "Replace", "ReplaceIf", "Foreach", "Fill", "Copy",
                                       "Find", "FindIf", "CopyIf", "StoreN", "Store", "StoreInterleaved", "ScatterIndexN", "Dot", "Unroller1", "Unroller2"};

// One call: what to do, and (for the model) nothing else.
struct Call {
  int op;
  bool swap;       // which of the two arrays is written
  uint32_t x;      // parameter
  uint32_t yields; // yield in every n-th functor call, 0 = never
  int cap;         // log2 of the lane limit, for Store*
};

struct Owner {
  int type;
  unsigned char *a, *b;  // whole arrays
  size_t begin, count;   // owned elements of both
  Call calls[4];
  int num_calls;
  int tid;
};

// Thread-local state of functors. (They are called in the middle of algorithms.)
struct Tick {
  uint32_t every = 0, n = 0;
  HWY_NOINLINE void operator()() {
    if (every && ++n % every == 0) Yield();
  }
};

template <typename T>
T Val(uint64_t x) {
  return static_cast<T>(x & 63);
}

struct AddOne {
  Tick* tick;
  template <class D, class V>
  HWY_ATTR V operator()(D d, V v) const {
    (*tick)();
    return Add(v, Set(d, static_cast<TFromD<D>>(1)));
  }
  template <class D, class V>
  HWY_ATTR V operator()(D, V v, V v1) const {
    (*tick)();
    return Add(v, v1);
  }
  template <class D, class V>
  HWY_ATTR V operator()(D, V v, V v1, V v2) const {
    (*tick)();
    return Add(v, Add(v1, v2));
  }
};

// The index, modulo 64 to be exact in every type.
struct FromIndex {
  Tick* tick;
  template <class D, class VU, HWY_IF_FLOAT_D(D)>
  HWY_ATTR Vec<D> operator()(D d, VU idx) const {
    (*tick)();
    const RebindToUnsigned<D> du;
    const RebindToSigned<D> di;
    return ConvertTo(d, BitCast(di, And(idx, Set(du, TFromD<decltype(du)>{63}))));
  }
  template <class D, class VU, HWY_IF_NOT_FLOAT_D(D)>
  HWY_ATTR Vec<D> operator()(D d, VU idx) const {
    (*tick)();
    const RebindToUnsigned<D> du;
    return BitCast(d, And(idx, Set(du, TFromD<decltype(du)>{63})));
  }
};

struct IsValue {
  Tick* tick;
  uint32_t x;
  template <class D, class V>
  HWY_ATTR auto operator()(D d, V v) const -> decltype(Eq(v, v)) {
    (*tick)();
    return Eq(v, Set(d, static_cast<TFromD<D>>(x & 63)));
  }
};

template <typename T>
struct Seen {
  Tick* tick;
  T* out;
  mutable size_t num;
  size_t cap;
  template <class D, class V>
  HWY_ATTR void operator()(D d, V v) const {
    (*tick)();
    SIM_CHECK(num + Lanes(d) <= cap, "wrong-elements", "Foreach called its functor too often");
    StoreU(v, d, out + num);
    num += Lanes(d);
  }
};

template <class D, typename T = TFromD<D>>
HWY_ATTR void StoreNs(D d, T* p, size_t count, uint32_t x, Tick& tick) {
  const size_t N = Lanes(d);
  for (size_t i = 0; i < count;) {
    // May be more than a vector, in which case only N lanes are touched.
    const size_t want = HWY_MIN(count - i, x % (2 * N + 1));
    if (want == 0) {
      StoreN(Set(d, static_cast<T>(77)), d, p + i, 0);
      ++i;  // left alone
      ++x;
      continue;
    }
    const auto v = (x & 1) ? LoadN(d, p + i, want) : LoadNOr(Set(d, static_cast<T>(5)), d, p + i, want);
    tick();
    StoreN(Add(v, Set(d, static_cast<T>(1))), d, p + i, want);
    i += HWY_MIN(want, N);
    x = x * 5 + 1;
  }
}
template <typename T>
void StoreNsModel(size_t N, T* p, size_t count, uint32_t x) {
  for (size_t i = 0; i < count;) {
    const size_t want = HWY_MIN(count - i, x % (2 * N + 1));
    if (want == 0) {
      ++i;
      ++x;
      continue;
    }
    for (size_t k = 0; k < HWY_MIN(want, N); ++k) p[i + k] = static_cast<T>(p[i + k] + 1);
    i += HWY_MIN(want, N);
    x = x * 5 + 1;
  }
}

template <class D, typename T = TFromD<D>>
HWY_ATTR void Stores(D d, T* p, size_t count, Tick& tick) {
  const size_t N = Lanes(d);
  for (size_t i = 0; i + N <= count; i += N) {
    const auto v = LoadU(d, p + i);
    tick();
    StoreU(Add(v, Set(d, static_cast<T>(1))), d, p + i);
  }
}

// Values which encode lane and vector, in as many vectors as fit.
template <class D, typename T = TFromD<D>>
HWY_ATTR void Interleaves(D d, T* p, size_t count, uint32_t x, Tick& tick) {
  const size_t N = Lanes(d);
  const size_t k = 2 + x % 3;
  for (size_t i = 0; i + k * N <= count; i += k * N) {
    tick();
    T lanes[4 * MaxLanes(d)];
    for (size_t j = 0; j < k; ++j)
      for (size_t l = 0; l < N; ++l) lanes[j * N + l] = static_cast<T>((x + l * k + j) & 63);
    const auto v0 = LoadU(d, lanes), v1 = LoadU(d, lanes + N);
    if (k == 2) {
      StoreInterleaved2(v0, v1, d, p + i);
    } else if (k == 3) {
      StoreInterleaved3(v0, v1, LoadU(d, lanes + 2 * N), d, p + i);
    } else {
      StoreInterleaved4(v0, v1, LoadU(d, lanes + 2 * N), LoadU(d, lanes + 3 * N), d, p + i);
    }
  }
}

template <typename T>
struct CapStoreN {
  T* p; size_t count; uint32_t x; Tick* tick;
  template <class D> HWY_ATTR void operator()(D d) const { StoreNs(d, p, count, x, *tick); }
};
template <typename T>
struct CapStore {
  T* p; size_t count; uint32_t x; Tick* tick;
  template <class D> HWY_ATTR void operator()(D d) const { Stores(d, p, count, *tick); }
};
template <typename T>
struct CapInterleaved {
  T* p; size_t count; uint32_t x; Tick* tick;
  template <class D> HWY_ATTR void operator()(D d) const { Interleaves(d, p, count, x, *tick); }
};
template <typename T>
struct CapLanes {
  size_t* n;
  template <class D> HWY_ATTR void operator()(D d) const { *n = Lanes(d); }
};

template <typename T, class Func>
void WithCap(int cap, const Func& func) {
  switch (cap) {
    case 0: return func(CappedTag<T, 1>());
    case 1: return func(CappedTag<T, 2>());
    case 2: return func(CappedTag<T, 4>());
    case 3: return func(CappedTag<T, 8>());
    case 5: return func(CappedTag<T, 16>());
    case 6: return func(CappedTag<T, 32>());
    default: return func(ScalableTag<T>());
  }
}
template <typename T>
size_t LanesOf(int cap) {
  size_t n;
  WithCap<T>(cap, CapLanes<T>{&n});
  return n;
}

// Index of the `i`-th scattered lane: distinct, within [0, count).
size_t ScatterPos(size_t i, size_t count, uint32_t x) { return (i * 2 + (i * 2 >= count ? (count & 1 ? 0 : 1) : 0) + x) % count; }

template <typename T, HWY_IF_T_SIZE_ONE_OF(T, (1 << 4) | (1 << 8))>
HWY_ATTR void Scatters(T* p, size_t count, uint32_t x, Tick& tick) {
  const ScalableTag<T> d;
  const RebindToSigned<decltype(d)> di;
  using TI = TFromD<decltype(di)>;
  const size_t N = Lanes(d);
  if (count == 0) return;
  const size_t n = HWY_MIN(count, N);
  TI idx[MaxLanes(d)] = {};
  T val[MaxLanes(d)] = {};
  for (size_t i = 0; i < n; ++i) {
    idx[i] = static_cast<TI>(ScatterPos(i, count, x));
    val[i] = static_cast<T>((x + i) & 63);
  }
  tick();
  if (x & 1) {
    ScatterIndexN(LoadU(d, val), d, p, LoadU(di, idx), n);
  } else {
    MaskedScatterIndex(LoadU(d, val), FirstN(d, n), d, p, LoadU(di, idx));
  }
}
template <typename T, HWY_IF_T_SIZE_ONE_OF(T, (1 << 1) | (1 << 2))>
void Scatters(T*, size_t, uint32_t, Tick&) {}

template <typename T, HWY_IF_T_SIZE_ONE_OF(T, (1 << 4) | (1 << 8)), HWY_IF_FLOAT(T)>
HWY_ATTR T DotOf(const T* a, const T* b, size_t count) {
  const ScalableTag<T> d;
  return Dot::Compute<0>(d, a, b, count);
}
template <typename T, HWY_IF_NOT_FLOAT(T)>
T DotOf(const T* a, const T* b, size_t count) {
  uint64_t sum = 0;
  for (size_t i = 0; i < count; ++i) sum += static_cast<uint64_t>(a[i]) * static_cast<uint64_t>(b[i]);
  return static_cast<T>(sum);
}

// a += b and a = b + b through the unroller.
template <typename T>
struct UnrollInc : UnrollerUnit<UnrollInc<T>, T, T> {
  using Base = UnrollerUnit<UnrollInc<T>, T, T>;
  Tick* tick;
  HWY_ATTR typename Base::Y_VEC Func(ptrdiff_t, typename Base::X_VEC x, typename Base::Y_VEC) {
    (*tick)();
    return Add(x, Set(this->d_out, static_cast<T>(1)));
  }
};
template <typename T>
struct UnrollSum : UnrollerUnit2D<UnrollSum<T>, T, T, T> {
  using Base = UnrollerUnit2D<UnrollSum<T>, T, T, T>;
  Tick* tick;
  HWY_ATTR typename Base::Y_VEC Func(ptrdiff_t, typename Base::X0_VEC x0, typename Base::X1_VEC x1, typename Base::Y_VEC) {
    (*tick)();
    return Add(x0, x1);
  }
};

// ------------------------------------------------ one call, really
template <typename T>
HWY_ATTR void Execute(const Owner& o, const Call& c) {
  const ScalableTag<T> d;
  T* a = reinterpret_cast<T*>(c.swap ? o.b : o.a) + o.begin;
  T* b = reinterpret_cast<T*>(c.swap ? o.a : o.b) + o.begin;
  const size_t n = o.count;
  Tick tick;
  tick.every = c.yields;
  const T val = static_cast<T>(c.x & 63);
  switch (c.op) {
    case kGenerate: Generate(d, a, n, FromIndex{&tick}); break;
    case kTransform: Transform(d, a, n, AddOne{&tick}); break;
    case kTransform1: Transform1(d, a, n, b, AddOne{&tick}); break;
    case kTransform2: Transform2(d, a, n, b, b, AddOne{&tick}); break;
    case kReplace: Replace(d, a, n, static_cast<T>((c.x >> 8) & 63), val); break;
    case kReplaceIf: ReplaceIf(d, a, n, static_cast<T>((c.x >> 8) & 63), IsValue{&tick, c.x}); break;
    case kForeach: {
      const size_t cap = n + MaxLanes(d);
      T* seen = static_cast<T*>(malloc(cap * sizeof(T)));
      Seen<T> s{&tick, seen, 0, cap};
      Foreach(d, a, n, Set(d, static_cast<T>(99)), s);
      SIM_CHECK(s.num >= n, "wrong-elements", "Foreach passed %zu of %zu elements", s.num, n);
      for (size_t i = 0; i < s.num; ++i)
        SIM_CHECK(seen[i] == (i < n ? a[i] : static_cast<T>(99)), "wrong-elements", "Foreach passed a wrong element %zu of %zu", i, n);
      free(seen);
      break;
    }
    case kFill: Fill(d, val, n, a); break;
    case kCopy: Copy(d, b, n, a); break;
    case kFind:
    case kFindIf: {
      size_t want = 0;
      while (want < n && a[want] != val) ++want;
      const size_t got = c.op == kFind ? Find(d, val, a, n) : FindIf(d, a, n, IsValue{&tick, c.x});
      SIM_CHECK(got == want, "wrong-result", "%s returned %zu, not %zu of %zu", kOpNames[c.op], got, want, n);
      break;
    }
    case kCopyIf: {
      // Into a private buffer which must have room for whole vectors.
      const size_t cap = n + MaxLanes(d);
      T* to = static_cast<T*>(malloc(cap * sizeof(T)));
      for (size_t i = 0; i < cap; ++i) to[i] = static_cast<T>(99);
      size_t num = 0;
      if (sizeof(T) != 1) num = static_cast<size_t>(CopyIf(d, a, n, to, IsValue{&tick, c.x}) - to);
      size_t want = 0;
      for (size_t i = 0; i < n; ++i) want += sizeof(T) != 1 && a[i] == val;
      SIM_CHECK(num == want, "wrong-result", "CopyIf kept %zu, not %zu of %zu", num, want, n);
      for (size_t i = 0; i < cap; ++i)
        SIM_CHECK(to[i] == (i < num ? val : static_cast<T>(99)), "wrong-result", "CopyIf wrote a wrong element %zu of %zu", i, num);
      free(to);
      break;
    }
    case kStoreN: WithCap<T>(c.cap, CapStoreN<T>{a, n, c.x, &tick}); break;
    case kStore: WithCap<T>(c.cap, CapStore<T>{a, n, c.x, &tick}); break;
    case kInterleaved: WithCap<T>(c.cap, CapInterleaved<T>{a, n, c.x, &tick}); break;
    case kScatter: Scatters(a, n, c.x, tick); break;
    case kDot: {
      double want = 0;
      // Few enough small integers to be exact.
      for (size_t i = 0; i < n; ++i) want += static_cast<double>(a[i]) * static_cast<double>(b[i]);
      const T got = DotOf(a, b, n);
      if (IsFloat<T>()) SIM_CHECK(static_cast<double>(got) == want || want > 16E6, "wrong-result", "Dot %f, not %f of %zu", static_cast<double>(got), want, n);
      break;
    }
    case kUnroll1: {
      UnrollInc<T> unit;
      unit.tick = &tick;
      Unroller(unit, b, a, static_cast<ptrdiff_t>(n));
      break;
    }
    case kUnroll2: {
      UnrollSum<T> unit;
      unit.tick = &tick;
      Unroller(unit, b, b, a, static_cast<ptrdiff_t>(n));
      break;
    }
  }
}

// ------------------------------------------------ the same, sequentially
template <typename T>
void Model(T* a, T* b, size_t n, const Call& c) {
  if (c.swap) {
    T* t = a;
    a = b;
    b = t;
  }
  const T val = static_cast<T>(c.x & 63);
  switch (c.op) {
    case kGenerate:
      for (size_t i = 0; i < n; ++i) a[i] = static_cast<T>(i & 63);
      break;
    case kTransform:
      for (size_t i = 0; i < n; ++i) a[i] = static_cast<T>(a[i] + 1);
      break;
    case kTransform1:
      for (size_t i = 0; i < n; ++i) a[i] = static_cast<T>(a[i] + b[i]);
      break;
    case kTransform2:
      for (size_t i = 0; i < n; ++i) a[i] = static_cast<T>(a[i] + (b[i] + b[i]));
      break;
    case kReplace:
    case kReplaceIf:
      for (size_t i = 0; i < n; ++i)
        if (a[i] == val) a[i] = static_cast<T>((c.x >> 8) & 63);
      break;
    case kFill:
      for (size_t i = 0; i < n; ++i) a[i] = val;
      break;
    case kCopy:
      for (size_t i = 0; i < n; ++i) a[i] = b[i];
      break;
    case kStoreN: StoreNsModel(LanesOf<T>(c.cap), a, n, c.x); break;
    case kStore: {
      const size_t N = LanesOf<T>(c.cap);
      for (size_t i = 0; i < n / N * N; ++i) a[i] = static_cast<T>(a[i] + 1);
      break;
    }
    case kInterleaved: {
      const size_t N = LanesOf<T>(c.cap), k = 2 + c.x % 3;
      for (size_t i = 0; i < n / (k * N) * (k * N); ++i) a[i] = static_cast<T>((c.x + i % (k * N)) & 63);
      break;
    }
    case kScatter:
      if (sizeof(T) >= 4 && n != 0) {
        const size_t m = HWY_MIN(n, Lanes(ScalableTag<T>()));
        for (size_t i = 0; i < m; ++i) a[ScatterPos(i, n, c.x)] = static_cast<T>((c.x + i) & 63);
      }
      break;
    case kUnroll1:
      for (size_t i = 0; i < n; ++i) a[i] = static_cast<T>(b[i] + 1);
      break;
    case kUnroll2:
      for (size_t i = 0; i < n; ++i) a[i] = static_cast<T>(b[i] + b[i]);
      break;
    default: break;  // do not write
  }
}

inline uint32_t Scramble(uint64_t x) {
  x *= 0x9E3779B97F4A7C15ull;
  x ^= x >> 29;
  x *= 0xBF58476D1CE4E5B9ull;
  return static_cast<uint32_t>(x >> 40);
}

template <typename T>
void OwnerThread(void* arg) {
  const Owner& o = *static_cast<Owner*>(arg);
  for (int i = 0; i < o.num_calls; ++i) Execute<T>(o, o.calls[i]);
}

template <typename T>
void RunShared(int threads, int type, bool same_op) {
  const size_t N = Lanes(ScalableTag<T>());
  static Owner owners[6];
  size_t total = Gen(3);
  const int the_op = static_cast<int>(Gen(kNumOps));
  for (int t = 0; t < threads; ++t) {
    Owner& o = owners[t];
    o.type = type;
    o.begin = total;
    switch (Gen(5)) {
      case 0: o.count = Gen(N + 2); break;
      case 1: o.count = Gen(2 * N + 2); break;
      case 2: o.count = N * (1 + Gen(5)) + Gen(3); break;
      case 3: o.count = N * Gen(14) + Gen(N); break;
      default: o.count = N * (1 + Gen(4)) - 1; break;
    }
    const bool large = t == 0 && Gen(20) == 19;
    if (large) {
      // Floats: sums of products remain exact.
      o.count = !IsFloat<T>() && Gen(12) == 11 ? 65530 + Gen(100) : 240 + Gen(900);
      Probe(o.count > 65000 ? "range of more than 65000 elements" : "long range");
    }
    total += o.count + (Gen(5) == 4 ? Gen(3) : 0);
    o.num_calls = 1 + static_cast<int>(Gen(large ? 2 : 4));
    for (int i = 0; i < o.num_calls; ++i) {
      Call& c = o.calls[i];
      c.op = same_op ? the_op : static_cast<int>(Gen(kNumOps));
      c.swap = GenBool();
      c.x = static_cast<uint32_t>(Gen(1 << 14));
      c.yields = large ? 0 : static_cast<uint32_t>(Gen(3));
      c.cap = static_cast<int>(Gen(7));
      Note("thread %d: %s on [%zu, +%zu) of %zu-byte type, array %d, x %u", t + 1, kOpNames[c.op], o.begin, o.count, sizeof(T), c.swap, c.x);
    }
  }
  if (total == 0) total = 1;
  T* arr[2];
  T* model[2];
  const uint64_t seed = Gen(1000);
  for (int k = 0; k < 2; ++k) {
    arr[k] = static_cast<T*>(malloc(total * sizeof(T)));
    model[k] = static_cast<T*>(malloc(total * sizeof(T)));
    for (size_t i = 0; i < total; ++i) arr[k][i] = model[k][i] = static_cast<T>(Scramble(seed + i * 2 + static_cast<size_t>(k)) & 63);
  }
  int tids[6];
  for (int t = 0; t < threads; ++t) {
    owners[t].a = reinterpret_cast<unsigned char*>(arr[0]);
    owners[t].b = reinterpret_cast<unsigned char*>(arr[1]);
    tids[t] = Spawn(&OwnerThread<T>, &owners[t]);
  }
  for (int t = 0; t < threads; ++t) Join(tids[t]);

  for (int t = 0; t < threads; ++t) {
    const Owner& o = owners[t];
    for (int i = 0; i < o.num_calls; ++i) Model(model[0] + o.begin, model[1] + o.begin, o.count, o.calls[i]);
  }
  for (int k = 0; k < 2; ++k) {
    for (size_t i = 0; i < total; ++i) {
      if (arr[k][i] == model[k][i]) continue;
      int owner = 0;
      for (int t = 0; t < threads; ++t)
        if (i >= owners[t].begin && i < owners[t].begin + owners[t].count) owner = t + 1;
      Fail("wrong-element", "element %zu of array %d (%zu-byte type), owned by %s%d, is %f and not %f", i, k, sizeof(T), owner ? "thread " : "nobody, ", owner,
           static_cast<double>(arr[k][i]), static_cast<double>(model[k][i]));
    }
    free(arr[k]);
    free(model[k]);
  }
}

void RunAny(int threads, bool same_op) {
  const int type = static_cast<int>(Gen(8));
  switch (type) {
    case 0: return RunShared<uint8_t>(threads, type, same_op);
    case 1: return RunShared<int16_t>(threads, type, same_op);
    case 2: return RunShared<uint32_t>(threads, type, same_op);
    case 3: return RunShared<int64_t>(threads, type, same_op);
    case 4: return RunShared<float>(threads, type, same_op);
    case 5: return RunShared<double>(threads, type, same_op);
    case 6: return RunShared<uint16_t>(threads, type, same_op);
    default: return RunShared<int8_t>(threads, type, same_op);
  }
}

}  // namespace HWY_NAMESPACE
}  // namespace hwy
HWY_AFTER_NAMESPACE();

SIM_SCENARIO(C19, mixed_operations, 3) {
  CommonFaults();
  hwy::HWY_NAMESPACE::RunAny(static_cast<int>(GenRange(2, 5)), false);
}

SIM_SCENARIO(C19, same_operation, 3) {
  CommonFaults();
  hwy::HWY_NAMESPACE::RunAny(static_cast<int>(GenRange(2, 6)), true);
}
