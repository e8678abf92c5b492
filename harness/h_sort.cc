// C11: VQSort, VQPartialSort, VQSelect under entropy faults, concurrency and
// adversarial inputs.
#include <errno.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>
#include <limits>
#include <vector>

#include "common.h"
#include "hwy/contrib/sort/vqsort.h"
#include "hwy/highway.h"
#include "hwy/per_target.h"

using namespace sim;
typedef unsigned long long ull;

namespace {

// ------------------------------------------------ entropy
uint64_t g_entropy_mode;
uint64_t g_fixed[2];
uint64_t g_entropy_calls;

SIM_NOINST bool Entropy(void* buf, size_t len, unsigned, long* ret, int* err) {
  ++g_entropy_calls;
  const uint64_t fail = Fault(fEntropyFail, 5);
  if (fail) {
    const int errs[] = {0, EINTR, ENOSYS, EAGAIN, EFAULT, EPERM};
    *ret = -1;
    *err = errs[fail];
    return true;
  }
  unsigned char* p = static_cast<unsigned char*>(buf);
  const uint64_t adv = Fault(fEntropyAdversary, 5);
  Rng r(g_entropy_calls * 977 + g_entropy_mode);
  for (size_t i = 0; i < len; ++i) {
    switch (adv) {
      case 1: p[i] = 0; break;
      case 2: p[i] = 0xFF; break;
      case 3: p[i] = i & 8 ? 0 : 0x80; break;
      case 4: p[i] = static_cast<unsigned char>(g_entropy_mode); break;
      case 5: p[i] = i == 0; break;
      default: p[i] = static_cast<unsigned char>(r.Next()); break;
    }
  }
  *ret = static_cast<long>(len);
  const uint64_t cut = Fault(fEntropyShort, len);
  if (cut) {
    *ret = static_cast<long>(cut - 1);
    for (size_t i = cut - 1; i < len; ++i) p[i] = 0xA5;
  }
  return true;
}
SIM_NOINST bool FixedEntropy(void* buf, size_t len, unsigned, long* ret, int*) {
  for (size_t i = 0; i < len; ++i) static_cast<unsigned char*>(buf)[i] = reinterpret_cast<unsigned char*>(g_fixed)[i % 16];
  *ret = static_cast<long>(len);
  return true;
}

void SortFaults() {
  EnableFault(fEntropyFail, 600000);
  EnableFault(fEntropyShort, 600000);
  EnableFault(fEntropyAdversary, 700000);
  EnableFault(fAllocFail, 0);
  g_entropy_mode = Gen(256);
  os.getrandom = &Entropy;
  // A clock that may stand still.
  if (Gen(3) == 1) SetClock(1.0, 1, 0, 0);
}

// ------------------------------------------------ keys
template <class K>
struct Info {
  static bool Less(const K& a, const K& b) { return a < b; }
  static bool IsNaN(const K&) { return false; }
  static K Canonical(const K& a) { return a; }
  static constexpr bool kPayload = false;
};
template <class F>
struct FloatInfo {
  static bool Less(F a, F b) { return static_cast<double>(a) < static_cast<double>(b); }
  static bool IsNaN(F a) { return static_cast<double>(a) != static_cast<double>(a); }
  static F Canonical(F a) {
    if (IsNaN(a)) {
      memset(&a, 0xFF, sizeof(a));
    } else if (static_cast<double>(a) == 0.0) {
      memset(&a, 0, sizeof(a));  // -0 and +0 are equivalent keys
    }
    return a;
  }
  static constexpr bool kPayload = false;
};
template <> struct Info<float> : FloatInfo<float> {};
template <> struct Info<double> : FloatInfo<double> {};
#if SORT_F16
template <>
struct Info<hwy::float16_t> {
  static float F(hwy::float16_t a) { return hwy::F32FromF16(a); }
  static bool Less(hwy::float16_t a, hwy::float16_t b) { return F(a) < F(b); }
  static bool IsNaN(hwy::float16_t a) { return F(a) != F(a); }
  static hwy::float16_t Canonical(hwy::float16_t a) {
    if (IsNaN(a)) memset(&a, 0xFF, sizeof(a));
    else if (F(a) == 0.0f) memset(&a, 0, sizeof(a));
    return a;
  }
  static constexpr bool kPayload = false;
};
#endif
template <>
struct Info<hwy::K32V32> {
  static bool Less(const hwy::K32V32& a, const hwy::K32V32& b) { return a.key < b.key; }
  static bool IsNaN(const hwy::K32V32&) { return false; }
  static hwy::K32V32 Canonical(const hwy::K32V32& a) { return a; }
};
template <>
struct Info<hwy::K64V64> {
  static bool Less(const hwy::K64V64& a, const hwy::K64V64& b) { return a.key < b.key; }
  static bool IsNaN(const hwy::K64V64&) { return false; }
  static hwy::K64V64 Canonical(const hwy::K64V64& a) { return a; }
};
template <>
struct Info<hwy::uint128_t> {
  static bool Less(const hwy::uint128_t& a, const hwy::uint128_t& b) { return a.hi == b.hi ? a.lo < b.lo : a.hi < b.hi; }
  static bool IsNaN(const hwy::uint128_t&) { return false; }
  static hwy::uint128_t Canonical(const hwy::uint128_t& a) { return a; }
};

// Key with bit pattern / rank `v`, payload `i`.
template <class K>
K FromBits(uint64_t v, uint64_t) {
  K k;
  memcpy(&k, &v, sizeof(k));
  return k;
}
template <> hwy::K32V32 FromBits<hwy::K32V32>(uint64_t v, uint64_t i) {
  hwy::K32V32 k;
  k.key = static_cast<uint32_t>(v);
  k.value = static_cast<uint32_t>(i * 2654435761u);
  return k;
}
template <> hwy::K64V64 FromBits<hwy::K64V64>(uint64_t v, uint64_t i) {
  hwy::K64V64 k;
  k.key = v;
  k.value = i * 0x9E3779B97F4A7C15ull;
  return k;
}
template <> hwy::uint128_t FromBits<hwy::uint128_t>(uint64_t v, uint64_t i) {
  hwy::uint128_t k;
  // Equal upper halves are the interesting case.
  k.hi = v & 1 ? v >> 8 : 5;
  k.lo = v;
  (void)i;
  return k;
}
template <class K>
K Small(uint64_t rank, uint64_t i) { return FromBits<K>(rank, i); }
template <> float Small<float>(uint64_t r, uint64_t) { return static_cast<float>(r) - 100.0f; }
template <> double Small<double>(uint64_t r, uint64_t) { return static_cast<double>(r) - 100.0; }
#if SORT_F16
template <> hwy::float16_t Small<hwy::float16_t>(uint64_t r, uint64_t) {
  return hwy::F16FromF32(static_cast<float>(r % 2000) - 100.0f);
}
#endif
template <> hwy::uint128_t Small<hwy::uint128_t>(uint64_t r, uint64_t) {
  hwy::uint128_t k;
  k.hi = r / 3;
  k.lo = r % 3;
  return k;
}
template <class K>
K Special(uint64_t j, uint64_t i) {
  switch (j % 6) {
    case 0: return FromBits<K>(0, i);
    case 1: return FromBits<K>(~0ull, i);
    case 2: return FromBits<K>(~0ull >> (65 - std::min<size_t>(64, sizeof(K) * 8)), i);  // max signed
    case 3: return FromBits<K>(1ull << (std::min<size_t>(64, sizeof(K) * 8) - 1), i);    // min signed
    case 4: return FromBits<K>(1, i);
    default: return FromBits<K>(~1ull, i);
  }
}
template <class F>
F SpecialF(uint64_t j) {
  switch (j % 10) {
    case 0: return static_cast<F>(0.0);
    case 1: return -static_cast<F>(0.0);
    case 2: return static_cast<F>(HUGE_VAL);
    case 3: return -static_cast<F>(HUGE_VAL);
    case 4: return static_cast<F>(NAN);
    case 5: return -static_cast<F>(NAN);
    case 6: return std::numeric_limits<F>::max();
    case 7: return std::numeric_limits<F>::lowest();
    case 8: return std::numeric_limits<F>::denorm_min();
    default: return static_cast<F>(1.0);
  }
}
template <> float Special<float>(uint64_t j, uint64_t) { return SpecialF<float>(j); }
template <> double Special<double>(uint64_t j, uint64_t) { return SpecialF<double>(j); }
#if SORT_F16
template <> hwy::float16_t Special<hwy::float16_t>(uint64_t j, uint64_t) {
  const uint16_t bits[] = {0, 0x8000, 0x7C00, 0xFC00, 0x7E00, 0xFE00, 0x7BFF, 0xFBFF, 1, 0x3C00};
  hwy::float16_t k;
  memcpy(&k, &bits[j % 10], 2);
  return k;
}
#endif

struct Shape {
  uint64_t pattern, seed, distinct;
  size_t n;
};
template <class K>
K KeyAt(const Shape& s, size_t i, Rng& r) {
  const size_t n = s.n;
  switch (s.pattern) {
    case 0: return Small<K>(r.Below(1 + 2 * n), i);
    case 1: return FromBits<K>(r.Next(), i);  // includes NaN
    case 2: return Small<K>(r.Below(s.distinct), i);
    case 3: return Small<K>(i, i);
    case 4: return Small<K>(n - i, i);
    case 5: return Small<K>(7, i);
    case 6: return Small<K>(i < n / 2 ? i : n - i, i);
    case 7: return Special<K>(r.Next() >> 32, i);
    case 8: return r.Below(64) ? Small<K>(50, i) : Small<K>(r.Below(100), i);
    case 9: return r.Below(16) ? Small<K>(i, i) : Small<K>(r.Below(n + 1), i);
    case 10: return Small<K>(i % (s.distinct + 1), i);
    case 11: return r.Below(s.distinct) ? Small<K>(r.Below(1 + n), i) : Special<K>(r.Next() >> 32, i);
    case 12: return Special<K>((s.seed >> 8) + (r.Below(n / 4 + 2) == 0), i);  // almost all the same special
    case 13: return FromBits<K>(r.Next() >> (r.Below(60)), i);
    case 14: return Special<K>((s.seed >> 8) + (r.Below(2) ? 0 : s.distinct), i);  // two special values
    default: {
      // All equal but for a few keys on one side of the common one, anywhere,
      // and a few on the other side near one end: sampling tends to miss them.
      const bool up = s.pattern & 1;
      const uint64_t h = s.seed * 0x9E3779B97F4A7C15ull;
      const size_t from_end = s.seed & 16 ? i : n - 1 - i;
      const size_t tail = 1 + ((h >> 40) & 15);
      if (from_end == ((h >> 50) % tail)) return Small<K>(up ? 3 : 150, i);
      if (r.Below(n) < s.distinct && from_end >= tail) return Small<K>(up ? 90 + r.Below(9) : 10 + r.Below(9), i);
      return Small<K>(50, i);
    }
  }
}
constexpr uint64_t kPatterns = 19;

struct Job {
  Shape shape;
  uint64_t op;     // 0 sort, 1 partial, 2 select
  size_t k;
  size_t offset;   // of the first key within a 64-byte chunk, in keys
  uint64_t layout; // 0 heap block of exactly the keys, 1 guarded
  bool wrapper;
};

template <class K, class Order>
struct Comes {
  bool operator()(const K& a, const K& b) const {
    const bool na = Info<K>::IsNaN(a), nb = Info<K>::IsNaN(b);
    if (na || nb) return !na && nb;
    return Order::IsAscending() ? Info<K>::Less(a, b) : Info<K>::Less(b, a);
  }
};

template <class K>
struct ByBytes {
  bool operator()(const K& a, const K& b) const { return memcmp(&a, &b, sizeof(K)) < 0; }
};

// The caller's own code is not instrumented.
template <class K, class Order>
SIM_NOINST void CheckResult(const K* in, const K* out, const Job& j, const char* type) {
  const size_t n = j.shape.n;
  const Comes<K, Order> before{};
  std::vector<K> ref(in, in + n);
  std::sort(ref.begin(), ref.end(), before);
  const char* what = j.op == 0 ? "VQSort" : j.op == 1 ? "VQPartialSort" : "VQSelect";
  const char* order = Order::IsAscending() ? "ascending" : "descending";
  auto same = [&](const K& a, const K& b) { return !before(a, b) && !before(b, a); };
  if (j.op == 0 || j.op == 1) {
    const size_t end = j.op == 0 ? n : j.k;
    for (size_t i = 0; i < end; ++i)
      SIM_CHECK(same(out[i], ref[i]), "wrong-order", "%s %s %s of %zu keys (k=%zu): wrong key at %zu", what, type, order, n, j.k, i);
  } else {
    SIM_CHECK(same(out[j.k], ref[j.k]), "wrong-selection", "%s %s %s of %zu keys: key %zu is not the one a full sort would place there", what, type, order, n, j.k);
    for (size_t i = 0; i < j.k; ++i)
      SIM_CHECK(!before(out[j.k], out[i]), "wrong-partition", "%s %s %s of %zu keys (k=%zu): key %zu belongs after key k", what, type, order, n, j.k, i);
    for (size_t i = j.k + 1; i < n; ++i)
      SIM_CHECK(!before(out[i], out[j.k]), "wrong-partition", "%s %s %s of %zu keys (k=%zu): key %zu belongs before key k", what, type, order, n, j.k, i);
  }
  std::vector<K> a(n), b(n);
  for (size_t i = 0; i < n; ++i) {
    a[i] = Info<K>::Canonical(in[i]);
    b[i] = Info<K>::Canonical(out[i]);
  }
  std::sort(a.begin(), a.end(), ByBytes<K>());
  std::sort(b.begin(), b.end(), ByBytes<K>());
  for (size_t i = 0; i < n; ++i)
    SIM_CHECK(memcmp(&a[i], &b[i], sizeof(K)) == 0, "keys-lost", "%s %s %s of %zu keys (k=%zu): the output is not a rearrangement of the input", what, type, order, n, j.k);
}

template <class K, class Order>
void Call(K* keys, const Job& j) {
  if (j.op == 0) {
    if (j.wrapper) {
      hwy::Sorter sorter;
      sorter(keys, j.shape.n, Order());
    } else {
      hwy::VQSort(keys, j.shape.n, Order());
    }
  } else if (j.op == 1) {
    hwy::VQPartialSort(keys, j.shape.n, j.k, Order());
  } else {
    hwy::VQSelect(keys, j.shape.n, j.k, Order());
  }
}

// Simulated cost bound: accesses per key and level of recursion.
uint64_t CostBound(size_t n) {
  uint64_t lg = 1;
  while ((size_t{1} << lg) < n) ++lg;
  return 5000 + 16ull * n * lg;
}

template <class K, class Order>
SIM_NOINST void Fill(K* keys, const Shape& s) {
  Rng r(s.seed);
  for (size_t i = 0; i < s.n; ++i) keys[i] = KeyAt<K>(s, i, r);
}

template <class K, class Order>
void RunJob(const Job& j, const char* type) {
  const size_t n = j.shape.n;
  const size_t kGuard = 64;
  void* raw = nullptr;
  const size_t bytes = n * sizeof(K);
  const size_t off = j.offset * sizeof(K) % 64;
  const size_t total = j.layout == 0 ? off + bytes : kGuard + off + bytes + kGuard;
  if (posix_memalign(&raw, 64, total + (total == 0)) != 0) return;
  unsigned char* p = static_cast<unsigned char*>(raw);
  unsigned char* first = p + off + (j.layout == 0 ? 0 : kGuard);
  for (unsigned char* q = p; q < first; ++q) *q = 0xC3;
  if (j.layout != 0)
    for (unsigned char* q = first + bytes; q < p + total; ++q) *q = 0xC3;
  K* keys = reinterpret_cast<K*>(first);
  Fill<K, Order>(keys, j.shape);
  std::vector<K> in(keys, keys + n);
  const uint64_t acc = PlainAccesses();
  Call<K, Order>(keys, j);
  const uint64_t cost = PlainAccesses() - acc;
  if (NumThreadsAlive() == 1)
    SIM_CHECK(cost <= CostBound(n), "too-slow", "%s of %zu keys took %llu memory accesses, more than %llu", type, n, (ull)cost, (ull)CostBound(n));
  for (unsigned char* q = p; q < first; ++q)
    SIM_CHECK(*q == 0xC3, "wrote-outside", "%s n=%zu: byte %zu before the keys changed", type, n, static_cast<size_t>(first - q));
  if (j.layout != 0)
    for (unsigned char* q = first + bytes; q < p + total; ++q)
      SIM_CHECK(*q == 0xC3, "wrote-outside", "%s n=%zu: byte %zu after the keys changed", type, n, static_cast<size_t>(q - first - bytes));
  CheckResult<K, Order>(in.data(), keys, j, type);
  free(raw);
}

#ifdef SORT_SCALAR
constexpr uint64_t kTypes = 9;
#else
constexpr uint64_t kTypes = 12;
#endif

template <class Order>
void RunType(uint64_t type, const Job& j) {
  switch (type) {
    case 0: return RunJob<uint64_t, Order>(j, "u64");
    case 1: return RunJob<uint32_t, Order>(j, "u32");
    case 2: return RunJob<uint16_t, Order>(j, "u16");
    case 3: return RunJob<int64_t, Order>(j, "i64");
    case 4: return RunJob<int32_t, Order>(j, "i32");
    case 5: return RunJob<int16_t, Order>(j, "i16");
    case 6: return RunJob<float, Order>(j, "f32");
    case 7: return RunJob<double, Order>(j, "f64");
    case 8: return RunJob<hwy::K32V32, Order>(j, "kv64");
#ifndef SORT_SCALAR
    case 9: return RunJob<hwy::K64V64, Order>(j, "kv128");
    case 10: return RunJob<hwy::uint128_t, Order>(j, "u128");
    default:
#if SORT_F16
      if (hwy::HaveFloat16()) return RunJob<hwy::float16_t, Order>(j, "f16");
#endif
      return RunJob<uint64_t, Order>(j, "u64");
#endif
  }
}

size_t DrawSize(uint64_t max) {
  switch (Gen(6)) {
    case 0: return Gen(20);
    case 1: return Gen(130);
    case 2: {
      const size_t edges[] = {8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513};
      return GenPick(edges);
    }
    case 3: return Gen(700);
    case 4: return Gen(3000);
    default: return Gen(max);
  }
}

struct Plan {
  Job job;
  uint64_t type;
  bool descending;
};
Plan DrawPlan(uint64_t max) {
  Plan p;
  p.type = Gen(kTypes);
  p.descending = GenBool();
  Job& j = p.job;
  j.shape.n = DrawSize(max);
  j.shape.pattern = Gen(kPatterns);
  j.shape.seed = Gen(1 << 20);
  j.shape.distinct = 1 + Gen(9);
  j.op = Gen(3);
  j.layout = Gen(2);
  j.wrapper = Gen(4) == 1;
  j.offset = Gen(4) ? 0 : Gen(32);
  const size_t n = j.shape.n;
  j.k = 0;
  if (j.op == 1) {
    // k <= n
    switch (Gen(5)) {
      case 0: j.k = Gen(n + 1); break;
      case 1: j.k = n; break;
      case 2: j.k = n / 2; break;
      case 3: j.k = 0; break;
      default: j.k = n < 3 ? n : n - Gen(3); break;
    }
  } else if (j.op == 2) {
    if (n == 0) {
      j.op = 0;  // k < n is a precondition
    } else {
      const uint64_t c = Gen(4);
      j.k = c == 0 ? Gen(n) : c == 1 ? n - 1 : c == 2 ? n / 2 : 0;
    }
  }
  return p;
}
void Execute(const Plan& p) {
  if (p.descending) RunType<hwy::SortDescending>(p.type, p.job);
  else RunType<hwy::SortAscending>(p.type, p.job);
}

// ------------------------------------------------ scenarios
SIM_SCENARIO(C11, entropy, 6) {
  SortFaults();
  const uint64_t calls = 1 + Gen(6);
  for (uint64_t c = 0; c < calls; ++c) Execute(DrawPlan(6000));
}

struct ThreadArg {
  Plan plan[4];
  uint64_t num;
};
void SortThread(void* p) {
  ThreadArg* a = static_cast<ThreadArg*>(p);
  for (uint64_t i = 0; i < a->num; ++i) {
    Execute(a->plan[i]);
    Yield();
  }
}

SIM_SCENARIO(C11, threads, 3) {
  CommonFaults();
  SortFaults();
  const int n = static_cast<int>(GenRange(2, 4));
  static ThreadArg args[4];
  int tids[4];
  for (int i = 0; i < n; ++i) {
    args[i].num = GenRange(1, 4);
    for (uint64_t c = 0; c < args[i].num; ++c) args[i].plan[c] = DrawPlan(1500);
  }
  for (int i = 0; i < n; ++i) tids[i] = Spawn(&SortThread, &args[i]);
  for (int i = 0; i < n; ++i) Join(tids[i]);
}

// Adjacent parts of one array, sorted concurrently and then as a whole.
struct Slice {
  uint64_t* keys;
  size_t n, k;
  uint64_t op;
  bool desc;
};
void SliceThread(void* p) {
  Slice* s = static_cast<Slice*>(p);
  if (s->op == 0) {
    if (s->desc) hwy::VQSort(s->keys, s->n, hwy::SortDescending());
    else hwy::VQSort(s->keys, s->n, hwy::SortAscending());
  } else if (s->op == 1) {
    hwy::VQPartialSort(s->keys, s->n, s->k, hwy::SortAscending());
  } else if (s->n != 0) {
    hwy::VQSelect(s->keys, s->n, s->k, hwy::SortAscending());
  }
}

SIM_SCENARIO(C11, slices, 2) {
  CommonFaults();
  SortFaults();
  const int parts = static_cast<int>(GenRange(2, 6));
  static Slice sl[6];
  size_t total = 0;
  for (int i = 0; i < parts; ++i) {
    sl[i].n = DrawSize(1500);
    sl[i].op = Gen(3);
    sl[i].desc = GenBool();
    sl[i].k = sl[i].n ? Gen(sl[i].n) : 0;
    total += sl[i].n;
  }
  Shape s;
  s.pattern = Gen(kPatterns);
  s.seed = Gen(1 << 20);
  s.distinct = 1 + Gen(9);
  s.n = total;
  uint64_t* keys = static_cast<uint64_t*>(malloc(total * 8 + 8));
  Fill<uint64_t, hwy::SortAscending>(keys, s);
  std::vector<uint64_t> in(keys, keys + total);
  int tids[6];
  size_t pos = 0;
  for (int i = 0; i < parts; ++i) {
    sl[i].keys = keys + pos;
    pos += sl[i].n;
    tids[i] = Spawn(&SliceThread, &sl[i]);
  }
  for (int i = 0; i < parts; ++i) Join(tids[i]);
  pos = 0;
  for (int i = 0; i < parts; ++i) {
    Job j;
    j.shape.n = sl[i].n;
    j.op = sl[i].op;
    j.k = sl[i].k;
    if (sl[i].op == 0 && sl[i].desc)
      CheckResult<uint64_t, hwy::SortDescending>(in.data() + pos, keys + pos, j, "u64 slice");
    else if (sl[i].n)
      CheckResult<uint64_t, hwy::SortAscending>(in.data() + pos, keys + pos, j, "u64 slice");
    pos += sl[i].n;
  }
  hwy::VQSort(keys, total, hwy::SortAscending());
  Job j;
  j.shape.n = total;
  j.op = 0;
  j.k = 0;
  CheckResult<uint64_t, hwy::SortAscending>(in.data(), keys, j, "u64");
  free(keys);
}

// Sorting does not allocate: memory is exhausted after the thread's first sort
// (which may set up thread-local storage).
SIM_SCENARIO(C11, no_alloc, 1) {
  SortFaults();
  std::vector<uint64_t> warm(700);
  for (size_t i = 0; i < warm.size(); ++i) warm[i] = (i * 2654435761u) & 1023;
  hwy::VQSort(warm.data(), warm.size(), hwy::SortAscending());
  const size_t n = DrawSize(3000);
  std::vector<float> f(n);
  std::vector<hwy::K32V32> kv(n);
  Rng r(Gen(1000));
  for (size_t i = 0; i < n; ++i) {
    f[i] = static_cast<float>(r.Below(500));
    kv[i].key = static_cast<uint32_t>(r.Below(500));
    kv[i].value = static_cast<uint32_t>(i);
  }
  const uint64_t before = Heap().allocs;
  hwy::VQSort(f.data(), n, hwy::SortDescending());
  hwy::VQPartialSort(kv.data(), n, n / 2, hwy::SortAscending());
  if (n) hwy::VQSelect(f.data(), n, n / 3, hwy::SortAscending());
  SIM_CHECK(Heap().allocs == before, "allocated", "sorting %zu keys allocated %llu blocks", n, (ull)(Heap().allocs - before));
}

// ------------------------------------------------ adversary
// Knows the entropy and how keys move, and arranges that every sample consists
// of the smallest keys, so that partitions are as lopsided as possible. This is
// a model of the pinned implementation: if the implementation changes, its
// inputs are merely less adversarial.
class Adversary {
 public:
  Adversary(size_t n, size_t lanes, size_t max_cols, uint64_t e0, uint64_t e1) : n_(n), N_(lanes), cols_(max_cols), id_(n), val_(n, 0) {
    st_[0] = e0;
    st_[1] = e1;
    st_[2] = 1;
    for (size_t i = 0; i < n; ++i) id_[i] = i;
  }
  SIM_NOINST std::vector<uint64_t> Make(bool ascending) {
    Recurse(0, n_, 0);
    // The rest in a fixed scrambled order.
    std::vector<size_t> rest;
    for (size_t i = 0; i < n_; ++i)
      if (val_[i] == 0) rest.push_back(i);
    for (size_t i = 0; i < rest.size(); ++i) val_[rest[(i * 7919) % rest.size()]] |= 0;
    for (size_t i = 0; i < rest.size(); ++i) val_[rest[i]] = next_ + 2 * ((i * 40503u) % (rest.size() + 1)) + 2;
    std::vector<uint64_t> out(n_);
    for (size_t i = 0; i < n_; ++i) out[i] = ascending ? val_[i] : ~val_[i];
    return out;
  }
  size_t heap_keys = 0;

 private:
  static constexpr size_t kLevels = 50;
  static constexpr uint64_t kInf = ~0ull;
  uint64_t V(size_t pos) const { return val_[id_[pos]] ? val_[id_[pos]] : kInf; }
  uint64_t Rand() {
    const uint64_t a = st_[0], b = st_[1], w = st_[2] + 1, next = a ^ w;
    st_[0] = (b + (b << 3)) ^ (b >> 11);
    st_[1] = ((b << 24) | (b >> 40)) + next;
    st_[2] = w;
    return next;
  }
  SIM_NOINST size_t Partition(size_t base, size_t num, uint64_t pivot) {
    const size_t N = N_, U = 4;
    std::vector<size_t> k(id_.begin() + static_cast<long>(base), id_.begin() + static_cast<long>(base + num));
    auto right = [&](size_t id) { return (val_[id] ? val_[id] : kInf) > pivot; };
    const size_t rem = num & (U * N - 1);
    size_t here = std::min(num, rem + (rem < N ? U * N : 0));
    size_t main = num - here;
    if (main < 2 * U * N) {
      here = num;
      main = 0;
    }
    std::vector<size_t> bl, br;
    size_t r = num, i = 0;
    for (; i + N <= here; i += N) {
      r -= N;
      for (size_t l = 0; l < N; ++l) (right(k[r + l]) ? br : bl).push_back(k[r + l]);
    }
    if (here - i) {
      const size_t c = here - i;
      r -= c;
      for (size_t l = 0; l < c; ++l) (right(k[r + l]) ? br : bl).push_back(k[r + l]);
    }
    size_t wr = num - br.size();
    std::copy(br.begin(), br.end(), k.begin() + static_cast<long>(wr));
    size_t wl = 0, remaining = wr;
    if (main) {
      struct Vec {
        size_t v[64];
      };
      auto load = [&](size_t at) {
        Vec v;
        for (size_t l = 0; l < N; ++l) v.v[l] = k[at + l];
        return v;
      };
      auto slr = [&](const Vec& v) {
        remaining -= N;
        size_t nl = 0, nr = 0, rr[64];
        for (size_t l = 0; l < N; ++l) {
          if (right(v.v[l])) rr[nr++] = v.v[l];
          else k[wl + nl++] = v.v[l];
        }
        wl += nl;
        for (size_t l = 0; l < nr; ++l) k[remaining + wl + l] = rr[l];
      };
      Vec vl[4], vr[4], v[4];
      size_t rl = U * N, rrd = main - U * N;
      for (size_t q = 0; q < 4; ++q) vl[q] = load(q * N);
      for (size_t q = 0; q < 4; ++q) vr[q] = load(rrd + q * N);
      while (rl != rrd) {
        if (rl - wl > U * N) {
          rrd -= U * N;
          for (size_t q = 0; q < 4; ++q) v[q] = load(rrd + q * N);
        } else {
          for (size_t q = 0; q < 4; ++q) v[q] = load(rl + q * N);
          rl += U * N;
        }
        for (size_t q = 0; q < 4; ++q) slr(v[q]);
      }
      for (size_t q = 0; q < 4; ++q) slr(vl[q]);
      slr(vr[0]);
      slr(vr[1]);
      wr = wl + remaining;
      for (size_t q = 2; q < 4; ++q) {
        std::vector<size_t> rr;
        for (size_t l = 0; l < N; ++l) (right(vr[q].v[l]) ? rr : bl).push_back(vr[q].v[l]);
        wr -= rr.size();
        std::copy(rr.begin(), rr.end(), k.begin() + static_cast<long>(wr));
      }
    }
    std::copy(bl.begin(), bl.end(), k.begin() + static_cast<long>(wl));
    std::copy(k.begin(), k.end(), id_.begin() + static_cast<long>(base));
    return wl + bl.size();
  }
  SIM_NOINST void Recurse(size_t base, size_t num, size_t levels) {
    const size_t base_case = (N_ >= 4 ? 16 : 8) * std::min(N_, cols_);
    for (;;) {
    if (num <= base_case) return;
    const size_t C = 8;
    const size_t mis = base & (C - 1);
    const size_t skip = mis ? C - mis : 0;
    if (num < skip + 2 * C) return;
    const size_t chunks = (num - skip) / C;
    size_t off[6];
    for (int i = 0; i < 6; i += 2) {
      const uint64_t b = Rand();
      off[i] = base + skip + static_cast<size_t>(((b & 0xFFFFFFFFull) * chunks) >> 32) * C;
      off[i + 1] = base + skip + static_cast<size_t>(((b >> 32) * chunks) >> 32) * C;
    }
    for (int i = 0; i < 6; ++i)
      for (size_t l = 0; l < C; ++l) {
        uint64_t& v = val_[id_[off[i] + l]];
        if (v == 0) v = next_ += 4;
      }
    std::vector<uint64_t> s;
    for (int h = 0; h < 2; ++h)
      for (size_t l = 0; l < C; ++l) {
        uint64_t m[3] = {V(off[3 * h] + l), V(off[3 * h + 1] + l), V(off[3 * h + 2] + l)};
        std::sort(m, m + 3);
        s.push_back(m[1]);
      }
    std::sort(s.begin(), s.end());
    size_t prev = C - 1;
    size_t rank = C;
    bool done = false;
    while (s[prev] == s[C]) {
      if (prev == 0) {
        rank = 0;
        done = true;
        break;
      }
      --prev;
    }
    if (!done) {
      size_t nx = prev + 1;
      while (s[nx] == s[C]) {
        if (nx == 2 * C - 1) {
          rank = prev;
          done = true;
          break;
        }
        ++nx;
      }
      if (!done) rank = nx - C < C - prev ? C : prev;
    }
    // Keep going, in case the limit is not applied.
    if (levels == kLevels) heap_keys += num;
    const size_t bound = Partition(base, num, s[rank]);
    if (bound == 0 || bound == num) return;
    Recurse(base, bound, levels + 1);
    base += bound;
    num -= bound;
    ++levels;
    }
  }
  size_t n_, N_, cols_;
  std::vector<size_t> id_;
  std::vector<uint64_t> val_;
  uint64_t st_[3];
  uint64_t next_ = 4;
};

SIM_SCENARIO(C11, adversary, 2) {
  // The adversary knows the entropy.
  g_entropy_mode = Gen(1024);
  Rng r(g_entropy_mode);
  g_fixed[0] = r.Next();
  g_fixed[1] = r.Next();
  if (g_entropy_mode < 8) g_fixed[0] = g_fixed[1] = g_entropy_mode - 4;
  os.getrandom = &FixedEntropy;
  const uint64_t e0 = g_fixed[0], e1 = g_fixed[1];
  const size_t n = Gen(8) == 7 ? 20000 + Gen(10000) : 2000 + Gen(6000);
  const bool asc = GenBool();
  const uint64_t op = Gen(3);
  const size_t lanes = hwy::HWY_NAMESPACE::Lanes(hwy::HWY_NAMESPACE::ScalableTag<uint64_t>());
  // (Without SIMD, the input is just another one.)
  Adversary adv(n, lanes < 2 ? 4 : lanes, HWY_IS_DEBUG_BUILD ? 8 : 16, e0, e1);
  std::vector<uint64_t> in = adv.Make(asc);
  if (adv.heap_keys) Probe("adversary reached the recursion limit (model)");
  void* raw;
  if (posix_memalign(&raw, 64, n * 8) != 0) return;
  uint64_t* keys = static_cast<uint64_t*>(raw);
  memcpy(keys, in.data(), n * 8);
  Job j;
  j.shape.n = n;
  j.op = op;
  j.k = op == 0 ? 0 : Gen(2) ? n - 1 - Gen(n / 2) : Gen(n);
  j.wrapper = false;
  const uint64_t acc = PlainAccesses();
  if (asc) Call<uint64_t, hwy::SortAscending>(keys, j);
  else Call<uint64_t, hwy::SortDescending>(keys, j);
  const uint64_t cost = PlainAccesses() - acc;
  const uint64_t bound = CostBound(n);
  SIM_CHECK(cost <= bound, "too-slow", "adversarial input of %zu keys took %llu memory accesses, more than %llu", n, (ull)cost, (ull)bound);
  if (asc) CheckResult<uint64_t, hwy::SortAscending>(in.data(), keys, j, "u64 (adversarial)");
  else CheckResult<uint64_t, hwy::SortDescending>(in.data(), keys, j, "u64 (adversarial)");
  free(raw);
}

}  // namespace
