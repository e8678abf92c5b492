// C10: aligned_allocator.h and its users.
#include <stdlib.h>
#include <string.h>

#include <array>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <string>
#include <utility>
#include <vector>

#include "common.h"
#include "hwy/aligned_allocator.h"
#include "hwy/contrib/image/image.h"
#include "hwy/per_target.h"

using namespace sim;
typedef unsigned long long ull;

namespace {

// ------------------------------------------------ custom allocator
// Hands out blocks at odd addresses with guard bytes on both sides.
constexpr size_t kGuard = 48;
struct Arena {
  struct Block {
    unsigned char* raw;
    unsigned char* user;
    size_t bytes;
    bool live;
  };
  Block blocks[64];
  int num = 0;
  uint64_t allocs = 0, frees = 0, failures = 0;
  size_t misalign = 0;
  bool can_fail = false;
  int fail_at = -1;
};

void* ArenaAlloc(void* opaque, size_t bytes) {
  Arena* a = static_cast<Arena*>(opaque);
  if (a->num == 64) return nullptr;
  Yield();
  if ((a->can_fail && Fault(fCustom1)) || a->fail_at == a->num || bytes > (1u << 22)) {
    ++a->failures;
    return nullptr;
  }
  Arena::Block& b = a->blocks[a->num++];
  b.bytes = bytes;
  b.raw = static_cast<unsigned char*>(malloc(bytes + 2 * kGuard + a->misalign));
  if (b.raw == nullptr) {
    --a->num;
    ++a->failures;
    return nullptr;
  }
  b.user = b.raw + kGuard + a->misalign;
  memset(b.raw, 0xA5, kGuard + a->misalign);
  memset(b.user + bytes, 0x5A, kGuard);
  b.live = true;
  ++a->allocs;
  return b.user;
}
void ArenaFree(void* opaque, void* p) {
  Arena* a = static_cast<Arena*>(opaque);
  for (int i = 0; i < a->num; ++i) {
    Arena::Block& b = a->blocks[i];
    if (b.user != p || !b.live) continue;
    for (size_t k = 0; k < kGuard + a->misalign; ++k)
      SIM_CHECK(b.raw[k] == 0xA5, "wrote-outside", "byte %zu before a block of %zu bytes was overwritten", kGuard + a->misalign - k, b.bytes);
    for (size_t k = 0; k < kGuard; ++k)
      SIM_CHECK(b.user[b.bytes + k] == 0x5A, "wrote-outside", "byte %zu after a block of %zu bytes was overwritten", k, b.bytes);
    b.live = false;
    free(b.raw);
    ++a->frees;
    return;
  }
  Fail("wrong-free", "deallocator called with %p, which its allocator did not return (or freed already)", p);
}
void CheckArena(const Arena& a) {
  SIM_CHECK(a.allocs == a.frees, "leak", "%llu blocks from the custom allocator, %llu returned", (ull)a.allocs, (ull)a.frees);
}

// ------------------------------------------------ blocks in use
struct InUse {
  unsigned char* p;
  size_t bytes;
  uint32_t tag;
};
std::mutex g_mu;
std::vector<InUse> g_in_use;  // guarded by g_mu

size_t RequiredAlign() {
  const size_t v = hwy::VectorBytes();
  return v > HWY_ALIGNMENT ? v : HWY_ALIGNMENT;
}

void Fill(unsigned char* p, size_t n, uint32_t tag) {
  for (size_t i = 0; i < n; i = i < 256 || i + 256 > n ? i + 1 : i + 61) p[i] = static_cast<unsigned char>(tag + i * 7);
}
void Verify(const unsigned char* p, size_t n, uint32_t tag) {
  for (size_t i = 0; i < n; i = i < 256 || i + 256 > n ? i + 1 : i + 61)
    SIM_CHECK(p[i] == static_cast<unsigned char>(tag + i * 7), "block-corrupted", "byte %zu of a live block of %zu bytes changed", i, n);
}

void Register(void* ptr, size_t bytes, uint32_t tag) {
  unsigned char* p = static_cast<unsigned char*>(ptr);
  SIM_CHECK(reinterpret_cast<uintptr_t>(p) % RequiredAlign() == 0, "misaligned", "block of %zu bytes at %p", bytes, ptr);
  std::lock_guard<std::mutex> lock(g_mu);
  for (const InUse& u : g_in_use)
    SIM_CHECK(p + bytes <= u.p || u.p + u.bytes <= p, "overlap", "new block [%p,+%zu) overlaps live block [%p,+%zu)", ptr, bytes, u.p, u.bytes);
  g_in_use.push_back(InUse{p, bytes, tag});
}
void Unregister(void* ptr) {
  std::lock_guard<std::mutex> lock(g_mu);
  for (size_t i = 0; i < g_in_use.size(); ++i) {
    if (g_in_use[i].p == ptr) {
      g_in_use.erase(g_in_use.begin() + static_cast<long>(i));
      return;
    }
  }
}

size_t SizeFrom(uint32_t h) {
  const size_t s[] = {1,   2,   15,  16,  17,   63,   64,   65,   127,  128,  129,  255,   256,   500,   895,  896,
                      897, 1000, 1007, 1008, 1009, 1023, 1024, 1025, 2047, 2048, 4096, 10000, 65536, 100001, 3, 7};
  return s[h % 32];
}

// ------------------------------------------------ objects with destructors
std::mutex g_obj_mu;
std::map<const void*, int>* g_objects;  // live tracked objects
uint64_t g_constructed, g_destroyed;

template <size_t kBytes>
struct Tracked {
  unsigned char data[kBytes];
  explicit Tracked(uint32_t tag) {
    AllocFaults(false);  // the constructor's own bookkeeping does not fail
    Fill(data, kBytes, tag);
    std::lock_guard<std::mutex> lock(g_obj_mu);
    ++g_constructed;
    SIM_CHECK(g_objects->insert({this, static_cast<int>(tag)}).second, "constructed-twice", "object at %p constructed twice", static_cast<void*>(this));
  }
  Tracked(const Tracked&) = delete;
  ~Tracked() {
    std::lock_guard<std::mutex> lock(g_obj_mu);
    auto it = g_objects->find(this);
    SIM_CHECK(it != g_objects->end(), "destroyed-twice", "object at %p destroyed but not alive", static_cast<void*>(this));
    Verify(data, kBytes, static_cast<uint32_t>(it->second));
    g_objects->erase(it);
    ++g_destroyed;
  }
};

struct OddPod {
  unsigned char b[12];
};
struct OddPod24 {
  uint64_t v[3];
};

// ------------------------------------------------ one client operation
struct Client {
  uint32_t seed, ops;
  bool faults;
  size_t misalign;
  bool cross_free;
};
// Blocks handed to whichever thread frees them.
struct Parcel {
  void* p;
  size_t bytes;
  uint32_t tag;
};
std::mutex g_box_mu;
std::vector<Parcel> g_box;

// Empty result: only if an allocation really failed.
void CheckEmpty(uint64_t failures_before, const Arena* a, const char* what) {
  const uint64_t f = AllocFailures() + (a ? a->failures : 0);
  SIM_CHECK(f > failures_before, "spurious-null", "%s returned null although no allocation failed", what);
  Probe("null on failed allocation");
}

template <typename T>
void UsePodArray(const Client& c, uint32_t h, Arena* arena) {
  const size_t items = 1 + SizeFrom(h) / 8;
  const uint64_t f0 = AllocFailures() + arena->failures;
  AllocFaults(c.faults);
  hwy::AlignedFreeUniquePtr<T[]> p = (h & 64) ? hwy::AllocateAligned<T>(items, &ArenaAlloc, &ArenaFree, arena) : hwy::AllocateAligned<T>(items);
  AllocFaults(false);
  if (!p) return CheckEmpty(f0, arena, "AllocateAligned");
  Register(p.get(), items * sizeof(T), h);
  Fill(reinterpret_cast<unsigned char*>(p.get()), items * sizeof(T), h);
  Yield();
  auto q = std::move(p);  // ownership moves, nothing is freed
  Verify(reinterpret_cast<unsigned char*>(q.get()), items * sizeof(T), h);
  Unregister(q.get());
}

template <typename T>
void UseObjects(const Client& c, uint32_t h, Arena* arena) {
  const uint64_t f0 = AllocFailures() + arena->failures;
  const size_t items = 1 + (h >> 8) % 9;
  const bool custom = (h & 64) != 0;
  if (h & 128) {
    AllocFaults(c.faults);
    hwy::AlignedUniquePtr<T[]> p = custom ? hwy::MakeUniqueAlignedArrayWithAlloc<T>(items, &ArenaAlloc, &ArenaFree, arena, h)
                                          : hwy::MakeUniqueAlignedArray<T>(items, h);
    AllocFaults(false);
    if (!p) return CheckEmpty(f0, arena, "MakeUniqueAlignedArray");
    Register(p.get(), items * sizeof(T), h);
    for (size_t i = 0; i < items; ++i) Verify(p[i].data, sizeof(T), h);
    Yield();
    Unregister(p.get());
  } else {
    AllocFaults(c.faults);
    hwy::AlignedUniquePtr<T> p = custom ? hwy::MakeUniqueAlignedWithAlloc<T>(&ArenaAlloc, &ArenaFree, arena, h) : hwy::MakeUniqueAligned<T>(h);
    AllocFaults(false);
    if (!p) return CheckEmpty(f0, arena, "MakeUniqueAligned");
    Register(p.get(), sizeof(T), h);
    Verify(p->data, sizeof(T), h);
    Yield();
    Unregister(p.get());
    if (h & 1024) {
      p.reset();
      SIM_CHECK(!p, "not-empty", "reset() left a pointer");
    }
  }
}

void UseBytes(const Client& c, uint32_t h, Arena* arena) {
  const size_t bytes = SizeFrom(h);
  const bool custom = (h & 64) && !c.cross_free;
  const uint64_t f0 = AllocFailures() + arena->failures;
  AllocFaults(c.faults);
  void* p = custom ? hwy::AllocateAlignedBytes(bytes, &ArenaAlloc, arena) : hwy::AllocateAlignedBytes(bytes);
  AllocFaults(false);
  if (!p) {
    CheckEmpty(f0, arena, "AllocateAlignedBytes");
  } else {
    Register(p, bytes, h);
    Fill(static_cast<unsigned char*>(p), bytes, h);
  }
  Yield();
  if (custom || !c.cross_free) {
    if (p) {
      Verify(static_cast<unsigned char*>(p), bytes, h);
      Unregister(p);
    }
    hwy::FreeAlignedBytes(p, custom ? &ArenaFree : nullptr, custom ? arena : nullptr);
    return;
  }
  Parcel take = {nullptr, 0, 0};
  {
    std::lock_guard<std::mutex> lock(g_box_mu);
    if (p) g_box.push_back(Parcel{p, bytes, h});
    if (!g_box.empty() && (h & 256)) {
      const size_t i = (h >> 12) % g_box.size();
      take = g_box[i];
      g_box.erase(g_box.begin() + static_cast<long>(i));
    }
  }
  if (take.p) {
    Verify(static_cast<unsigned char*>(take.p), take.bytes, take.tag);
    Unregister(take.p);
  }
  hwy::FreeAlignedBytes(take.p, nullptr, nullptr);
}

void UseVector(const Client& c, uint32_t h) {
  const uint64_t f0 = AllocFailures();
  hwy::AlignedVector<uint32_t> v;
  uint32_t pushed = 0;
  AllocFaults(c.faults);
  try {
    if (h & 64) v.reserve(1 + h % 50);
    const uint32_t n = 1 + (h >> 8) % 120;
    for (uint32_t i = 0; i < n; ++i) {
      v.push_back(h + i);
      ++pushed;
    }
  } catch (const std::bad_alloc&) {
    AllocFaults(false);
    CheckEmpty(f0, nullptr, "AlignedVector");
  }
  AllocFaults(false);
  SIM_CHECK(v.size() == pushed, "wrong-size", "vector has %zu elements, pushed %u", v.size(), pushed);
  for (uint32_t i = 0; i < pushed; ++i) SIM_CHECK(v[i] == h + i, "block-corrupted", "element %u of AlignedVector is %u", i, v[i]);
  if (v.capacity()) {
    Register(v.data(), v.capacity() * 4, h);
    Yield();
    Unregister(v.data());
  }
}

void ClientMain(void* arg) {
  const Client& c = *static_cast<const Client*>(arg);
  auto arena = std::make_unique<Arena>();
  arena->misalign = c.misalign;
  arena->can_fail = c.faults;
  for (uint32_t i = 0; i < c.ops; ++i) {
    const uint32_t h = Hash32(c.seed, i);
    switch (Hash32(c.seed, 500 + i) % 9) {
      case 0:
      case 1:
      case 2: UseBytes(c, h, arena.get()); break;
      case 3: UsePodArray<OddPod>(c, h, arena.get()); break;
      case 4: UsePodArray<double>(c, h, arena.get()); break;
      case 5: UseObjects<Tracked<1>>(c, h, arena.get()); break;
      case 6: UseObjects<Tracked<40>>(c, h, arena.get()); break;
      case 7: UseObjects<Tracked<333>>(c, h, arena.get()); break;
      case 8: UseVector(c, h); break;
    }
  }
  CheckArena(*arena);
}

void OnAbort() {
  if (AllocFailures() > 0) {
    Probe("reported by Abort");
    FinishOk();
  }
  char buf[2000];
  const size_t n = CapturedStderr(buf, sizeof(buf) - 1);
  buf[n < sizeof(buf) ? n : sizeof(buf) - 1] = 0;
  Fail("abort", "aborted although no allocation failed: %.300s", buf);
}

void Setup() {
  EnableFault(fLateStart, 300000);
  EnableFault(fStall, 800000);
  EnableFault(fAllocFail, 300000);
  EnableFault(fCustom1, 300000);
  SetStepBudget(60000, 600000);
  g_objects = new std::map<const void*, int>();
  SetAllocReuse(GenBool());
}

}  // namespace

SIM_SCENARIO(C10, concurrent, 5) {
  Setup();
  {
    (void)hwy::VectorBytes();
    const uint64_t mark = HeapMark();
    {
      const size_t threads = 1 + Gen(5);
      std::vector<Client> cs(threads);
      const bool faults = Gen(3) != 0;
      const bool cross = GenBool();
      for (Client& c : cs) {
        c.seed = static_cast<uint32_t>(Gen(1u << 24));
        c.ops = 1 + static_cast<uint32_t>(Gen(10));
        c.faults = faults;
        const size_t mis[] = {0, 1, 8, 13, 16, 64, 127};
        c.misalign = mis[Gen(7)];
        c.cross_free = cross;
      }
      std::vector<int> tids;
      for (size_t i = 1; i < threads; ++i) tids.push_back(Spawn(&ClientMain, &cs[i]));
      ClientMain(&cs[0]);
      for (int t : tids) Join(t);
      for (const Parcel& p : g_box) {
        Verify(static_cast<unsigned char*>(p.p), p.bytes, p.tag);
        hwy::FreeAlignedBytes(p.p, nullptr, nullptr);
      }
      std::vector<Parcel>().swap(g_box);
      std::vector<InUse>().swap(g_in_use);
    }
    SIM_CHECK(g_objects->empty() && g_constructed == g_destroyed, "leak", "%llu objects constructed, %llu destroyed", (ull)g_constructed,
              (ull)g_destroyed);
    const void* addr;
    size_t size;
    const uint64_t live = HeapLiveSince(mark, &addr, &size);
    SIM_CHECK(live == 0, "leak", "%llu blocks were not freed, e.g. %zu bytes", (ull)live, size);
  }
}

// Byte sizes that overflow or exceed memory.
namespace {
struct Recorder {
  bool called = false;
  size_t bytes = 0;
};
void* RecordAlloc(void* opaque, size_t bytes) {
  Recorder* r = static_cast<Recorder*>(opaque);
  r->called = true;
  r->bytes = bytes;
  return nullptr;
}
void RecordFree(void*, void* p) { Fail("wrong-free", "deallocator called with %p although the allocator returned null", p); }
size_t g_huge_items, g_item_size;
void OnHugeAbort() {
  // Debug builds may reject absurd sizes loudly.
  const unsigned __int128 bytes = static_cast<unsigned __int128>(g_huge_items) * g_item_size;
  SIM_CHECK(bytes >= (static_cast<unsigned __int128>(1) << 63) - (1 << 20), "abort", "aborted for %zu items of %zu bytes", g_huge_items, g_item_size);
  Probe("reported by Abort");
  FinishOk();
}
template <typename T>
void TryHuge(size_t items) {
  g_huge_items = items;
  g_item_size = sizeof(T);
  Recorder r;
  const unsigned __int128 bytes = static_cast<unsigned __int128>(items) * sizeof(T);
  if (GenBool()) {
    auto p = hwy::AllocateAligned<T>(items, &RecordAlloc, &RecordFree, &r);
    SIM_CHECK(!p, "overflow", "AllocateAligned returned a block for %zu items of %zu bytes", items, sizeof(T));
  } else {
    auto p = hwy::MakeUniqueAlignedArrayWithAlloc<T>(items, &RecordAlloc, &RecordFree, &r);
    SIM_CHECK(!p, "overflow", "MakeUniqueAlignedArray returned a block for %zu items of %zu bytes", items, sizeof(T));
  }
  if (r.called)
    SIM_CHECK(r.bytes >= bytes, "overflow", "allocator was asked for %zu bytes for %zu items of %zu bytes", r.bytes, items, sizeof(T));
  else
    Probe("overflow rejected");
  auto q = hwy::AllocateAligned<T>(items);  // malloc cannot provide these
  SIM_CHECK(!q, "overflow", "AllocateAligned returned a block for %zu items of %zu bytes", items, sizeof(T));
}
struct S3 { unsigned char b[3]; };
struct S4096 { unsigned char b[4096]; };
}  // namespace

SIM_SCENARIO(C10, huge, 1) {
  SetAbortHook(&OnHugeAbort);
  SetAllocLimit(uint64_t{1} << 28);
  const size_t max = ~size_t{0};
  for (int i = 0; i < 4; ++i) {
    const int shift = static_cast<int>(Gen(14));
    size_t items = max >> shift;
    switch (Gen(5)) {
      case 0: break;
      case 1: items = items / 3; break;
      case 2: items = (size_t{1} << (63 - shift)); break;
      case 3: items -= Gen(4096); break;
      case 4: items = items / 12 + 1 + Gen(16); break;
    }
    if (items < (size_t{1} << 40)) continue;
    switch (Gen(7)) {
      case 0: TryHuge<uint8_t>(items); break;
      case 1: TryHuge<uint16_t>(items); break;
      case 2: TryHuge<S3>(items); break;
      case 3: TryHuge<OddPod>(items); break;
      case 4: TryHuge<uint64_t>(items); break;
      case 5: TryHuge<OddPod24>(items); break;
      case 6: TryHuge<S4096>(items); break;
    }
  }
}

// Shapes whose total size does not fit in size_t: abort or an array that contains every row, never a small block.
namespace {
void OnShapeAbort() {
  Probe("huge shape rejected");
  FinishOk();
}
template <typename T>
hwy::Span<T> LastRow(hwy::AlignedNDArray<T, 2>& a, const std::array<size_t, 2>& s) {
  return a[{s[0] - 1}];
}
template <typename T>
hwy::Span<T> LastRow(hwy::AlignedNDArray<T, 3>& a, const std::array<size_t, 3>& s) {
  return a[{s[0] - 1, s[1] - 1}];
}
template <typename T, size_t axes>
void TryShape(const std::array<size_t, axes>& shape) {
  hwy::AlignedNDArray<T, axes> a(shape);
  Probe("large shape allocated");
  const auto row = LastRow<T>(a, shape);
  unsigned __int128 total = sizeof(T);
  for (size_t axis = 0; axis < axes; ++axis) {
    total *= shape[axis];
    SIM_CHECK(!(total >> 32), "overflow", "AlignedNDArray of %zu axes (%zu x ... x %zu) allocated although memory is limited to 2^28 bytes: rows alias",
              axes, shape[0], shape[axes - 1]);
  }
  SIM_CHECK(row.size() == shape[axes - 1] && HeapContains(row.data(), row.size() * sizeof(T)), "overflow",
            "AlignedNDArray of %zu axes (%zu x ... x %zu): last row is outside its memory of %zu elements", axes, shape[0], shape[axes - 1],
            a.memory_size());
}
template <typename T>
void TryImage() {
  // Row sizes times numbers of rows barely above multiples of 2^64.
  typedef unsigned __int128 u128;
  size_t xsize = 0, ysize = 0;
  uint64_t best = ~uint64_t{0};
  Rng rng(Gen(1u << 16));
  const size_t fixed = static_cast<size_t>(Gen(3));
  if (fixed && sizeof(T) == 8) {
    const size_t want = size_t{160465489} * 128;
    for (xsize = want / sizeof(T); hwy::ImageBase::BytesPerRow(xsize, sizeof(T)) > want; xsize -= 8) {}
    ysize = 898107057;
    if (fixed == 2) ysize -= static_cast<size_t>(rng.Below(2));
  } else {
    for (int i = 0; i < 2000; ++i) {
      const size_t x = static_cast<size_t>(0xFFFFFFFFu - rng.Below(0xF0000000u));
      const uint64_t row = hwy::ImageBase::BytesPerRow(x, sizeof(T));
      const u128 times = (u128{1} << 64) * (1 + rng.Below(sizeof(T) / 2 + 1));
      const u128 y = (times + row - 1) / row;
      if (y > 0xFFFFFFFFu) continue;
      const uint64_t over = static_cast<uint64_t>(y * row);
      if (over < best) {
        best = over;
        xsize = x;
        ysize = static_cast<size_t>(y);
      }
    }
  }
  if (xsize == 0) return;
  const hwy::Image<T> image(xsize, ysize);
  Probe("large image allocated");
  SIM_CHECK(image.xsize() == xsize && image.ysize() == ysize, "overflow", "image of %zu x %zu reports %zu x %zu", xsize, ysize, image.xsize(),
            image.ysize());
  SIM_CHECK(HeapContains(image.ConstRow(ysize - 1), xsize * sizeof(T)), "overflow", "image of %zu x %zu: last row is outside its memory", xsize, ysize);
}
}  // namespace
SIM_SCENARIO(C10, huge_shapes, 1) {
  SetAbortHook(&OnShapeAbort);
  SetAllocLimit(uint64_t{1} << 28);
  (void)hwy::VectorBytes();
  const size_t vb = hwy::VectorBytes();
  switch (Gen(6)) {
    case 0: TryImage<uint16_t>(); break;
    case 1: TryImage<float>(); break;
    case 2: TryImage<double>(); break;
    case 3: {  // 2 axes: rows * padded row = 2^64 * j + small
      const size_t cols = 1 + Gen(300);
      const size_t padded = (cols + vb - 1) / vb * vb;
      const size_t pow2 = padded & (~padded + 1);
      const size_t rows = (~size_t{0} / pow2 + 1) * static_cast<size_t>(Gen(pow2)) + 1 + Gen(5);
      if (GenBool()) TryShape<uint8_t, 2>({rows, cols});
      else TryShape<float, 2>({rows, cols});
      break;
    }
    case 4: {  // 3 axes
      const size_t cols = 1 + Gen(100);
      const size_t a = size_t{1} << (20 + Gen(30));
      const size_t padded = (cols + vb - 1) / vb * vb;
      const size_t pow2 = padded & (~padded + 1);
      size_t b = ~size_t{0} / a / pow2 + 1;
      b += GenBool() ? 0 : Gen(3);
      if (GenBool()) TryShape<uint16_t, 3>({a, b, cols});
      else TryShape<double, 3>({b, a + Gen(2), cols});
      break;
    }
    case 5:  // the padding itself overflows
      TryShape<uint8_t, 2>({1 + Gen(4), ~size_t{0} - Gen(vb)});
      break;
  }
}

// Rows of arrays are disjoint, aligned, inside the memory and keep their
// contents when the array is moved or truncated; threads fill different rows.
namespace {
template <typename T, size_t axes>
struct Rows {
  hwy::AlignedNDArray<T, axes>* a;
  std::array<size_t, axes> shape;
  size_t begin, end;  // rows
};
template <typename T, size_t axes>
hwy::Span<T> RowAt(hwy::AlignedNDArray<T, axes>& a, const std::array<size_t, axes>& shape, size_t row) {
  size_t idx[4] = {0, 0, 0, 0};
  for (size_t i = axes - 1; i-- > 0;) {
    idx[i] = row % shape[i];
    row /= shape[i];
  }
  if constexpr (axes == 2) return a[{idx[0]}];
  else if constexpr (axes == 3) return a[{idx[0], idx[1]}];
  else return a[{idx[0], idx[1], idx[2]}];
}
template <typename T>
T Value(size_t row, size_t x) {
  return static_cast<T>(1 + (row * 37 + x) % 113);
}
template <typename T, size_t axes>
void FillRows(void* arg) {
  const Rows<T, axes>* r = static_cast<const Rows<T, axes>*>(arg);
  for (size_t row = r->begin; row < r->end; ++row) {
    hwy::Span<T> span = RowAt<T, axes>(*r->a, r->shape, row);
    size_t x = 0;
    for (T& t : span) {
      SIM_CHECK(t == T(), "not-zero", "AlignedNDArray is not zero-initialised, or row %zu overlaps another", row);
      t = Value<T>(row, x++);
    }
    SIM_CHECK(x == r->shape[axes - 1], "wrong-size", "row has %zu elements instead of %zu", x, r->shape[axes - 1]);
    if (row % 4 == 3) Yield();
  }
}
template <typename T, size_t axes>
void CheckRows(hwy::AlignedNDArray<T, axes>& a, const std::array<size_t, axes>& old_shape, const std::array<size_t, axes>& shape) {
  SIM_CHECK(a.shape() == shape, "wrong-size", "shape() is wrong");
  size_t rows = 1, mem = 1, used = 1;
  for (size_t i = 0; i < axes; ++i) {
    if (i + 1 < axes) rows *= shape[i];
    SIM_CHECK(a.memory_shape()[i] >= old_shape[i], "wrong-size", "memory_shape() is smaller than the shape");
    mem *= a.memory_shape()[i];
    used *= shape[i];
  }
  SIM_CHECK(a.size() == used && a.memory_size() == mem && HeapContains(a.data(), mem * sizeof(T)), "wrong-size", "size() %zu, memory_size() %zu", a.size(),
            a.memory_size());
  const hwy::AlignedNDArray<T, axes>& ca = a;
  SIM_CHECK(ca.data() == a.data(), "wrong-row", "data() differs");
  for (size_t row = 0; row < rows; ++row) {
    hwy::Span<T> span = RowAt<T, axes>(a, shape, row);
    const hwy::Span<T>& cs = span;
    uintptr_t addr = reinterpret_cast<uintptr_t>(span.data());
    asm volatile("" : "+r"(addr));
    SIM_CHECK(addr % hwy::VectorBytes() == 0, "misaligned", "row %zu is at %p", row, reinterpret_cast<void*>(addr));
    SIM_CHECK(HeapContains(span.data(), span.size() * sizeof(T)), "overflow", "row %zu is outside the memory", row);
    SIM_CHECK(span.size() == shape[axes - 1] && span.begin() == span.data() && cs.data() == span.data() && cs.cbegin() == span.data() &&
                  span.end() == span.data() + span.size() && cs.cend() == span.end() && (span.size() == 0 || &span[span.size() - 1] == span.end() - 1),
              "wrong-row", "row %zu of %zu elements has inconsistent accessors", row, span.size());
    // The row number before truncation.
    size_t rest = row, old_row = 0, mul = 1;
    for (size_t i = axes - 1; i-- > 0;) {
      old_row += rest % shape[i] * mul;
      mul *= old_shape[i];
      rest /= shape[i];
    }
    for (size_t x = 0; x < span.size(); ++x)
      SIM_CHECK(span[x] == Value<T>(old_row, x), "block-corrupted", "row %zu element %zu is overwritten", row, x);
  }
}
template <typename T, size_t axes>
void TryArray() {
  std::array<size_t, axes> shape;
  size_t rows = 1;
  for (size_t i = 0; i + 1 < axes; ++i) rows *= shape[i] = 1 + Gen(5);
  shape[axes - 1] = Gen(3) ? 1 + Gen(20) : 1 + Gen(150);
  hwy::AlignedNDArray<T, axes> a(shape);
  const size_t threads = 1 + Gen(3);
  Rows<T, axes> work[3];
  int tids[3];
  for (size_t i = 0; i < threads; ++i) {
    work[i] = Rows<T, axes>{&a, shape, rows * i / threads, rows * (i + 1) / threads};
    if (i) tids[i] = Spawn(&FillRows<T, axes>, &work[i]);
  }
  FillRows<T, axes>(&work[0]);
  for (size_t i = 1; i < threads; ++i) Join(tids[i]);
  CheckRows<T, axes>(a, shape, shape);
  hwy::AlignedNDArray<T, axes> b(std::move(a));
  CheckRows<T, axes>(b, shape, shape);
  std::array<size_t, axes> smaller;
  for (size_t i = 0; i < axes; ++i) smaller[i] = 1 + Gen(shape[i]);
  b.truncate(smaller);
  CheckRows<T, axes>(b, shape, smaller);
  // Assignment copies into the span only.
  hwy::Span<T> row = RowAt<T, axes>(b, smaller, 0);
  if (row.size() >= 3) {
    hwy::Span<T> part(row.data() + 1, 2);
    part = {T(120), T(121)};
    SIM_CHECK(row[0] == Value<T>(0, 0) && row[1] == T(120) && row[2] == T(121) && (row.size() == 3 || row[3] == Value<T>(0, 3)), "block-corrupted",
              "assigning to a span wrote elsewhere");
  }
  const hwy::Span<T> none;
  SIM_CHECK(none.size() == 0 && none.data() == nullptr, "wrong-size", "default Span is not empty");
}
}  // namespace
SIM_SCENARIO(C10, arrays, 1) {
  SetStepBudget(60000, 600000);
  (void)hwy::VectorBytes();
  const uint64_t mark = HeapMark();
  if (Gen(4) == 3) {  // memory that someone else allocated, and frees
    const size_t n = 128 * static_cast<size_t>(1 + Gen(4));
    uint8_t* const block = static_cast<uint8_t*>(aligned_alloc(128, n));
    memset(block, 0xA5, n);
    {
      hwy::AlignedFreeUniquePtr<uint8_t[]> skip(block, hwy::AlignedFreer(&hwy::AlignedFreer::DoNothing, nullptr));
      hwy::AlignedFreeUniquePtr<uint8_t[]> moved(std::move(skip));
      if (GenBool()) moved.reset();
    }
    PlainRead(block, n);
    for (size_t i = 0; i < n; ++i) SIM_CHECK(block[i] == 0xA5, "payload-overwritten", "byte %zu of external memory was overwritten", i);
    free(block);
    Probe("external memory");
  }
  switch (Gen(6)) {
    case 0: TryArray<uint8_t, 2>(); break;
    case 1: TryArray<float, 2>(); break;
    case 2: TryArray<uint16_t, 3>(); break;
    case 3: TryArray<double, 3>(); break;
    case 4: TryArray<int32_t, 4>(); break;
    case 5: TryArray<int8_t, 4>(); break;
  }
  const void* addr;
  size_t size;
  SIM_CHECK(HeapLiveSince(mark, &addr, &size) == 0, "leak", "%zu bytes of an array leaked", size);
}

// Creating functions while memory runs out; a reported error ends the run.
SIM_SCENARIO(C10, out_of_memory, 3) {
  Setup();
  SetAbortHook(&OnAbort);
  (void)hwy::VectorBytes();
  const uint64_t mark = HeapMark();
  const int nth = static_cast<int>(Gen(4));
  Arena arena;
  arena.fail_at = GenBool() ? static_cast<int>(Gen(3)) : -1;
  bool failed = false;
  try {
    switch (Gen(6)) {
      case 0: {
        AllocFaults(true);
        AllocFailAt(nth);
        auto a = hwy::MakeUniqueAligned<Tracked<64>>(7u);
        AllocFaults(false);
        if (!a) CheckEmpty(0, &arena, "MakeUniqueAligned");
        break;
      }
      case 1: {
        auto a = hwy::MakeUniqueAlignedWithAlloc<Tracked<64>>(&ArenaAlloc, &ArenaFree, &arena, 7u);
        auto b = hwy::MakeUniqueAlignedWithAlloc<Tracked<8>>(&ArenaAlloc, &ArenaFree, &arena, 9u);
        if (!a || !b) CheckEmpty(0, &arena, "MakeUniqueAlignedWithAlloc");
        break;
      }
      case 2: {
        const size_t rows = 1 + Gen(5), cols = 1 + Gen(70);
        AllocFaults(true);
        AllocFailAt(nth);
        hwy::AlignedNDArray<float, 2> a({rows, cols});
        AllocFaults(false);
        SIM_CHECK(a.size() == rows * cols && a.memory_size() >= a.size(), "wrong-size", "AlignedNDArray(%zu, %zu): %zu", rows, cols, a.size());
        float sum = 0;
        for (size_t r = 0; r < rows; ++r) {
          SIM_CHECK(a[{r}].size() == cols, "wrong-size", "row of %zu", a[{r}].size());
          for (size_t x = 0; x < cols; ++x) {
            sum += a[{r}][x];
            a[{r}][x] = 1.0f;
          }
        }
        SIM_CHECK(sum == 0.0f, "not-zero", "AlignedNDArray is not zero-initialised");
        break;
      }
      case 3: {
        AllocFaults(true);
        AllocFailAt(nth);
        hwy::ImageF image(1 + Gen(50), 1 + Gen(20));
        AllocFaults(false);
        for (size_t y = 0; y < image.ysize(); ++y)
          for (size_t x = 0; x < image.xsize(); ++x) image.MutableRow(y)[x] = 1.0f;
        hwy::ImageF moved(std::move(image));
        SIM_CHECK(moved.ConstRow(moved.ysize() - 1)[moved.xsize() - 1] == 1.0f, "block-corrupted", "moved image lost its data");
        break;
      }
      case 4: {
        AllocFaults(true);
        AllocFailAt(nth);
        hwy::AlignedVector<uint64_t> v(1 + Gen(100), 3);
        v.resize(v.size() * 2, 3);
        v.insert(v.begin(), 5, 3);
        hwy::AlignedVector<uint64_t> w(v);
        AllocFaults(false);
        for (uint64_t x : w) SIM_CHECK(x == 3, "block-corrupted", "AlignedVector element %llu", (ull)x);
        break;
      }
      case 5: {
        hwy::AlignedAllocator<uint32_t> al;
        AllocFaults(true);
        AllocFailAt(nth);
        for (int i = 0; i < 3; ++i) {
          uint32_t* p = al.allocate(100u);
          // The Allocator requirements leave no room for null.
          SIM_CHECK(p != nullptr, "null-from-allocator", "AlignedAllocator::allocate returned null; containers write to it");
          p[99] = 1;
          al.deallocate(p, 100u);
        }
        AllocFaults(false);
        break;
      }
    }
  } catch (const std::bad_alloc&) {
    AllocFaults(false);
    failed = true;
    CheckEmpty(0, &arena, "std::bad_alloc");
  }
  AllocFaults(false);
  AllocFailAt(-1);
  (void)failed;
  CheckArena(arena);
  const void* addr;
  size_t size;
  const uint64_t live = HeapLiveSince(mark, &addr, &size);
  SIM_CHECK(live == 0, "leak", "%llu blocks were not freed, e.g. %zu bytes", (ull)live, size);
  SIM_CHECK(g_constructed == g_destroyed, "leak", "%llu objects constructed, %llu destroyed", (ull)g_constructed, (ull)g_destroyed);
}

// Objects which allocate in their constructors, while memory runs out: what was
// constructed before is destroyed, and the memory returned.
struct Owner {
  explicit Owner(uint32_t tag) : buf(new uint32_t[4 + tag % 60]), first(tag) {
    buf[0] = tag;
    ++g_constructed;
    ++alive;
  }
  Owner(const Owner&) = delete;
  ~Owner() {
    SIM_CHECK(buf != nullptr && buf[0] == first, "destroyed-twice", "object at %p destroyed but not alive", static_cast<void*>(this));
    buf.reset();
    ++g_destroyed;
    --alive;
  }
  std::unique_ptr<uint32_t[]> buf;
  uint32_t first;
  static int alive;
};
int Owner::alive;

SIM_SCENARIO(C10, failing_constructor, 2) {
  Setup();
  const uint64_t mark = HeapMark();
  Arena arena;
  Owner::alive = 0;
  const size_t items = 1 + Gen(6);
  const int nth = static_cast<int>(Gen(static_cast<uint32_t>(items) + 3));
  const uint32_t tag = Gen(1000), kind = Gen(4);
  Note("kind %u, %zu items, allocation %d fails", kind, items, nth);
  bool empty = false, failed = false;
  AllocFaults(true);
  AllocFailAt(nth);
  try {
    if (kind == 0) {
      auto a = hwy::MakeUniqueAligned<Owner>(tag);
      AllocFaults(false);
      empty = !a;
      if (a) SIM_CHECK(Owner::alive == 1 && a->first == tag, "wrong-count", "%d objects alive", Owner::alive);
    } else if (kind == 1) {
      auto a = hwy::MakeUniqueAlignedWithAlloc<Owner>(&ArenaAlloc, &ArenaFree, &arena, tag);
      AllocFaults(false);
      empty = !a;
      if (a) SIM_CHECK(Owner::alive == 1 && a->first == tag, "wrong-count", "%d objects alive", Owner::alive);
    } else {
      auto a = kind == 2 ? hwy::MakeUniqueAlignedArray<Owner>(items, tag)
                         : hwy::MakeUniqueAlignedArrayWithAlloc<Owner>(items, &ArenaAlloc, &ArenaFree, &arena, tag);
      AllocFaults(false);
      empty = !a;
      if (a) SIM_CHECK(Owner::alive == static_cast<int>(items) && a[items - 1].first == tag, "wrong-count", "%d objects alive, not %zu", Owner::alive, items);
    }
  } catch (const std::bad_alloc&) {
    failed = true;
    Probe("constructor failed");
  }
  AllocFaults(false);
  AllocFailAt(-1);
  if (empty || failed) CheckEmpty(0, &arena, "creating function");
  CheckArena(arena);
  SIM_CHECK(Owner::alive == 0 && g_constructed == g_destroyed, "leak", "%llu objects constructed, %llu destroyed", (ull)g_constructed, (ull)g_destroyed);
  const void* addr;
  size_t size;
  const uint64_t live = HeapLiveSince(mark, &addr, &size);
  SIM_CHECK(live == 0, "leak", "%llu blocks were not freed, e.g. %zu bytes", (ull)live, size);
}
