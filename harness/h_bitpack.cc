// C19: threads pack and unpack adjacent blocks of shared arrays.
#include <stdlib.h>
#include <string.h>

#include <utility>

#include "common.h"
#include "hwy/contrib/bit_pack/bit_pack-inl.h"
#include "hwy/highway.h"

using namespace sim;
typedef unsigned long long ull;

HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {

// What one thread does with each of its blocks, in this order.
struct PackJob {
  unsigned char *raw, *packed, *raw2;  // of this thread
  size_t blocks;
  uint64_t ref;
  bool unpack_at_once;
  bool frame;
};
struct Packer {
  int bits, type_bits;
  void (*run)(const PackJob& job);
};

template <typename T>
struct MoveBlock {  // sizes in elements
  template <class D>
  static size_t Raw(D d) { return sizeof(T) * 8 * Lanes(d); }
};

template <class PackT, typename T, size_t kBits>
HWY_ATTR HWY_NOINLINE void RunNarrow(const PackJob& j) {
  const ScalableTag<T> d;
  const size_t raw_n = MoveBlock<T>::Raw(d), packed_n = kBits * Lanes(d);
  const PackT func;
  T* raw = reinterpret_cast<T*>(j.raw);
  T* packed = reinterpret_cast<T*>(j.packed);
  T* raw2 = reinterpret_cast<T*>(j.raw2);
  for (size_t b = 0; b < j.blocks; ++b) {
    func.Pack(d, raw + b * raw_n, packed + b * packed_n);
    Yield();
    if (j.unpack_at_once) func.Unpack(d, packed + b * packed_n, raw2 + b * raw_n);
  }
  if (j.unpack_at_once) return;
  for (size_t b = 0; b < j.blocks; ++b) {
    func.Unpack(d, packed + b * packed_n, raw2 + b * raw_n);
    Yield();
  }
}
template <class PackT, typename T, size_t kBits>
HWY_ATTR HWY_NOINLINE void RunWide(const PackJob& j) {
  const ScalableTag<T> d;
  using D = ScalableTag<T>;
  const size_t raw_n = MoveBlock<T>::Raw(d), packed_n = kBits * Lanes(d);
  const PackT func;
  T* raw = reinterpret_cast<T*>(j.raw);
  T* packed = reinterpret_cast<T*>(j.packed);
  T* raw2 = reinterpret_cast<T*>(j.raw2);
  const T ref = static_cast<T>(j.ref);
  for (int pass = 0; pass < 2; ++pass) {
    for (size_t b = 0; b < j.blocks; ++b) {
      T* r = raw + b * raw_n;
      T* p = packed + b * packed_n;
      T* r2 = raw2 + b * raw_n;
      if (pass == 0) {
        if (j.frame) {
          func.template Pack<D, BlockPackingType::kFoRBitPacked>(d, r, p, ref);
        } else {
          func.Pack(d, r, p);
        }
        Yield();
      }
      if (pass == (j.unpack_at_once ? 0 : 1)) {
        if (j.frame) {
          func.template Unpack<D, BlockPackingType::kFoRBitPacked>(d, p, r2, ref);
        } else {
          func.Unpack(d, p, r2);
        }
        Yield();
      }
    }
  }
}

template <size_t... kBits>
const Packer* Table8(std::index_sequence<kBits...>) {
  static const Packer table[] = {{kBits + 1, 8, &RunNarrow<Pack8<kBits + 1>, uint8_t, kBits + 1>}...};
  return table;
}
template <size_t... kBits>
const Packer* Table16(std::index_sequence<kBits...>) {
  static const Packer table[] = {{kBits + 1, 16, &RunNarrow<Pack16<kBits + 1>, uint16_t, kBits + 1>}...};
  return table;
}
template <size_t... kBits>
const Packer* Table32(std::index_sequence<kBits...>) {
  static const Packer table[] = {{kBits + 1, 32, &RunWide<Pack32<kBits + 1>, uint32_t, kBits + 1>}...};
  return table;
}
template <size_t... kBits>
const Packer* Table64(std::index_sequence<kBits...>) {
  static const Packer table[] = {{kBits, 64, &RunWide<Pack64<kBits>, uint64_t, kBits>}...};
  return table;
}

inline uint64_t Mix(uint64_t x) {
  x *= 0x9E3779B97F4A7C15ull;
  x ^= x >> 29;
  x *= 0xBF58476D1CE4E5B9ull;
  return x ^ (x >> 32);
}

struct PackThread {
  const Packer* packer;
  PackJob job;
};
inline void PackMain(void* arg) {
  const PackThread* t = static_cast<const PackThread*>(arg);
  t->packer->run(t->job);
}

template <typename T>
void PackShared(const Packer* const* packers, int threads) {
  const size_t N = Lanes(ScalableTag<T>());
  static PackThread owners[6];
  size_t raw_total = 0, packed_total = 0, raw_at[6], packed_at[6];
  const uint64_t seed = Gen(1000);
  for (int t = 0; t < threads; ++t) {
    PackThread& o = owners[t];
    o.packer = packers[t];
    o.job.blocks = 1 + Gen(3);
    o.job.unpack_at_once = GenBool();
    o.job.frame = o.packer->type_bits >= 32 && GenBool();
    o.job.ref = o.job.frame ? Mix(seed + Gen(1000)) : 0;
    raw_at[t] = raw_total;
    packed_at[t] = packed_total;
    raw_total += o.job.blocks * sizeof(T) * 8 * N;
    packed_total += o.job.blocks * static_cast<size_t>(o.packer->bits) * N;
    Note("thread %d: %zu blocks of %d of %d bits%s", t + 1, o.job.blocks, o.packer->bits, o.packer->type_bits, o.job.frame ? ", frame of reference" : "");
  }
  T* raw = static_cast<T*>(malloc(raw_total * sizeof(T)));
  T* raw2 = static_cast<T*>(malloc(raw_total * sizeof(T)));
  T* copy = static_cast<T*>(malloc(raw_total * sizeof(T)));
  T* packed = static_cast<T*>(malloc(packed_total * sizeof(T)));
  for (int t = 0; t < threads; ++t) {
    PackThread& o = owners[t];
    o.job.raw = reinterpret_cast<unsigned char*>(raw + raw_at[t]);
    o.job.raw2 = reinterpret_cast<unsigned char*>(raw2 + raw_at[t]);
    o.job.packed = reinterpret_cast<unsigned char*>(packed + packed_at[t]);
    const size_t end = t + 1 == threads ? raw_total : raw_at[t + 1];
    const uint64_t mask = ~uint64_t{0} >> (64 - o.packer->bits);
    for (size_t i = raw_at[t]; i < end; ++i) copy[i] = raw[i] = static_cast<T>((Mix(seed + i) & mask) + o.job.ref);
  }
  int tids[6];
  for (int t = 0; t < threads; ++t) tids[t] = Spawn(&PackMain, &owners[t]);
  for (int t = 0; t < threads; ++t) Join(tids[t]);
  for (int t = 0; t < threads; ++t) {
    const size_t end = t + 1 == threads ? raw_total : raw_at[t + 1];
    for (size_t i = raw_at[t]; i < end; ++i) {
      SIM_CHECK(raw[i] == copy[i], "wrong-element", "packing changed its input %zu", i);
      SIM_CHECK(raw2[i] == copy[i], "wrong-element", "element %zu of thread %d (%d of %d bits%s): packed %llx, unpacked %llx", i - raw_at[t], t + 1,
                owners[t].packer->bits, owners[t].packer->type_bits, owners[t].job.frame ? ", frame of reference" : "", (ull)copy[i], (ull)raw2[i]);
    }
  }
  free(raw);
  free(raw2);
  free(copy);
  free(packed);
}

void PackAny() {
  const int threads = static_cast<int>(GenRange(2, 5));
  const Packer* p[6];
  const int type = static_cast<int>(Gen(4));
  constexpr size_t kNum64 = 16;
  for (int t = 0; t < threads; ++t) {
    switch (type) {
      case 0: p[t] = Table8(std::make_index_sequence<8>()) + Gen(8); break;
      case 1: p[t] = Table16(std::make_index_sequence<16>()) + Gen(16); break;
      case 2: p[t] = Table32(std::make_index_sequence<32>()) + Gen(32); break;
      default: p[t] = Table64(std::index_sequence<1, 2, 3, 5, 8, 13, 16, 17, 24, 31, 32, 33, 48, 57, 63, 64>()) + Gen(kNum64); break;
    }
  }
  switch (type) {
    case 0: return PackShared<uint8_t>(p, threads);
    case 1: return PackShared<uint16_t>(p, threads);
    case 2: return PackShared<uint32_t>(p, threads);
    default: return PackShared<uint64_t>(p, threads);
  }
}

}  // namespace HWY_NAMESPACE
}  // namespace hwy
HWY_AFTER_NAMESPACE();

SIM_SCENARIO(C19, bit_packing, 1) {
  CommonFaults();
  hwy::HWY_NAMESPACE::PackAny();
}
