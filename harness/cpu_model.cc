#include "cpu_model.h"

#include <string.h>

#include "rt.h"

using namespace sim;

namespace {

// Features, with their CPUID position.
struct Feature {
  const char* name;
  uint32_t leaf, sub;
  int reg;  // 0 = eax ...
  int bit;
};
enum : uint32_t {
  F_SSE, F_SSE2, F_SSE3, F_CLMUL, F_SSSE3, F_FMA, F_SSE41, F_SSE42, F_AES, F_XSAVE, F_OSXSAVE, F_AVX, F_F16C,
  F_LZCNT, F_BMI, F_AVX2, F_BMI2, F_512F, F_512DQ, F_512CD, F_512BW, F_512VL, F_VBMI, F_VBMI2, F_GFNI, F_VAES,
  F_VPCLMUL, F_VNNI, F_BITALG, F_POPCNTDQ, F_FP16, F_BF16, F_AVX10, F_APX, F_NUM
};
const Feature kF[F_NUM] = {
    {"SSE", 1, 0, 3, 25},       {"SSE2", 1, 0, 3, 26},     {"SSE3", 1, 0, 2, 0},      {"PCLMUL", 1, 0, 2, 1},
    {"SSSE3", 1, 0, 2, 9},      {"FMA", 1, 0, 2, 12},      {"SSE4.1", 1, 0, 2, 19},   {"SSE4.2", 1, 0, 2, 20},
    {"AES", 1, 0, 2, 25},       {"XSAVE", 1, 0, 2, 26},    {"OSXSAVE", 1, 0, 2, 27},  {"AVX", 1, 0, 2, 28},
    {"F16C", 1, 0, 2, 29},      {"LZCNT", 0x80000001u, 0, 2, 5}, {"BMI", 7, 0, 1, 3}, {"AVX2", 7, 0, 1, 5},
    {"BMI2", 7, 0, 1, 8},       {"512F", 7, 0, 1, 16},     {"512DQ", 7, 0, 1, 17},    {"512CD", 7, 0, 1, 28},
    {"512BW", 7, 0, 1, 30},     {"512VL", 7, 0, 1, 31},    {"VBMI", 7, 0, 2, 1},      {"VBMI2", 7, 0, 2, 6},
    {"GFNI", 7, 0, 2, 8},       {"VAES", 7, 0, 2, 9},      {"VPCLMUL", 7, 0, 2, 10},  {"VNNI", 7, 0, 2, 11},
    {"BITALG", 7, 0, 2, 12},    {"POPCNTDQ", 7, 0, 2, 14}, {"FP16", 7, 0, 3, 23},     {"BF16", 7, 1, 0, 5},
    {"AVX10", 7, 1, 3, 19},     {"APX", 7, 1, 3, 21}};

bool g_has[F_NUM];
uint32_t g_max_level, g_avx10_ver;
bool g_avx10_512, g_amd;
char g_name[600];

uint32_t Reg(uint32_t leaf, uint32_t sub, int reg) {
  uint32_t v = 0;
  for (uint32_t i = 0; i < F_NUM; ++i)
    if (kF[i].leaf == leaf && kF[i].sub == sub && kF[i].reg == reg && g_has[i]) v |= 1u << kF[i].bit;
  return v;
}

bool Cpuid(uint32_t leaf, uint32_t sub, uint32_t* r) {
  // Basic leaves beyond the maximum return the data of the highest one.
  if (leaf < 0x80000000u && leaf > g_max_level) {
    leaf = 1;
    sub = 0;
  }
  r[0] = r[1] = r[2] = r[3] = 0;
  switch (leaf) {
    case 0: {
      r[0] = g_max_level;
      const char* v = g_amd ? "AuthenticAMD" : "GenuineIntel";
      memcpy(&r[1], v, 4);
      memcpy(&r[3], v + 4, 4);
      memcpy(&r[2], v + 8, 4);
      return true;
    }
    case 1:
    case 7:
      for (int i = 0; i < 4; ++i) r[i] = sub <= 1 ? Reg(leaf, sub, i) : 0;
      if (leaf == 1) {
        r[0] = 0x000806F8;
        r[1] = 0xFFFFFFFFu;  // APIC ids etc.: must be ignored
      }
      if (leaf == 7 && sub == 0) r[0] = 1;
      return true;
    case 0x24:
      r[1] = g_avx10_ver | (1u << 16) | (1u << 17) | (g_avx10_512 ? 1u << 18 : 0);
      return true;
    case 0x80000001u:
      for (int i = 0; i < 4; ++i) r[i] = Reg(leaf, 0, i);
      r[3] |= (1u << 27) | (1u << 29);
      return true;
    default:
      return false;
  }
}

void Add(const uint32_t* f, size_t n) {
  for (size_t i = 0; i < n; ++i) g_has[f[i]] = true;
}
bool All(const uint32_t* f, size_t n) {
  for (size_t i = 0; i < n; ++i)
    if (!g_has[f[i]]) return false;
  return true;
}

const uint32_t kSSE2[] = {F_SSE, F_SSE2};
const uint32_t kSSSE3[] = {F_SSE3, F_SSSE3};
const uint32_t kSSE4[] = {F_SSE41, F_SSE42, F_CLMUL, F_AES};
const uint32_t kAVX2[] = {F_AVX, F_AVX2, F_LZCNT, F_BMI, F_BMI2, F_FMA, F_F16C};
const uint32_t kAVX3[] = {F_512F, F_512VL, F_512DQ, F_512BW, F_512CD};
const uint32_t kDL[] = {F_VNNI, F_VPCLMUL, F_VBMI, F_VBMI2, F_VAES, F_POPCNTDQ, F_BITALG, F_GFNI};
const uint32_t kBF16[] = {F_BF16};
const uint32_t kFP16[] = {F_FP16};
const uint32_t kAVX10[] = {F_AVX10, F_APX, F_VPCLMUL, F_VAES, F_GFNI};
#define ALL(x) All(x, sizeof(x) / sizeof(x[0]))
#define ADD(x) Add(x, sizeof(x) / sizeof(x[0]))

// Target bits as published in detect_targets.h.
constexpr int64_t T_AVX10_2_512 = 1 << 3, T_SPR = 1 << 4, T_AVX10_2 = 1 << 5, T_ZEN4 = 1 << 6, T_DL = 1 << 7,
                  T_AVX3 = 1 << 8, T_AVX2 = 1 << 9, T_SSE4 = 1 << 11, T_SSSE3 = 1 << 12, T_SSE2 = 1 << 14;

}  // namespace

const char* CpuModelName() { return g_name; }

int64_t ChooseCpuModel() {
  memset(g_has, 0, sizeof(g_has));
  static const char* kNames[] = {"SSE2", "SSSE3", "SSE4", "AVX2", "AVX3", "AVX3_DL", "ZEN4-class", "SPR-class", "AVX10"};
  int level = static_cast<int>(Gen(9));
  ADD(kSSE2);
  g_has[F_XSAVE] = g_has[F_OSXSAVE] = true;
  if (level >= 1) ADD(kSSSE3);
  if (level >= 2) ADD(kSSE4);
  if (level >= 3) ADD(kAVX2);
  const bool avx10_only = level == 8 && Gen(3) == 0;  // no legacy AVX-512 flags
  if (level >= 4 && !avx10_only) ADD(kAVX3);
  if (level >= 5 && !avx10_only) ADD(kDL);
  if (level >= 6 && !avx10_only) ADD(kBF16);
  if (level >= 7 && !avx10_only) ADD(kFP16);
  if (level == 8) ADD(kAVX10);
  g_amd = Gen(3) == 1;
  // Leaf 7 may be the last (also if limited by a hypervisor), or not exist.
  const uint32_t kOld[] = {5, 6, 0xA, 0x16}, kNew[] = {0x16, 7, 0xB, 0xD, 0x1F, 0x20}, kAvx10Levels[] = {0x24, 0x24, 0x29};
  g_max_level = level >= 8 ? kAvx10Levels[Gen(3)] : level >= 3 ? kNew[Gen(6)] : kOld[Gen(4)];
  const uint32_t kVersions[] = {1, 2, 2, 1, 3, 4, 255};
  g_avx10_ver = kVersions[Gen(7)];
  g_avx10_512 = Gen(3) != 1;
  uint32_t x = 0xE7;
  char dropped[200] = "";
  // Odd machines: hypervisors masking features, old or minimal OSes.
  switch (Gen(6)) {
    case 0:
    case 1: break;
    case 2:  // one to three features missing
      for (uint64_t n = 1 + Gen(3); n != 0; --n) {
        const uint32_t f = 2 + static_cast<uint32_t>(Gen(F_NUM - 2));
        if (!g_has[f]) continue;
        g_has[f] = false;
        strcat(dropped, " -");
        strcat(dropped, kF[f].name);
      }
      break;
    case 3: {  // OS manages only part of the state
      const uint32_t xs[] = {0x7, 0x3, 0x1, 0x5, 0x27, 0x67, 0xC7, 0xA7, 0xE5, 0xE3, 0};
      x = xs[Gen(11)];
      break;
    }
    case 4:
      g_has[F_OSXSAVE] = false;
      if (GenBool()) g_has[F_XSAVE] = false;
      x = GenBool() ? 0 : 0xE7;
      break;
    case 5:  // arbitrary subset
      for (uint32_t f = 2; f < F_NUM; ++f)
        if (g_has[f] && Gen(24) == 23) {
          g_has[f] = false;
          if (strlen(dropped) < 150) {
            strcat(dropped, " -");
            strcat(dropped, kF[f].name);
          }
        }
      if (Gen(4) == 3) x = static_cast<uint32_t>(Gen(256));
      break;
  }
  cpu.cpuid = &Cpuid;
  cpu.xcr0 = x;

  // What such a machine can run.
  const bool leaf7 = g_max_level >= 7;
  const bool xsave = g_has[F_XSAVE] && g_has[F_OSXSAVE];
  const bool ymm = xsave && (x & 6) == 6;
  const bool zmm = ymm && (x & 0xE0) == 0xE0;
  int64_t t = T_SSE2;
  const bool ssse3 = ALL(kSSE2) && ALL(kSSSE3);
  const bool sse4 = ssse3 && ALL(kSSE4);
  const bool avx2 = sse4 && ALL(kAVX2) && leaf7;
  const bool avx3 = avx2 && ALL(kAVX3);
  const bool dl = avx3 && ALL(kDL);
  const bool zen4 = dl && ALL(kBF16);
  const bool spr = zen4 && ALL(kFP16);
  const bool avx10 = avx2 && ALL(kAVX10);
  const bool avx10_zmm = avx10 && g_avx10_512;
  const bool avx10_2 = avx10 && g_avx10_ver >= 2;
  if (ssse3) t |= T_SSSE3;
  if (sse4) t |= T_SSE4;
  if (avx2 && ymm) t |= T_AVX2;
  // EVEX-encoded instructions need opmask, ZMM_Hi256 and Hi16_ZMM state.
  if ((avx3 || avx10_zmm) && zmm) t |= T_AVX3;
  if ((dl || avx10_zmm) && zmm) t |= T_DL;
  if ((spr || avx10_zmm) && zmm) t |= T_SPR;
  if (zen4 && zmm && g_amd) t |= T_ZEN4;
  if (avx10_2 && zmm) t |= T_AVX10_2;
  if (avx10_2 && g_avx10_512 && zmm) t |= T_AVX10_2_512;
  char* p = g_name;
  *p = 0;
  strcat(p, g_amd ? "AMD " : "Intel ");
  strcat(p, kNames[level]);
  strcat(p, dropped);
  if (avx10_only) strcat(p, " (no legacy AVX-512 flags)");
  if (x != 0xE7) strcat(p, " partial XCR0");
  if (!xsave) strcat(p, " no XSAVE");
  if (!leaf7) strcat(p, " no leaf 7");
  Note("CPU: %s, xcr0 %x, targets %llx", g_name, x, static_cast<unsigned long long>(t));
  if (avx10) Probe("AVX10 CPU");
  if (!zmm && (avx3 || avx10)) Probe("AVX-512 CPU without ZMM state");
  if (t == T_SSE2) Probe("baseline-only CPU");
  return t;
}
