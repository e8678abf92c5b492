// C08: dynamic dispatch. Compiled like an application: dynamic targets.
#include <vector>

#include "common.h"
#include "cpu_model.h"
#include "dispatch_tu.h"
#include "hwy/per_target.h"
#include "hwy/targets.h"

namespace dispatch_a17 { extern const DispatchTu kTuA17; }
namespace dispatch_b17 { extern const DispatchTu kTuB17; }
namespace dispatch_c14 { extern const DispatchTu kTuC14; }
namespace dispatch_d14 { extern const DispatchTu kTuD14; }

using namespace sim;
typedef unsigned long long ull;

namespace {

const DispatchTu* const kTus[] = {&dispatch_a17::kTuA17, &dispatch_b17::kTuB17, &dispatch_c14::kTuC14, &dispatch_d14::kTuD14};
constexpr int64_t kFallbacks = HWY_EMU128 | HWY_SCALAR;

// Configuration in force; only changed while no other thread runs.
int64_t g_detected, g_mock, g_disabled;
bool g_deinit;  // some client calls DeInit in this phase

int64_t ExpectSupported() {
  int64_t s = (g_mock ? g_mock : (g_detected | kFallbacks)) & ~g_disabled;
  return s ? s : HWY_STATIC_TARGET;
}

void CheckRan(const DispatchTu* tu, const char* form, int64_t ran) {
  const int64_t usable = ExpectSupported() & tu->compiled & ~kFallbacks;
  if (usable != 0) {
    const int64_t best = usable & -usable;
    SIM_CHECK(ran == best, "wrong-target",
              "%s: dispatched call (%s) ran %s; best supported and enabled is %s (supported %llx, disabled %llx, mock %llx, %s)", tu->name,
              form, hwy::TargetName(ran), hwy::TargetName(best), (ull)g_detected, (ull)g_disabled, (ull)g_mock, CpuModelName());
  } else {
    // Nothing else left: the fallback or the static target.
    SIM_CHECK(ran == tu->static_target || (ran & kFallbacks & tu->compiled), "wrong-target",
              "%s: dispatched call (%s) ran %s although only the fallback is enabled", tu->name, form, hwy::TargetName(ran));
    Probe("fallback target ran");
  }
}

size_t BytesOf(int64_t target) {
  if (target & (HWY_SSE2 | HWY_SSSE3 | HWY_SSE4 | HWY_EMU128)) return 16;
  if (target & (HWY_AVX2 | HWY_AVX10_2)) return 32;
  return 64;
}

void CheckPerTarget() {
  const int64_t s = ExpectSupported();
  const int64_t t = hwy::DispatchedTarget();
  // Dispatches in another module (per_target.cc) which compiles what our first
  // module does.
  CheckRan(kTus[0], "DispatchedTarget", t);
  (void)s;
}

// One operation of a client thread, by number.
void ClientOp(uint32_t op, uint32_t a) {
  const DispatchTu* tu = kTus[Hash32(a, 11) % 4];
  const uint64_t b = (uint64_t{a} << 32) ^ 0x1234567;
  switch (op) {
    case 0: CheckRan(tu, "HWY_DYNAMIC_DISPATCH", tu->plain(a, b)); break;
    case 1: CheckRan(tu, "HWY_DYNAMIC_DISPATCH by reference", tu->by_ref(a, b)); break;
    case 2: CheckRan(tu, "HWY_DYNAMIC_POINTER", tu->pointer(a, b)); break;
    case 3: CheckRan(tu, "HWY_DYNAMIC_DISPATCH_T<u16>", tu->templ_u16(a, b)); break;
    case 4: CheckRan(tu, "HWY_DYNAMIC_DISPATCH_T<double>", tu->templ_f64(a, b)); break;
    case 5: CheckRan(tu, "HWY_EXPORT_AND_DYNAMIC_DISPATCH_T", tu->combined(a, b)); break;
    case 6: {
      const int64_t s = hwy::SupportedTargets();
      SIM_CHECK(s == ExpectSupported(), "wrong-supported",
                "SupportedTargets() = %llx, expected %llx (detected %llx, disabled %llx, mock %llx, %s)", (ull)s, (ull)ExpectSupported(),
                (ull)g_detected, (ull)g_disabled, (ull)g_mock, CpuModelName());
      break;
    }
    case 7: CheckPerTarget(); break;
    case 8: {
      const int64_t best = hwy::DispatchedTarget();
      const size_t bytes = hwy::VectorBytes();
      SIM_CHECK(bytes == BytesOf(best), "wrong-target", "VectorBytes() = %zu with %s", bytes, hwy::TargetName(best));
      (void)hwy::HaveFloat16();
      SIM_CHECK(hwy::HaveInteger64() && hwy::HaveFloat64(), "wrong-target", "Have* is false");
      break;
    }
    case 9: {
      int64_t all = 0;
      for (int64_t t : hwy::SupportedAndGeneratedTargets()) {
        SIM_CHECK(t != 0 && (t & (t - 1)) == 0 && !(all & t), "wrong-supported", "SupportedAndGeneratedTargets lists %llx", (ull)t);
        all |= t;
      }
      SIM_CHECK(all == (ExpectSupported() & HWY_TARGETS), "wrong-supported", "SupportedAndGeneratedTargets: %llx, expected %llx", (ull)all,
                (ull)(ExpectSupported() & HWY_TARGETS));
      break;
    }
    case 10:  // documented way to initialise up front
      hwy::GetChosenTarget().Update(hwy::SupportedTargets());
      SIM_CHECK(g_deinit || hwy::GetChosenTarget().IsInitialized(), "not-initialised", "IsInitialized() false after Update");
      break;
    case 11:  // documented way to re-detect
      hwy::GetChosenTarget().DeInit();
      break;
    default: (void)hwy::GetChosenTarget().IsInitialized(); break;
  }
}

struct Client {
  uint32_t seed, ops;
  bool deinit;
};
void ClientMain(void* arg) {
  const Client* c = static_cast<const Client*>(arg);
  for (uint32_t i = 0; i < c->ops; ++i) {
    uint32_t op = Hash32(c->seed, i * 2) % 13;
    if (op == 11 && !c->deinit) op = 0;
    ClientOp(op, Hash32(c->seed, i * 2 + 1));
  }
}

void Phase(uint32_t max_threads) {
  const uint32_t n = static_cast<uint32_t>(Gen(max_threads));
  std::vector<Client> clients(n + 1);
  std::vector<int> tids;
  const bool deinit = Gen(4) == 3;
  g_deinit = deinit;
  for (Client& c : clients) {
    c.seed = static_cast<uint32_t>(Gen(1u << 20));
    c.ops = 1 + static_cast<uint32_t>(Gen(6));
    c.deinit = deinit;
  }
  for (uint32_t i = 1; i <= n; ++i) tids.push_back(Spawn(&ClientMain, &clients[i]));
  ClientMain(&clients[0]);
  for (int t : tids) Join(t);
}

int64_t PickMask() {
  const int64_t all = HWY_AVX10_2_512 | HWY_AVX3_SPR | HWY_AVX10_2 | HWY_AVX3_ZEN4 | HWY_AVX3_DL | HWY_AVX3 | HWY_AVX2 | HWY_SSE4 |
                      HWY_SSSE3 | HWY_SSE2 | kFallbacks;
  switch (Gen(6)) {
    case 0: return 0;
    case 1: {  // best of what is there
      const int64_t s = ExpectSupported();
      return s & -s;
    }
    case 2: return HWY_AVX2 | (HWY_AVX2 - 1);
    case 3: return ~int64_t{0};
    case 4: return all & ~kFallbacks;
    default: {
      int64_t m = 0;
      for (int64_t bit = 1; bit <= HWY_SSE2; bit <<= 1)
        if ((all & bit) && GenBool()) m |= bit;
      return m;
    }
  }
}

void CommonSetup() {
  EnableFault(fLateStart, 400000);
  EnableFault(fStall, 800000);
  SetStepBudget(20000, 200000);
  g_detected = ChooseCpuModel();
  g_mock = g_disabled = 0;
}

}  // namespace

// First use of the library by several threads at once.
SIM_SCENARIO(C08, first_use, 3) {
  CommonSetup();
  if (Gen(3) == 2) {
    g_disabled = PickMask();
    hwy::DisableTargets(g_disabled);
  }
  SIM_CHECK(!hwy::GetChosenTarget().IsInitialized(), "not-initialised", "IsInitialized() before any dispatch");
  Phase(6);
}

// Histories of disabling, overriding, querying and dispatching.
SIM_SCENARIO(C08, history, 5) {
  CommonSetup();
  const int phases = static_cast<int>(1 + Gen(8));
  for (int i = 0; i < phases; ++i) {
    switch (Gen(5)) {
      case 0: break;
      case 1:
      case 2:
        g_disabled = PickMask();
        hwy::DisableTargets(g_disabled);
        SIM_CHECK(!hwy::GetChosenTarget().IsInitialized(), "not-initialised", "DisableTargets did not reset the chosen target");
        break;
      case 3:
        g_mock = PickMask();
        if (g_mock < 0) g_mock = 0;
        hwy::SetSupportedTargetsForTest(g_mock);
        SIM_CHECK(!hwy::GetChosenTarget().IsInitialized(), "not-initialised", "SetSupportedTargetsForTest did not reset");
        break;
      case 4:
        g_mock = 0;
        hwy::SetSupportedTargetsForTest(0);
        break;
    }
    Phase(5);
  }
}
