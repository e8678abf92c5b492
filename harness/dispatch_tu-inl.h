// Body of a dispatching module; the includer defines TU_FILE (for
// foreach_target), TU_NS, TU_VAR and TU_NAME.
#include "dispatch_tu.h"
#include "hwy/foreach_target.h"  // IWYU pragma: keep
#include "hwy/highway.h"

HWY_BEFORE_NAMESPACE();
namespace TU_NS {
namespace HWY_NAMESPACE {
DispatchResult Plain(uint32_t a, uint64_t b, const void* self) {
  DispatchResult r;
  r.target = HWY_TARGET;
  r.mixed = b * 3 + a;
  r.self = self;
  return r;
}
void ByRef(uint32_t a, const uint64_t& b, int64_t& target, double* mixed) {
  target = HWY_TARGET;
  *mixed = static_cast<double>(a) + static_cast<double>(b & 0xFFFF);
}
int64_t Nullary() { return HWY_TARGET; }
template <typename T>
int64_t Templ(T a, uint64_t* b) {
  *b += static_cast<uint64_t>(a) + sizeof(T);
  return HWY_TARGET;
}
template <typename T>
void TemplOut(T a, uint64_t* b, int64_t& target) {
  *b += static_cast<uint64_t>(a);
  target = HWY_TARGET;
}
// NOLINTNEXTLINE(google-readability-namespace-comments)
}  // namespace HWY_NAMESPACE
}  // namespace TU_NS
HWY_AFTER_NAMESPACE();

#if HWY_ONCE
#include "rt.h"
namespace TU_NS {
HWY_EXPORT(Plain);
HWY_EXPORT(ByRef);
HWY_EXPORT(Nullary);

static int64_t CallPlain(uint32_t a, uint64_t b) {
  int local = 0;
  const auto r = HWY_DYNAMIC_DISPATCH(Plain)(a, b, &local);
  SIM_CHECK(r.mixed == b * 3 + a && r.self == &local, "wrong-arguments", "dispatched call returned wrong values");
  return r.target;
}
static int64_t CallByRef(uint32_t a, uint64_t b) {
  int64_t target = 0;
  double mixed = 0;
  HWY_DYNAMIC_DISPATCH(ByRef)(a, b, target, &mixed);
  SIM_CHECK(mixed == static_cast<double>(a) + static_cast<double>(b & 0xFFFF), "wrong-arguments", "reference arguments lost");
  return target;
}
static int64_t CallPointer(uint32_t, uint64_t) { return HWY_DYNAMIC_POINTER(Nullary)(); }

template <typename T>
static int64_t CallTempl(uint32_t a, uint64_t b) {
  HWY_EXPORT_T(Table, Templ<T>);
  uint64_t v = b;
  const T t = static_cast<T>(a & 0xFF);
  const int64_t target = HWY_DYNAMIC_DISPATCH_T(Table)(t, &v);
  SIM_CHECK(v == b + static_cast<uint64_t>(t) + sizeof(T), "wrong-arguments", "template arguments lost");
  return target;
}
template <typename T>
static int64_t CallCombined(uint32_t a, uint64_t b) {
  uint64_t v = b;
  int64_t target = 0;
  const T t = static_cast<T>(a & 0x7F);
  HWY_EXPORT_AND_DYNAMIC_DISPATCH_T(TemplOut<T>)(t, &v, target);
  SIM_CHECK(v == b + static_cast<uint64_t>(t), "wrong-arguments", "combined arguments lost");
  return target;
}

extern const DispatchTu TU_VAR;
const DispatchTu TU_VAR = {TU_NAME, HWY_TARGETS, HWY_STATIC_TARGET, &CallPlain, &CallByRef, &CallPointer,
                           &CallTempl<uint16_t>, &CallTempl<double>, &CallCombined<int8_t>};
}  // namespace TU_NS
#endif  // HWY_ONCE
