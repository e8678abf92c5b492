// Simulated x86 CPUs and, independently of targets.cc, the set of targets each
// of them can run. NOT instrumented.
#ifndef HWYSIM_CPU_MODEL_H_
#define HWYSIM_CPU_MODEL_H_
#include <stdint.h>
// Draws a CPU (features, vendor, maximum leaf) and an OS (XSAVE, XCR0) and
// installs it. Returns the expected HWY_* target bits (without EMU128/SCALAR).
int64_t ChooseCpuModel();
const char* CpuModelName();
#endif
