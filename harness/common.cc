// NOT instrumented.
#include "common.h"

#include <string.h>

using namespace sim;

// 0: only PAUSE, 1: AMD with MONITORX, 2: UMONITOR. Everything else that a CPU
// reports does not matter.
static struct {
  int kind;
  bool amd;
  uint32_t other;  // unrelated features
} g_spin_cpu;

static bool SpinCpuid(uint32_t leaf, uint32_t sub, uint32_t* r) {
  if (leaf == 0) {
    r[0] = g_spin_cpu.kind == 0 && (g_spin_cpu.other & 1) ? 0x6 : 0x10;
    memcpy(&r[1], g_spin_cpu.amd ? "Auth" : "Genu", 4);
    memcpy(&r[3], g_spin_cpu.amd ? "enti" : "ineI", 4);
    memcpy(&r[2], g_spin_cpu.amd ? "cAMD" : "ntel", 4);
    return true;
  }
  const uint32_t other = g_spin_cpu.other * 2654435761u;
  if (leaf == 0x80000001u) {
    r[0] = other;
    r[1] = other >> 3;
    r[2] = (other & ~(1u << 29)) | (g_spin_cpu.kind == 1 ? 1u << 29 : 0);
    r[3] = (1u << 27) | (other & 1u << 29);
    return true;
  }
  if (leaf == 7 && sub == 0) {
    // Beyond the maximum level: the contents of another leaf.
    const bool unsupported = g_spin_cpu.kind == 0 && (g_spin_cpu.other & 1);
    r[0] = unsupported ? other : other & 1;
    r[1] = (1u << 3) | (1u << 5) | (1u << 8);
    r[2] = ((other >> 4) & ~(1u << 5)) | (g_spin_cpu.kind == 2 || unsupported ? 1u << 5 : 0);
    r[3] = other >> 5;
    return true;
  }
  return false;
}

int ChooseSpinCpu() {
  g_spin_cpu.kind = static_cast<int>(Gen(3));
  const uint32_t u = static_cast<uint32_t>(Gen(64));
  g_spin_cpu.amd = g_spin_cpu.kind == 1 || (g_spin_cpu.kind == 0 && (u & 1));
  g_spin_cpu.other = u >> 1;
  cpu.cpuid = &SpinCpuid;
  return g_spin_cpu.kind;
}

void CommonFaults() {
  EnableFault(fLateStart, 400000);
  EnableFault(fStall, 600000);
  EnableFault(fFutexEintr, 300000);
  EnableFault(fFutexSpurious, 300000);
  EnableFault(fMonitorSpurious, 200000);
  EnableFault(fSleepEintr, 300000);
  EnableFault(fClockJump, 30000);
}
