// Shared by the instrumented harnesses.
#ifndef HWYSIM_COMMON_H_
#define HWYSIM_COMMON_H_
#include "oracle.h"
#include "rt.h"

// Faults every multi-threaded run can meet.
void CommonFaults();
// Chooses which user-mode monitor the simulated CPU has: 0 none, 1 AMD
// MONITORX, 2 Intel WAITPKG.
int ChooseSpinCpu();
#endif
