// C15: perf_counters. Not instrumented: a single thread, and the code under test is.
#include <errno.h>
#include <linux/perf_event.h>
#include <math.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/utsname.h>

#include "common.h"
#include "hwy/perf_counters.h"

using namespace sim;
using hwy::platform::PerfCounters;
typedef unsigned long long ull;

namespace {

// ------------------------------------------------------------- the kernel
constexpr int kFirstFd = 50, kMaxFd = 64;
struct Event {
  bool open;
  uint32_t type;
  uint64_t config;
  int leader;  // index of the group leader (maybe itself)
  int order;   // position within the group
  uint64_t count;
  uint64_t enabled_ns, running_ns;
  bool error_state;
};
struct Kernel {
  Event ev[kMaxFd];
  int num;            // descriptors handed out so far
  bool present;       // /proc file exists
  bool user_only;     // perf_event_paranoid: unprivileged users may not count kernel events
  uint32_t supported; // bit per PerfCounters::Counter
  int hw_per_group, llc_per_group;
  int max_fds;
  int group_errno;    // returned if a group is full
  int missing_errno;  // returned for unsupported events
  bool task_enabled;
  uint32_t share_pct[kMaxFd];  // how much of the time a group runs
  bool use_cycles;    // instead of ref-cycles
  char release[65], sysname[65], cpu[49];
  bool brand;
  int eintr_left;     // consecutive interruptions of the current call
  int trouble;        // disturbances of the current group read
  size_t read_pos;    // bytes of the current group read already delivered
  bool hard_failure;  // a read failed for good
  uint64_t opens, reads;
};
Kernel k;

struct Spec {
  PerfCounters::Counter c;
  uint32_t type;
  uint64_t config;
};
constexpr uint64_t Llc(uint64_t op) { return PERF_COUNT_HW_CACHE_LL | (op << 8) | (PERF_COUNT_HW_CACHE_RESULT_ACCESS << 16); }
const Spec kSpecs[] = {
    {PerfCounters::kRefCycles, PERF_TYPE_HARDWARE, PERF_COUNT_HW_REF_CPU_CYCLES},
    {PerfCounters::kInstructions, PERF_TYPE_HARDWARE, PERF_COUNT_HW_INSTRUCTIONS},
    {PerfCounters::kBranches, PERF_TYPE_HARDWARE, PERF_COUNT_HW_BRANCH_INSTRUCTIONS},
    {PerfCounters::kBranchMispredicts, PERF_TYPE_HARDWARE, PERF_COUNT_HW_BRANCH_MISSES},
    {PerfCounters::kBusCycles, PERF_TYPE_HARDWARE, PERF_COUNT_HW_BUS_CYCLES},
    {PerfCounters::kCacheRefs, PERF_TYPE_HARDWARE, PERF_COUNT_HW_CACHE_REFERENCES},
    {PerfCounters::kCacheMisses, PERF_TYPE_HARDWARE, PERF_COUNT_HW_CACHE_MISSES},
    {PerfCounters::kL3Loads, PERF_TYPE_HW_CACHE, Llc(PERF_COUNT_HW_CACHE_OP_READ)},
    {PerfCounters::kL3Stores, PERF_TYPE_HW_CACHE, Llc(PERF_COUNT_HW_CACHE_OP_WRITE)},
    {PerfCounters::kPageFaults, PERF_TYPE_SOFTWARE, PERF_COUNT_SW_PAGE_FAULTS},
    {PerfCounters::kMigrations, PERF_TYPE_SOFTWARE, PERF_COUNT_SW_CPU_MIGRATIONS},
};
constexpr int kNumSpecs = sizeof(kSpecs) / sizeof(kSpecs[0]);

uint64_t ConfigOf(int i) {
  if (kSpecs[i].c == PerfCounters::kRefCycles && k.use_cycles) return PERF_COUNT_HW_CPU_CYCLES;
  return kSpecs[i].config;
}
int SpecOf(uint32_t type, uint64_t config) {
  for (int i = 0; i < kNumSpecs; ++i)
    if (kSpecs[i].type == type && ConfigOf(i) == config) return i;
  return -1;
}

Event* Of(int fd) {
  if (fd < kFirstFd || fd >= kFirstFd + k.num) return nullptr;
  Event* e = &k.ev[fd - kFirstFd];
  return e->open ? e : nullptr;
}

bool OpenEvent(void* p, int pid, int cpu, int group, unsigned long flags, long* ret, int* err) {
  const perf_event_attr* a = static_cast<const perf_event_attr*>(p);
  SIM_CHECK(pid == 0 && cpu == -1, "wrong-open", "perf_event_open pid %d cpu %d", pid, cpu);
  (void)flags;
  ++k.opens;
  *ret = -1;
  // Interruptions: fewer than the number of retries.
  if (k.eintr_left == 0 && Fault(fEintrIo)) k.eintr_left = 1 + static_cast<int>(k.opens % 4);
  if (k.eintr_left > 0) {
    if (--k.eintr_left > 0) {
      *err = EINTR;
      return true;
    }
  }
  if (!k.present) {
    *err = ENOSYS;
    return true;
  }
  SIM_CHECK(a->size == sizeof(*a) || a->size == 0 || a->size >= 64, "wrong-open", "attr size %u", a->size);
  SIM_CHECK(!(a->inherit && (a->read_format & PERF_FORMAT_GROUP)), "wrong-open", "inherit with group format");
  constexpr uint64_t kFormat = PERF_FORMAT_TOTAL_TIME_ENABLED | PERF_FORMAT_TOTAL_TIME_RUNNING | PERF_FORMAT_GROUP;
  SIM_CHECK(a->read_format == kFormat, "wrong-open", "read_format %llx is not modelled", (ull)a->read_format);
  const int spec = SpecOf(a->type, a->config);
  if (spec < 0 || !(k.supported >> kSpecs[spec].c & 1)) {
    *err = k.missing_errno;
    return true;
  }
  if (k.user_only && !(a->exclude_kernel && a->exclude_hv)) {
    *err = EACCES;
    return true;
  }
  if (k.num >= k.max_fds) {
    *err = EMFILE;
    return true;
  }
  int leader = k.num;
  int order = 0;
  if (group != -1) {
    const Event* g = Of(group);
    SIM_CHECK(g, "closed-descriptor", "perf_event_open with group descriptor %d, which is not open", group);
    if (g->leader != group - kFirstFd) {
      *err = EINVAL;
      return true;
    }
    int hw = a->type != PERF_TYPE_SOFTWARE, llc = a->type == PERF_TYPE_HW_CACHE;
    for (int i = 0; i < k.num; ++i) {
      if (!k.ev[i].open || k.ev[i].leader != g->leader) continue;
      hw += k.ev[i].type != PERF_TYPE_SOFTWARE;
      llc += k.ev[i].type == PERF_TYPE_HW_CACHE;
      ++order;
    }
    if (hw > k.hw_per_group || llc > k.llc_per_group) {
      Probe("group full");
      *err = k.group_errno;
      return true;
    }
    leader = g->leader;
  }
  Event* e = &k.ev[k.num];
  *e = Event();
  e->open = true;
  e->type = a->type;
  e->config = a->config;
  e->leader = leader;
  e->order = order;
  *ret = kFirstFd + k.num++;
  return true;
}

// Lets the program run for a while.
void Run(uint64_t ns) {
  AdvanceNs(ns);
  for (int i = 0; i < k.num; ++i) {
    Event& e = k.ev[i];
    if (!e.open || !k.task_enabled) continue;
    const uint64_t run = ns * k.share_pct[e.leader] / 100;
    e.enabled_ns += ns;
    e.running_ns += run;
    e.count += run / 16 * static_cast<uint64_t>(i + 1) + Hash32(static_cast<uint32_t>(ns), static_cast<uint32_t>(i)) % 7 * (run != 0);
  }
}

bool ReadFd(int fd, void* buf, size_t n, long* ret, int* err) {
  if (fd < kFirstFd || fd >= kFirstFd + kMaxFd) return false;
  const Event* e = Of(fd);
  SIM_CHECK(e, "closed-descriptor", "read from descriptor %d, which is not open", fd);
  ++k.reads;
  *ret = -1;
  if (e->error_state) {
    k.hard_failure = true;
    *ret = 0;  // end of file
    return true;
  }
  if (uint64_t f = Fault(fSyscallFail, 4)) {
    if (f == 4) {
      k.ev[fd - kFirstFd].error_state = k.hard_failure = true;
      *ret = 0;
      return true;
    }
    const int errs[] = {EIO, ENODEV, EFAULT};
    *err = errs[f - 1];
    k.hard_failure = true;
    k.read_pos = 0;
    k.trouble = 0;
    return true;
  }
  if (k.trouble < 3 && Fault(fEintrIo)) {
    ++k.trouble;
    *err = EINTR;
    return true;
  }
  // The group record.
  uint64_t rec[3 + kMaxFd];
  size_t count = 0;
  for (int i = 0; i < k.num; ++i)
    if (k.ev[i].open && k.ev[i].leader == e->leader) rec[3 + static_cast<size_t>(k.ev[i].order)] = k.ev[i].count, ++count;
  rec[0] = count;
  rec[1] = e->enabled_ns;
  rec[2] = e->running_ns;
  const size_t size = 8 * (3 + count);
  if (k.read_pos == 0 && n < size) {
    *err = ENOSPC;
    k.hard_failure = true;
    return true;
  }
  size_t deliver = size - k.read_pos;
  if (deliver > n) deliver = n;
  if (k.trouble < 3 && deliver > 1) {
    if (uint64_t f = Fault(fShortIo, 8)) {
      ++k.trouble;
      deliver = 1 + (deliver - 1) * (f - 1) / 8;
      Probe("short read");
    }
  }
  memcpy(buf, reinterpret_cast<const char*>(rec) + k.read_pos, deliver);
  k.read_pos += deliver;
  if (k.read_pos >= size) {
    k.read_pos = 0;
    k.trouble = 0;
  }
  *ret = static_cast<long>(deliver);
  return true;
}

bool CloseFd(int fd, int* ret, int*) {
  if (fd < kFirstFd || fd >= kFirstFd + kMaxFd) return false;
  Event* e = Of(fd);
  SIM_CHECK(e, "closed-descriptor", "closed descriptor %d, which is not open", fd);
  e->open = false;
  *ret = 0;
  return true;
}

bool Ioctl(int fd, unsigned long req, void*, int* ret, int* err) {
  if (fd < kFirstFd || fd >= kFirstFd + kMaxFd) return false;
  Event* e = Of(fd);
  SIM_CHECK(e, "closed-descriptor", "ioctl on descriptor %d, which is not open", fd);
  if (req != PERF_EVENT_IOC_RESET) {
    *ret = -1;
    *err = EINVAL;
    return true;
  }
  e->count = 0;
  *ret = 0;
  return true;
}

bool Prctl(int op, int* ret, int*) {
  if (op != PR_TASK_PERF_EVENTS_ENABLE && op != PR_TASK_PERF_EVENTS_DISABLE) return false;
  k.task_enabled = op == PR_TASK_PERF_EVENTS_ENABLE;
  *ret = 0;
  return true;
}

bool Stat(const char* path, int* ret, int* err) {
  if (strcmp(path, "/proc/sys/kernel/perf_event_paranoid")) return false;
  *ret = k.present ? 0 : -1;
  *err = ENOENT;
  return true;
}

// Cannot fail with a valid buffer.
bool Uname(void* buf, int* ret, int*) {
  utsname* u = static_cast<utsname*>(buf);
  memset(u, 0, sizeof(*u));
  strncpy(u->sysname, k.sysname, sizeof(u->sysname) - 1);
  strncpy(u->release, k.release, sizeof(u->release) - 1);
  *ret = 0;
  return true;
}

bool Cpuid(uint32_t leaf, uint32_t, uint32_t* r) {
  if (leaf == 0x80000000u) {
    r[0] = k.brand ? 0x80000008u : 0x80000001u;
    r[1] = r[2] = r[3] = 0;
    return true;
  }
  if (leaf >= 0x80000002u && leaf <= 0x80000004u) {
    memcpy(r, k.cpu + 16 * (leaf - 0x80000002u), 16);
    return true;
  }
  return false;
}

void Boot(bool mostly_supported) {
  SetWeakMemory(false);
  SetStepBudget(1000000, 1000000);
  memset(&k, 0, sizeof(k));
  k.present = Gen(12) != 11;
  k.user_only = GenBool();
  k.task_enabled = true;  // events start enabled
  const int errs[] = {ENOENT, EOPNOTSUPP, EACCES, EINVAL, EPERM, ENODEV};
  k.missing_errno = errs[Gen(6)];
  const int gerrs[] = {EINVAL, ENOSPC, EOPNOTSUPP};
  k.group_errno = gerrs[Gen(3)];
  k.hw_per_group = 1 + static_cast<int>(Gen(9));
  k.llc_per_group = 1 + static_cast<int>(Gen(3));
  k.max_fds = Gen(6) == 5 ? static_cast<int>(Gen(12)) : kMaxFd;
  switch (Gen(mostly_supported ? 2 : 4)) {
    case 0: k.supported = 0x7FF; break;
    case 1: k.supported = 0x7FF & ~(1u << Gen(11)); break;
    case 2: k.supported = static_cast<uint32_t>(Gen(0x800)); break;
    default: {
      const uint32_t some[] = {0, 1u << PerfCounters::kPageFaults, (1u << PerfCounters::kPageFaults) | (1u << PerfCounters::kMigrations),
                               1u << PerfCounters::kMigrations, 1};
      k.supported = some[Gen(5)];
    }
  }
  for (auto& s : k.share_pct) s = 100;
  if (Gen(2))
    for (auto& s : k.share_pct) s = static_cast<uint32_t>(Gen(4) == 3 ? 0 : 1 + Gen(100));
  const char* releases[] = {"6.9.0", "6.8.12-generic", "5.15.0-91", "6.10", "7.0-rc1", "6.09.1", "4.19.0", "6", "", "x.y", "10.1.0", "6.90.1"};
  strcpy(k.release, releases[Gen(12)]);
  strcpy(k.sysname, Gen(5) == 4 ? "FreeBSD" : "Linux");
  const char* cpus[] = {"Intel(R) Xeon(R)", "AMD EPYC 9B14", "AMD Ryzen 9", "Fake AMD EPYC", "AMD EPY"};
  strcpy(k.cpu, cpus[Gen(5)]);
  k.brand = Gen(4) != 3;
  // Old kernels do not support ref-cycles on AMD EPYC.
  int major = 0, minor = 0;
  const bool parsed = sscanf(k.release, "%d.%d", &major, &minor) == 2;
  const bool old_kernel = parsed && !(major > 6 || (major == 6 && minor >= 9));
  k.use_cycles = !strcmp(k.sysname, "Linux") && old_kernel && k.brand && !strncmp(k.cpu, "AMD EPYC", 8);
  os.perf_event_open = &OpenEvent;
  os.read = &ReadFd;
  os.close = &CloseFd;
  os.ioctl = &Ioctl;
  os.prctl = &Prctl;
  os.stat = &Stat;
  os.uname = &Uname;
  cpu.cpuid = &Cpuid;
}

// Which descriptor counts `spec`, -1 if none.
int FdOf(int spec) {
  int found = -1;
  for (int i = 0; i < k.num; ++i) {
    if (!k.ev[i].open || SpecOf(k.ev[i].type, k.ev[i].config) != spec) continue;
    SIM_CHECK(found == -1, "leaked-descriptor", "counter %s was opened twice (descriptors %d and %d)",
              PerfCounters::Name(kSpecs[spec].c), found + kFirstFd, i + kFirstFd);
    found = i;
  }
  return found;
}
int NumOpen() {
  int n = 0;
  for (int i = 0; i < k.num; ++i) n += k.ev[i].open;
  return n;
}

void CheckInvalid(PerfCounters& p, const char* why) {
  SIM_CHECK(!p.AnyValid(), "invented-value", "counters are valid although %s", why);
  for (const Spec& s : kSpecs) {
    SIM_CHECK(!p.IsValid(s.c), "invented-value", "%s is valid although %s", PerfCounters::Name(s.c), why);
    SIM_CHECK(p.Get(s.c) == 0.0, "invented-value", "%s is %g although %s", PerfCounters::Name(s.c), p.Get(s.c), why);
  }
  int visits = 0;
  p.Foreach([&](double, PerfCounters::Counter) { ++visits; });
  SIM_CHECK(visits == 0, "wrong-visit", "Foreach visited %d counters although %s", visits, why);
}

// Reads and compares with the kernel's state. `initialized`: Init returned true.
void ReadAndCheck(bool initialized) {
  k.hard_failure = false;
  const uint64_t reads0 = k.reads;
  PerfCounters p;
  k.read_pos = 0;
  k.trouble = 0;
  if (!initialized) {
    CheckInvalid(p, "Init did not succeed");
    SIM_CHECK(k.reads == reads0, "wrong-read", "read without open counters");
    return;
  }
  bool never_ran = false;
  for (int i = 0; i < k.num; ++i)
    if (k.ev[i].open && k.ev[k.ev[i].leader].running_ns == 0) never_ran = true;
  if (k.hard_failure) {
    Probe("read failed");
    CheckInvalid(p, "reading failed");
    return;
  }
  if (never_ran) {
    // Not scheduled yet: whatever is reported as valid must have run.
    Probe("group not scheduled");
    for (int i = 0; i < kNumSpecs; ++i) {
      const int fd = FdOf(i);
      SIM_CHECK(!p.IsValid(kSpecs[i].c) || (fd >= 0 && k.ev[k.ev[fd].leader].running_ns != 0), "invented-value",
                "%s is valid but was never scheduled", PerfCounters::Name(kSpecs[i].c));
    }
    if (!p.AnyValid()) return;
  } else {
    SIM_CHECK(p.AnyValid(), "lost-value", "nothing valid although every read succeeded");
  }
  double max_extrapolate = 0;
  int prev = -1, visits = 0;
  for (int i = 0; i < kNumSpecs; ++i) {
    const int fd = FdOf(i);
    const char* name = PerfCounters::Name(kSpecs[i].c);
    if (!never_ran)
      SIM_CHECK(p.IsValid(kSpecs[i].c) == (fd >= 0), "wrong-validity", "%s is %svalid but was %sopened", name,
                p.IsValid(kSpecs[i].c) ? "" : "not ", fd >= 0 ? "" : "not ");
    if (!p.IsValid(kSpecs[i].c)) {
      SIM_CHECK(p.Get(kSpecs[i].c) == 0.0, "invented-value", "%s is invalid but %g", name, p.Get(kSpecs[i].c));
      continue;
    }
    const Event& e = k.ev[fd];
    const Event& g = k.ev[e.leader];
    const double factor = static_cast<double>(g.enabled_ns) / static_cast<double>(g.running_ns);
    const double want = static_cast<double>(e.count) * factor, got = p.Get(kSpecs[i].c);
    SIM_CHECK(fabs(got - want) <= want * 1E-9, "wrong-value", "%s is %.3f, the kernel counted %llu in %llu of %llu ns", name, got,
              (ull)e.count, (ull)g.running_ns, (ull)g.enabled_ns);
    if (factor > max_extrapolate) max_extrapolate = factor;
  }
  if (!never_ran)
    SIM_CHECK(fabs(p.MaxExtrapolate() - max_extrapolate) <= max_extrapolate * 1E-9, "wrong-extrapolate", "MaxExtrapolate is %g, expected %g",
              p.MaxExtrapolate(), max_extrapolate);
  p.Foreach([&](double value, PerfCounters::Counter c) {
    SIM_CHECK(static_cast<int>(c) > prev, "wrong-visit", "Foreach visited %d after %d", static_cast<int>(c), prev);
    prev = static_cast<int>(c);
    SIM_CHECK(p.IsValid(c), "wrong-visit", "Foreach visited %s, which is not valid", PerfCounters::Name(c));
    SIM_CHECK(value == p.Get(c), "wrong-visit", "Foreach passed %g for %s, Get returns %g", value, PerfCounters::Name(c), p.Get(c));
    ++visits;
  });
  int valid = 0;
  for (const Spec& s : kSpecs) valid += p.IsValid(s.c);
  SIM_CHECK(visits == valid, "wrong-visit", "Foreach visited %d of %d valid counters", visits, valid);
}

void CheckOpened() {
  // Every supported event that fits is counted, by one descriptor.
  for (int i = 0; i < kNumSpecs; ++i) {
    const int fd = FdOf(i);
    const bool expect = k.present && (k.supported >> kSpecs[i].c & 1) && k.max_fds == kMaxFd;
    if (expect) SIM_CHECK(fd >= 0, "lost-event", "%s is available but was not opened", PerfCounters::Name(kSpecs[i].c));
  }
}

}  // namespace

SIM_SCENARIO(C15, history, 1) {
  Boot(Gen(2) == 0);
  EnableFault(fEintrIo, 150000);
  EnableFault(fShortIo, 150000);
  if (GenBool()) EnableFault(fSyscallFail, 100000);
  bool initialized = false;
  const int ops = 1 + static_cast<int>(Gen(30));
  for (int i = 0; i < ops; ++i) {
    switch (i == 0 ? 0 : Gen(8)) {
      case 0:
      case 1: {
        if (i == 0 && Gen(4) == 3) break;
        const int before = k.num;
        const bool ok = PerfCounters::Init();
        SIM_CHECK(ok == (NumOpen() != 0), "wrong-init", "Init returned %d with %d events open", ok, NumOpen());
        if (initialized) SIM_CHECK(k.num == before, "leaked-descriptor", "second Init opened %d more descriptors", k.num - before);
        if (!initialized && ok) {
          SIM_CHECK(!k.task_enabled, "not-stopped", "counters are running after Init");
          for (int e = 0; e < k.num; ++e) SIM_CHECK(!k.ev[e].open || k.ev[e].count == 0, "not-stopped", "descriptor %d not reset by Init", e);
        }
        CheckOpened();
        initialized = ok;
        break;
      }
      case 2: {
        const bool ok = PerfCounters::StartAll();
        SIM_CHECK(ok == initialized, "wrong-start", "StartAll returned %d, counters are %savailable", ok, initialized ? "" : "not ");
        if (ok) SIM_CHECK(k.task_enabled, "not-started", "StartAll did not enable the counters");
        break;
      }
      case 3:
        PerfCounters::StopAllAndReset();
        SIM_CHECK(!k.task_enabled, "not-stopped", "counters are running after StopAllAndReset");
        for (int e = 0; e < k.num; ++e)
          SIM_CHECK(!k.ev[e].open || k.ev[e].count == 0, "not-stopped", "descriptor %d not reset", e + kFirstFd);
        break;
      case 4:
      case 5: Run(1 + Gen(1u << Gen(31))); break;
      default: ReadAndCheck(initialized);
    }
  }
  ReadAndCheck(initialized);
  for (int i = 0; i < k.num; ++i)
    if (k.ev[i].open) SIM_CHECK(SpecOf(k.ev[i].type, k.ev[i].config) >= 0, "wrong-open", "descriptor %d counts an unknown event", i);
}
