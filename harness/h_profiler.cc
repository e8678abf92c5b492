// C12: profiler.h.
#define PROFILER_ENABLED 1
#define PROFILER_THREAD_STORAGE 1  // MiB, i.e. 65536 zones
#include "hwy/profiler.h"

#include <stdio.h>
#include <string.h>

#include "common.h"
#include "profiler_zones.h"

using namespace sim;
typedef unsigned long long ull;

namespace {

void Alpha(ZoneBody body, void* arg) {
  PROFILER_ZONE("alpha");
  body(arg);
}
void Beta(ZoneBody body, void* arg) {
  PROFILER_ZONE("beta: a / b = 1 x 2");
  body(arg);
}
void Suffix(ZoneBody body, void* arg) {
  PROFILER_ZONE("pha");
  body(arg);
}
void Prefix(ZoneBody body, void* arg) {
  PROFILER_ZONE("alph");
  body(arg);
}
void Long(ZoneBody body, void* arg) {
  PROFILER_ZONE("a zone whose name is longer than the forty columns reserved for it");
  body(arg);
}
void Shared(ZoneBody body, void* arg) {
  PROFILER_FUNC;
  body(arg);
}
template <int kI>
void Instance(ZoneBody body, void* arg) {
  PROFILER_FUNC;
  body(arg);
}
// Equal names that the linker cannot merge.
char g_copy1[] = "copy";
char g_copy2[] = "copy";
char g_copy3[] = "copy";
template <char* kName>
void Array(ZoneBody body, void* arg) {
  HWY_FENCE;
  const hwy::Zone zone(kName);
  HWY_FENCE;
  body(arg);
}
// Many names.
constexpr int kNumMany = 220;
char g_many[kNumMany][8];

}  // namespace

const ZoneKind kZonesA[] = {
    {"alpha", &Alpha},
    {"beta: a / b = 1 x 2", &Beta},
    {"Instance", &Instance<0>},
    {"Instance", &Instance<1>},
    {"Instance", &Instance<2>},
    {"Shared", &Shared},
    {"copy", &Array<g_copy1>},
    {"copy", &Array<g_copy2>},
    {"copy", &Array<g_copy3>},
    {"pha", &Suffix},
    {"alph", &Prefix},
    {"a zone whose name is longer than the forty columns reserved for it", &Long},
};
const int kNumZonesA = sizeof(kZonesA) / sizeof(kZonesA[0]);

namespace {

// ------------------------------------------------------------- bookkeeping
// Not instrumented: threads of a simulation never run at the same time.
constexpr int kMaxNames = 256;
struct Tally {
  const char* name;
  uint64_t calls;
  uint64_t upper;    // sum over calls of (outer duration - inner durations of children)
  uint64_t lower;    // sum over calls of (inner duration - outer durations of children)
  uint64_t reads;    // zones and direct children, each of which may deduct overhead
};
Tally g_tally[kMaxNames];
int g_num_tally;
uint64_t g_empty_max;  // most expensive empty zone seen while nothing disturbs
uint64_t g_body_calls;

SIM_NOINST Tally* TallyOf(const char* name) {
  for (int i = 0; i < g_num_tally; ++i)
    if (!strcmp(g_tally[i].name, name)) return &g_tally[i];
  SIM_CHECK(g_num_tally < kMaxNames, "harness", "too many names");
  Tally* t = &g_tally[g_num_tally++];
  memset(t, 0, sizeof(*t));
  t->name = name;
  return t;
}

// A tree of zones is generated while it executes, from hashes.
struct Ctx {
  uint32_t seed;
  uint32_t counter;
  uint32_t budget;     // zones left
  uint32_t max_depth;
  uint32_t fan;        // children per zone (about)
  uint32_t kinds;      // how many kinds of zones
  uint32_t first_kind;
  uint32_t sleep_pct;
  uint32_t sleep_ns;
  uint64_t sleep_left;  // timestamps have 39 bits: no zone may last longer
  uint32_t many_pct;
};
struct Frame {
  Ctx* c;
  uint32_t depth;
  int kind;
  uint64_t t0, t1, t2, t3;
  uint64_t child_inner, child_outer;
  uint32_t num_children;
};

const ZoneKind& Kind(uint32_t k) {
  k %= static_cast<uint32_t>(kNumZonesA + kNumZonesB);
  return k < static_cast<uint32_t>(kNumZonesA) ? kZonesA[k] : kZonesB[k - static_cast<uint32_t>(kNumZonesA)];
}

void EnterZone(Frame* f);

SIM_NOINST void Begin(Frame* f) {
  f->t1 = Ticks();
  ++g_body_calls;
}
SIM_NOINST void End(Frame* f) { f->t2 = Ticks(); }

void Body(void* arg) {
  Frame* f = static_cast<Frame*>(arg);
  Begin(f);
  Ctx* c = f->c;
  const uint32_t h = Hash32(c->seed, c->counter++);
  if (h % 100 < c->sleep_pct) {
    uint64_t ns = 1 + Hash32(h, 3) % (c->sleep_ns + 1);
    if (ns > c->sleep_left) ns = c->sleep_left;
    c->sleep_left -= ns;
    Sleep(ns);
  }
  if (f->depth + 1 < c->max_depth) {
    const uint32_t n = (h >> 8) % (c->fan + 1);
    for (uint32_t i = 0; i < n && c->budget; ++i) {
      Frame child;
      memset(&child, 0, sizeof(child));
      child.c = c;
      child.depth = f->depth + 1;
      EnterZone(&child);
      f->child_inner += child.t2 - child.t1;
      f->child_outer += child.t3 - child.t0;
      ++f->num_children;
      if ((h >> 16) % 8 == 0) WorkFor(3);
    }
  }
  End(f);
}

SIM_NOINST void Record(Frame* f, const char* name) {
  f->t3 = Ticks();
  Tally* t = TallyOf(name);
  ++t->calls;
  const uint64_t outer = f->t3 - f->t0, inner = f->t2 - f->t1;
  t->upper += outer - f->child_inner;
  if (inner > f->child_outer) t->lower += inner - f->child_outer;
  t->reads += 1 + f->num_children;
  if (!f->num_children && outer - inner > g_empty_max) g_empty_max = outer - inner;
}

void EnterZone(Frame* f) {
  Ctx* c = f->c;
  --c->budget;
  const uint32_t h = Hash32(c->seed, c->counter++);
  f->t0 = Ticks();
  if (h % 100 < c->many_pct) {
    const char* name = g_many[Hash32(h, 1) % kNumMany];
    {
      HWY_FENCE;
      const hwy::Zone zone(name);
      HWY_FENCE;
      Body(f);
    }
    Record(f, name);
  } else {
    const ZoneKind& kind = Kind(c->first_kind + Hash32(h, 2) % c->kinds);
    kind.enter(&Body, f);
    Record(f, kind.expected);
  }
}

void RunTree(Ctx* c) {
  while (c->budget) {
    Frame f;
    memset(&f, 0, sizeof(f));
    f.c = c;
    EnterZone(&f);
  }
}

void ThreadMain(void* arg) { RunTree(static_cast<Ctx*>(arg)); }

void InitNames() {
  for (int i = 0; i < kNumMany; ++i) snprintf(g_many[i], sizeof(g_many[i]), "#%d", i);
}

struct Clk {
  double ghz;
  uint64_t gran;
  uint32_t step_ns;
};
Clk ChooseClock() {
  const double ghz[] = {1.0, 2.5, 3.7, 0.024};
  const uint64_t gran[] = {1, 1, 1, 25};
  const uint32_t step[] = {200, 60, 1000};
  Clk k;
  const uint64_t g = Gen(3);
  k.ghz = ghz[g];
  k.gran = gran[g] * (Gen(4) == 3 ? 26 : 1);
  k.step_ns = step[Gen(3)];
  SetClock(k.ghz, k.gran, k.step_ns, static_cast<uint32_t>(Gen(3) * 20));
  // Timestamps are stored in 39 bits: let them wrap.
  if (Gen(4) == 3) {
    const double wrap_s = 549755813888.0 / (k.ghz * 1E9);
    AdvanceNs(static_cast<uint64_t>(wrap_s * 1E9) - 1000000000ull - 3000000ull * Gen(8));
    Probe("timestamps wrap");
  }
  return k;
}

void GenCtx(Ctx* c, uint32_t index, uint32_t budget) {
  c->seed = Hash32(static_cast<uint32_t>(Gen(1u << 30)), index);
  c->counter = 0;
  c->budget = 1 + static_cast<uint32_t>(Gen(budget));
  const uint32_t depths[] = {1, 3, 8, 64};
  c->max_depth = depths[Gen(4)];
  c->fan = c->max_depth == 64 ? 3 : 1 + static_cast<uint32_t>(Gen(4));
  c->first_kind = static_cast<uint32_t>(Gen(static_cast<uint64_t>(kNumZonesA + kNumZonesB)));
  c->kinds = 1 + static_cast<uint32_t>(Gen(static_cast<uint64_t>(kNumZonesA + kNumZonesB)));
  c->sleep_pct = static_cast<uint32_t>(Gen(3)) * 5;
  c->sleep_ns = 1000u << Gen(8);
  if (Gen(8) == 7) {
    c->sleep_ns = 1u << GenRange(26, 31);
    if (c->sleep_pct == 0) c->sleep_pct = 20;
    Probe("long zones");
  }
  c->sleep_left = 20000000000ull;
  c->many_pct = Gen(4) == 3 ? 50 : 0;
}

char g_out[1 << 17];

// Parses the report and compares it with the tally. `calm`: nothing but the
// program itself took time, so that durations are also bounded from below.
SIM_NOINST void CheckReport(const Clk& clk, bool calm, uint64_t empty_max, bool undisturbed = false) {
  const size_t n = CapturedStdout(g_out, sizeof(g_out) - 1);
  g_out[n] = 0;
  static bool seen[kMaxNames];
  memset(seen, 0, sizeof(seen));
  char* p = g_out;
  double prev_total = -1;
  bool done = false;
  int lines = 0;
  while (*p) {
    char* nl = strchr(p, '\n');
    SIM_CHECK(nl, "report-format", "unterminated line '%s'", p);
    *nl = 0;
    char* line = p;
    p = nl + 1;
    double total;
    if (sscanf(line, "Total analysis [s]: %lf", &total) == 1) {
      SIM_CHECK(!done, "report-format", "printed twice");
      SIM_CHECK(total >= 0 && total < 1E6, "report-format", "%s", line);
      done = true;
      continue;
    }
    SIM_CHECK(!done, "report-format", "line after the total: '%s'", line);
    // NAME: CALLS x AVERAGE = SECONDS
    char* eq = nullptr;
    char* x = nullptr;
    for (char* q = line; *q; ++q)
      if (!strncmp(q, " = ", 3)) eq = q;
    SIM_CHECK(eq, "report-format", "'%s'", line);
    for (char* q = line; q < eq; ++q)
      if (!strncmp(q, " x ", 3)) x = q;
    SIM_CHECK(x, "report-format", "'%s'", line);
    char* num = x;
    while (num > line && num[-1] >= '0' && num[-1] <= '9') --num;
    const uint64_t calls = strtoull(num, nullptr, 10);
    char* colon = num;
    while (colon > line && colon[-1] == ' ') --colon;
    SIM_CHECK(colon > line && colon[-1] == ':', "report-format", "'%s'", line);
    char* end = colon - 1;
    while (end > line && end[-1] == ' ') --end;
    *end = 0;
    const double avg = strtod(x + 3, nullptr);
    total = strtod(eq + 3, nullptr);
    int idx = -1;
    for (int i = 0; i < g_num_tally; ++i)
      if (!strcmp(g_tally[i].name, line)) idx = i;
    SIM_CHECK(idx >= 0, "unknown-zone", "report has zone '%s', never entered", line);
    SIM_CHECK(!seen[idx], "zone-twice", "zone '%s' is reported twice", line);
    seen[idx] = true;
    const Tally& t = g_tally[idx];
    SIM_CHECK(calls == t.calls, "wrong-count", "zone '%s' entered %llu times, reported %llu", line, (ull)t.calls, (ull)calls);
    const double dur = avg * static_cast<double>(calls), slack = static_cast<double>(calls) * 0.5 + 1;
    const double gran = static_cast<double>(clk.gran) * static_cast<double>(t.reads) * 2;
    SIM_CHECK(dur <= static_cast<double>(t.upper) + slack + gran, "too-long",
              "zone '%s': %.0f ticks reported, at most %llu elapsed in it", line, dur, (ull)t.upper);
    if (calm) {
      if (undisturbed) {
        // The cost of measuring is not attributed to the zone.
        SIM_CHECK(dur <= static_cast<double>(t.lower) + slack + gran, "overhead-included",
                  "zone '%s': %.0f ticks reported, but without the profiler's own overhead %llu elapsed in it (%llu calls)", line, dur,
                  (ull)t.lower, (ull)calls);
      }
      const double overhead = static_cast<double>(t.reads) * static_cast<double>(2 * empty_max);
      SIM_CHECK(dur >= static_cast<double>(t.lower) - overhead - slack - gran, "too-short",
                "zone '%s': %.0f ticks reported, at least %llu elapsed in it (%llu calls, deducted overhead up to %.0f)", line, dur,
                (ull)t.lower, (ull)calls, overhead);
      const double freq = clk.ghz * 1E9;
      SIM_CHECK(total >= (dur - slack) / freq * 0.98 - 1E-6 && total <= (dur + slack) / freq * 1.02 + 1E-6, "wrong-seconds",
                "zone '%s': %.0f ticks at %.4f GHz reported as %f s", line, dur, clk.ghz, total);
    }
    SIM_CHECK(prev_total < 0 || total <= prev_total + 1.5E-6, "not-sorted", "%f s after %f s", total, prev_total);
    prev_total = total;
    ++lines;
  }
  SIM_CHECK(done || g_num_tally == 0, "no-report", "nothing printed");
  for (int i = 0; i < g_num_tally; ++i)
    SIM_CHECK(seen[i], "zone-missing", "zone '%s' entered %llu times but not reported", g_tally[i].name, (ull)g_tally[i].calls);
}

void Start() {
  InitNames();
  SetStepBudget(60000000, 30000000);
}

// The thread's calibration, then empty zones whose cost is measured.
SIM_NOINST uint64_t Calibrated() {
  const uint64_t m = g_empty_max;
  return m;
}
SIM_NOINST void ResetEmpty() { g_empty_max = 0; }

void Calibrate() {
  Ctx c;
  memset(&c, 0, sizeof(c));
  c.max_depth = 1;
  c.fan = 1;
  c.kinds = 1;
  c.budget = 1;
  RunTree(&c);
  ResetEmpty();
  c.budget = 16;
  RunTree(&c);
}

}  // namespace

// One thread; nothing disturbs the clock: counts and times.
SIM_SCENARIO(C12, calm, 4) {
  Start();
  SetWeakMemory(false);
  const Clk clk = ChooseClock();
  Calibrate();
  const uint64_t empty = Calibrated();
  Ctx c;
  GenCtx(&c, 1, Gen(3) == 2 ? 3000 : 100);
  RunTree(&c);
  PROFILER_PRINT_RESULTS();
  CheckReport(clk, true, empty, true);
}

// Several threads, each calibrated while alone, then running concurrently.
namespace {
struct Gate {
  std::atomic<uint32_t> ready{0};
  std::atomic<uint32_t> go{0};
};
struct GatedThread {
  Gate* gate;
  Ctx* ctx;
};
void GatedMain(void* arg) {
  GatedThread* g = static_cast<GatedThread*>(arg);
  Calibrate();
  g->gate->ready.fetch_add(1);
  while (!g->gate->go.load()) Sleep(1000);
  RunTree(g->ctx);
}
}  // namespace

SIM_SCENARIO(C12, threads, 6) {
  Start();
  EnableFault(fStall, 400000);
  EnableFault(fLateStart, 400000);
  EnableFault(fClockJump, 3000);
  const Clk clk = ChooseClock();
  static Ctx ctx[8];
  const int n = 1 + static_cast<int>(Gen(6));
  const uint32_t budget = Gen(4) == 3 ? 600 : 60;
  for (int i = 0; i <= n; ++i) GenCtx(&ctx[i], static_cast<uint32_t>(i), budget);
  const bool main_too = GenBool();
  const bool main_first = GenBool();
  int tids[8];
  int m = 0;
  if (main_too && main_first) RunTree(&ctx[n]);
  for (; m < n; ++m) tids[m] = Spawn(&ThreadMain, &ctx[m]);
  if (main_too && !main_first) RunTree(&ctx[n]);
  for (int i = 0; i < m; ++i) Join(tids[i]);
  PROFILER_PRINT_RESULTS();
  CheckReport(clk, false, 0);
}

SIM_SCENARIO(C12, calibrated_threads, 3) {
  Start();
  EnableFault(fStall, 400000);
  const Clk clk = ChooseClock();
  static Ctx ctx[4];
  static GatedThread gt[4];
  Gate gate;
  const int n = 1 + static_cast<int>(Gen(3));
  int tids[4];
  uint64_t empty = 0;
  for (int i = 0; i < n; ++i) {
    GenCtx(&ctx[i], static_cast<uint32_t>(i), 80);
    gt[i] = GatedThread{&gate, &ctx[i]};
    tids[i] = Spawn(&GatedMain, &gt[i]);
    while (gate.ready.load() != static_cast<uint32_t>(i + 1)) Sleep(50000);
    if (Calibrated() > empty) empty = Calibrated();
  }
  gate.go.store(1);
  for (int i = 0; i < n; ++i) Join(tids[i]);
  PROFILER_PRINT_RESULTS();
  CheckReport(clk, true, empty);
}

// More zones than the storage holds, at some nesting depth.
SIM_SCENARIO(C12, overflow, 1) {
  Start();
  SetWeakMemory(false);
  EnableFault(fClockJump, 100);
  const Clk clk = ChooseClock();
  Ctx c;
  GenCtx(&c, 1, 1);
  const uint32_t budgets[] = {65536, 65535, 65537, 65532, 66000, 131072 + 17, 140000};
  c.budget = budgets[Gen(7)] - 1 + static_cast<uint32_t>(Gen(9));
  c.sleep_pct = 0;
  if (c.max_depth > 8) c.max_depth = 8;
  const bool other = GenBool();
  if (other) {
    const int t = Spawn(&ThreadMain, &c);
    Join(t);
    Ctx c2;
    GenCtx(&c2, 2, 50);
    RunTree(&c2);
  } else {
    RunTree(&c);
  }
  Probe("storage overflow");
  PROFILER_PRINT_RESULTS();
  CheckReport(clk, false, 0);
}

// Exactly N packets: every fill level of the small buffer.
SIM_SCENARIO(C12, few, 2) {
  Start();
  SetWeakMemory(false);
  const Clk clk = ChooseClock();
  Ctx c;
  GenCtx(&c, 1, 1);
  c.budget = 1 + static_cast<uint32_t>(Gen(40));
  RunTree(&c);
  PROFILER_PRINT_RESULTS();
  CheckReport(clk, false, 0);
}

SIM_SCENARIO(C12, no_zone, 1) {
  Start();
  const Clk clk = ChooseClock();
  PROFILER_PRINT_RESULTS();
  CheckReport(clk, true, 0);
}

// CPUs without the serialising timer must be refused, not crash.
namespace {
bool OldCpu(uint32_t leaf, uint32_t, uint32_t* r) {
  if (leaf != 0x80000001u) return false;
  r[0] = r[1] = r[2] = 0;
  r[3] = 1u << 29;
  return true;
}
SIM_NOINST void OnAbort() {
  NoPreempt(true);
  char buf[2048];
  const size_t n = CapturedStderr(buf, sizeof(buf) - 1);
  buf[n] = 0;
  SIM_CHECK(strstr(buf, "too old"), "wrong-abort", "aborted with '%s'", buf);
  FinishOk();
}
}  // namespace
SIM_SCENARIO(C12, old_cpu, 1) {
  Start();
  cpu.cpuid = &OldCpu;
  SetAbortHook(&OnAbort);
  ChooseClock();
  Ctx c;
  GenCtx(&c, 1, 3);
  RunTree(&c);
  Fail("not-refused", "zones recorded on a CPU without RDTSCP");
}
