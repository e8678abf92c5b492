// C01..C05: ThreadPool.
#include <algorithm>
#include <memory>
#include <system_error>
#include <vector>

#include "common.h"
#include "hwy/contrib/thread_pool/thread_pool.h"

using namespace sim;
using hwy::PoolWaitMode;
using hwy::ThreadPool;

namespace {

size_t GenThreads() {
  // Mostly small, because schedules of few threads are explored deeper.
  switch (Gen(8)) {
    case 0: return 1;
    case 1: return 2;
    case 2: return 3;
    case 3: return 4;
    case 4: return GenRange(1, 9);
    case 5: return GenRange(5, 17);
    case 6: return GenRange(1, 64);  // 64 is clamped
    default: return 63 - Gen(5);
  }
}

size_t GenSmallThreads() { return 1 + Gen(5); }

// Destroys the pool through its real allocation, so that late accesses by
// worker threads are use-after-free.
struct PoolHolder {
  explicit PoolHolder(size_t threads) : pool(hwy::MakeUniqueAligned<ThreadPool>(threads)) {}
  ThreadPool& operator*() { return *pool; }
  ThreadPool* operator->() { return pool.get(); }
  hwy::AlignedUniquePtr<ThreadPool> pool;
};

struct RunStats {
  uint64_t workers_used = 0;
};

// One Run with the exactly-once oracle. The closure lives on the heap and is
// freed right after Run returns.
void CheckedRun(ThreadPool& pool, OrcPool* orc, uint64_t begin, uint64_t end, uint32_t work, uint64_t salt) {
  const uint64_t num = end - begin;
  const bool trivial = num <= 1 || pool.NumWorkers() == 1;
  OrcRun* r = OrcStart(orc, begin, end, trivial);
  auto lambda = [r, work, salt](uint64_t task, size_t worker) {
    OrcEnter(r, task, worker);
    if (work) WorkFor(static_cast<int>(Hash32(task, salt) % work));
    OrcLeave(r, task, worker);
  };
  auto closure = std::make_unique<decltype(lambda)>(lambda);
  pool.Run(begin, end, *closure);
  OrcFinish(r);
  if (OrcDistinctWorkers(r) > 1) Probe("run used several workers");
  if (num > pool.NumWorkers()) Probe("run with stealing");
}

uint64_t GenBegin(uint64_t num) {
  switch (Gen(6)) {
    case 0:
    case 1:
    case 2: return 0;
    case 3: return Gen(100);
    case 4: return (uint64_t{1} << 32) - Gen(40);
    default: return ~uint64_t{0} - num - Gen(70);  // near the end of the range
  }
}

uint64_t GenNumTasks(uint64_t workers) {
  switch (Gen(6)) {
    case 0: return Gen(3);
    case 1: return workers - Gen(2);
    case 2: return workers + 1 + Gen(3);
    case 3: return workers * 2 + Gen(5);
    case 4: return Gen(4 * workers + 8);
    default: return 2 + Gen(6);
  }
}

void CheckMode(ThreadPool& pool, PoolWaitMode mode) {
  const bool block = pool.config().wait_type == hwy::pool::WaitType::kBlock;
  SIM_CHECK(block == (mode == PoolWaitMode::kBlock), "wrong-wait-mode",
            "after SetWaitMode(%s) the configuration is %s", mode == PoolWaitMode::kBlock ? "kBlock" : "kSpin",
            pool.config().ToString().c_str());
  SIM_CHECK(!pool.config().exit, "wrong-config", "exit flag set in a live pool");
}

// The older overload: init_closure(NumWorkers()) is called exactly once, on the
// calling thread and before any task; if it declines, no task runs.
void CheckedRunInit(ThreadPool& pool, OrcPool* orc, uint64_t begin, uint64_t end, uint64_t salt) {
  const uint64_t num = end - begin;
  const bool trivial = num <= 1 || pool.NumWorkers() == 1;
  const int how = static_cast<int>(Gen(4));  // 0: declines, 1: NoInit
  int init_calls = 0;
  bool ret;
  OrcRun* r = how == 0 ? nullptr : OrcStart(orc, begin, end, trivial);
  auto tasks = [&, r, salt](uint64_t task, size_t worker) {
    SIM_CHECK(r != nullptr, "task-without-init", "task %llu ran although the init closure returned false",
              static_cast<unsigned long long>(task));
    SIM_CHECK(how == 1 || init_calls == 1, "task-before-init", "task %llu ran after %d init calls",
              static_cast<unsigned long long>(task), init_calls);
    OrcEnter(r, task, worker);
    WorkFor(static_cast<int>(Hash32(task, salt) % 4));
    OrcLeave(r, task, worker);
  };
  if (how == 1) {
    ret = pool.Run(begin, end, &ThreadPool::NoInit, tasks);
  } else {
    ret = pool.Run(
        begin, end,
        [&](size_t workers) {
          SIM_CHECK(workers == pool.NumWorkers(), "wrong-init-argument", "init closure got %zu, pool has %zu workers",
                    workers, pool.NumWorkers());
          ++init_calls;
          return how != 0;
        },
        tasks);
    SIM_CHECK(init_calls == 1, "wrong-init-count", "init closure was called %d times", init_calls);
  }
  SIM_CHECK(ret == (how != 0), "wrong-run-result", "Run returned %d, init closure %d", ret, how != 0);
  if (r) OrcFinish(r);
  Probe("run with an init closure");
}

// A random history of Run / SetWaitMode.
void History(ThreadPool& pool, OrcPool* orc, int ops, bool verify_mode) {
  PoolWaitMode mode = PoolWaitMode::kBlock;
  for (int i = 0; i < ops; ++i) {
    if (Gen(5) == 4) {
      mode = GenBool() ? PoolWaitMode::kSpin : PoolWaitMode::kBlock;
      pool.SetWaitMode(mode);
    } else {
      const uint64_t num = GenNumTasks(pool.NumWorkers());
      const uint64_t begin = GenBegin(num);
      if (Gen(6) == 5) {
        CheckedRunInit(pool, orc, begin, begin + num, static_cast<uint64_t>(i));
      } else {
        CheckedRun(pool, orc, begin, begin + num, static_cast<uint32_t>(Gen(4) * 5), static_cast<uint64_t>(i));
      }
    }
    if (verify_mode) CheckMode(pool, mode);
  }
}

}  // namespace

SIM_SCENARIO(C01, history, 6) {
  CommonFaults();
  ChooseSpinCpu();
  const size_t threads = Gen(3) == 0 ? GenThreads() : GenSmallThreads();
  SetStepBudget(threads > 16 ? 60000 : 120000, 4000000);
  PoolHolder pool(threads);
  const size_t expect = (threads > 63 ? 63 : threads) + 1;
  SIM_CHECK(pool->NumWorkers() == expect, "wrong-worker", "NumWorkers %zu, expected %zu", pool->NumWorkers(), expect);
  OrcPool* orc = OrcNewPool(expect, "pool");
  History(*pool, orc, static_cast<int>(threads > 16 ? 1 + Gen(5) : 1 + Gen(12)), false);
}

// Long histories on few threads: enough Runs for the automatic configuration
// to visit every barrier and wait type, with occasional mode switches.
SIM_SCENARIO(C01, tuning_history, 2) {
  CommonFaults();
  ChooseSpinCpu();
  const size_t threads = 1 + Gen(6);
  SetStepBudget(400000, 4000000);
  PoolHolder pool(threads);
  OrcPool* orc = OrcNewPool(threads + 1, "pool");
  if (GenBool()) pool->SetWaitMode(PoolWaitMode::kSpin);
  const int runs = static_cast<int>(20 + Gen(120));
  const uint64_t num = GenNumTasks(threads + 1);
  for (int i = 0; i < runs; ++i) {
    CheckedRun(*pool, orc, 0, num, 3, static_cast<uint64_t>(i));
    if (Gen(40) == 39) pool->SetWaitMode(GenBool() ? PoolWaitMode::kSpin : PoolWaitMode::kBlock);
  }
}

// Maximum pool size across many configuration switches: the barrier state of
// the last workers is shared with the counters.
SIM_SCENARIO(C01, large_pool_history, 3) {
  EnableFault(fStall, 600000);
  EnableFault(fLateStart, 50000);
  ChooseSpinCpu();
  const size_t threads = 63 - Gen(4);
  SetStepBudget(250000, 6000000);
  PoolHolder pool(threads);
  OrcPool* orc = OrcNewPool(threads + 1, "pool");
  const int switches = static_cast<int>(Gen(6));
  for (int i = 0; i < switches; ++i) pool->SetWaitMode(GenBool() ? PoolWaitMode::kSpin : PoolWaitMode::kBlock);
  const int runs = static_cast<int>(1 + Gen(16));
  for (int i = 0; i < runs; ++i) {
    if (Gen(8) == 7) pool->SetWaitMode(GenBool() ? PoolWaitMode::kSpin : PoolWaitMode::kBlock);
    CheckedRun(*pool, orc, 0, Gen(4) == 0 ? GenNumTasks(threads + 1) : threads + Gen(3), 2, static_cast<uint64_t>(i));
  }
}

// Far more tasks than workers, as for rows or pixels of something large, also
// around the limits of narrow integer types.
SIM_SCENARIO(C01, many_tasks, 1) {
  EnableFault(fStall, 20000);
  EnableFault(fLateStart, 50000);
  ChooseSpinCpu();
  const size_t threads = 1 + Gen(4);
  SetStepBudget(3000000, 30000000);
  PoolHolder pool(threads);
  OrcPool* orc = OrcNewPool(threads + 1, "pool");
  if (GenBool()) pool->SetWaitMode(PoolWaitMode::kSpin);
  uint64_t num;
  switch (Gen(8)) {
    case 0: num = 65536 * (threads > 2 ? 1 : (threads + 1)) + Gen(300); break;  // narrow share of each worker
    case 1: num = 32760 + Gen(100); break;
    case 2:
    case 3: num = 250 + Gen(20); break;
    case 4: num = GenRange(1000, 20000); break;
    default: num = GenRange(200, 3000); break;
  }
  if (num > 60000) Probe("more than 60000 tasks");
  const int runs = static_cast<int>(num > 20000 ? 1 : 1 + Gen(4));
  for (int i = 0; i < runs; ++i) {
    const uint64_t begin = GenBegin(num);
    CheckedRun(*pool, orc, begin, begin + num, static_cast<uint32_t>(num < 3000 ? Gen(3) * 3 : 0), static_cast<uint64_t>(i));
  }
}

// ------------------------------------------------------------------ C02
namespace {
struct Shared02 {
  std::vector<uint64_t> input, output, second;
  std::vector<uint64_t> per_worker;
};
}  // namespace

SIM_SCENARIO(C02, visibility, 6) {
  CommonFaults();
  ChooseSpinCpu();
  const size_t threads = Gen(4) == 0 ? GenThreads() : GenSmallThreads();
  SetStepBudget(threads > 16 ? 60000 : 120000, 4000000);
  PoolHolder pool(threads);
  const size_t workers = pool->NumWorkers();
  Shared02 s;
  const int rounds = static_cast<int>(1 + Gen(6));
  s.per_worker.assign(workers, 0);
  uint64_t expect_sum = 0;
  for (int round = 0; round < rounds; ++round) {
    const size_t num = static_cast<size_t>(2 + GenNumTasks(workers));
    // The caller writes (and reallocates) everything before Run...
    s.input.assign(num, 0);
    for (size_t i = 0; i < num; ++i) s.input[i] = i * 7 + static_cast<uint64_t>(round) * 1000;
    s.output.assign(num, 0);
    s.second.assign(num, 0);
    if (Gen(5) == 4) pool->SetWaitMode(GenBool() ? PoolWaitMode::kSpin : PoolWaitMode::kBlock);
    const uint32_t work = static_cast<uint32_t>(Gen(3) * 4);
    pool->Run(0, num, [&](uint64_t task, size_t worker) {
      if (work) WorkFor(static_cast<int>(Hash32(task, 3) % work));
      const uint64_t in = s.input[task];
      SIM_CHECK(in == task * 7 + static_cast<uint64_t>(round) * 1000, "stale-input",
                "task %llu read %llu written by the caller", (unsigned long long)task, (unsigned long long)in);
      s.output[task] = in + 1;
      s.per_worker[worker] += in;
    });
    // ...closures of the next Run read what other closures wrote...
    pool->Run(0, num, [&](uint64_t task, size_t worker) {
      const size_t other = (static_cast<size_t>(task) * 5 + 3) % num;
      const uint64_t got = s.output[other];
      SIM_CHECK(got == other * 7 + static_cast<uint64_t>(round) * 1000 + 1, "stale-result",
                "task %llu read %llu from the previous Run", (unsigned long long)task, (unsigned long long)got);
      s.second[task] = got;
      s.per_worker[worker] += 1;
    });
    // ...and the caller reads everything afterwards.
    uint64_t sum = 0;
    for (size_t i = 0; i < num; ++i) {
      SIM_CHECK(s.output[i] == i * 7 + static_cast<uint64_t>(round) * 1000 + 1, "stale-result",
                "caller read %llu for task %zu", (unsigned long long)s.output[i], i);
      const size_t other = (i * 5 + 3) % num;
      SIM_CHECK(s.second[i] == s.output[other], "stale-result", "caller read %llu for task %zu of the second Run",
                (unsigned long long)s.second[i], i);
      expect_sum += s.input[i] + 1;
    }
    for (size_t w = 0; w < workers; ++w) sum += s.per_worker[w];
    SIM_CHECK(sum == expect_sum, "stale-result", "sum of per-worker storage %llu, expected %llu",
              (unsigned long long)sum, (unsigned long long)expect_sum);
  }
}

// Data handed over only through the destructor / constructor, and reused
// memory of freed closures.
SIM_SCENARIO(C02, lifetime, 2) {
  CommonFaults();
  ChooseSpinCpu();
  SetAllocReuse(true);
  SetStepBudget(120000, 4000000);
  const int pools = static_cast<int>(1 + Gen(3));
  std::vector<uint64_t> data(16, 0);
  for (int p = 0; p < pools; ++p) {
    const size_t threads = GenSmallThreads();
    {
      PoolHolder pool(threads);
      for (size_t i = 0; i < data.size(); ++i) data[i] += 1;
      if (GenBool()) pool->SetWaitMode(PoolWaitMode::kSpin);
      const int runs = static_cast<int>(Gen(4));
      for (int r = 0; r < runs; ++r) {
        auto own = std::make_unique<std::vector<uint64_t>>(data.size(), 5);
        pool->Run(0, data.size(), [&](uint64_t task, size_t) {
          data[task] += (*own)[task];
          (*own)[task] = 0;
        });
      }
    }
    for (size_t i = 0; i < data.size(); ++i) data[i] ^= 1;
  }
}

// Tuning visits every barrier: plain data through all of them.
SIM_SCENARIO(C02, all_barriers, 3) {
  CommonFaults();
  ChooseSpinCpu();
  const size_t threads = 1 + Gen(7);
  SetStepBudget(300000, 4000000);
  PoolHolder pool(threads);
  if (GenBool()) pool->SetWaitMode(PoolWaitMode::kSpin);
  const size_t workers = pool->NumWorkers();
  std::vector<uint64_t> a(workers * 2, 1), b(workers * 2, 0);
  const int runs = static_cast<int>(12 + Gen(50));
  for (int r = 0; r < runs; ++r) {
    const size_t num = Gen(4) == 0 ? workers * 2 : workers;
    pool->Run(0, num, [&](uint64_t task, size_t) { b[task] = a[task] + 1; });
    for (size_t i = 0; i < num; ++i) {
      SIM_CHECK(b[i] == a[i] + 1, "stale-result", "caller read %llu for task %zu in Run %d with %s",
                (unsigned long long)b[i], i, r, pool->config().ToString().c_str());
      a[i] = b[i];
    }
  }
}

// ------------------------------------------------------------------ C03
SIM_SCENARIO(C03, unused_pool, 2) {
  CommonFaults();
  ChooseSpinCpu();
  const size_t threads = GenThreads();
  SetStepBudget(30000, 3000000);
  const int before = NumThreadsAlive();
  {
    PoolHolder pool(threads);
    if (Gen(3) == 0) WorkFor(static_cast<int>(Gen(500)));
  }
  SIM_CHECK(NumThreadsAlive() == before, "leaked-thread", "%d threads alive after the destructor",
            NumThreadsAlive() - before);
}

SIM_SCENARIO(C03, zero_threads, 1) {
  ChooseSpinCpu();
  const int before = NumThreadsCreated();
  {
    PoolHolder pool(0);
    OrcPool* orc = OrcNewPool(1, "pool");
    History(*pool, orc, static_cast<int>(Gen(8)), false);
  }
  SIM_CHECK(NumThreadsCreated() == before, "leaked-thread", "a pool of 0 threads created some");
}

SIM_SCENARIO(C03, history, 6) {
  CommonFaults();
  ChooseSpinCpu();
  const size_t threads = Gen(4) == 0 ? GenThreads() : GenSmallThreads();
  SetStepBudget(threads > 16 ? 40000 : 20000 + 20000 * Gen(4), 4000000);
  const int before = NumThreadsAlive();
  const int pools = static_cast<int>(1 + Gen(2));
  for (int p = 0; p < pools; ++p) {
    const int created = NumThreadsCreated();
    {
      PoolHolder pool(threads);
      SIM_CHECK(NumThreadsCreated() - created == static_cast<int>(pool->NumWorkers()) - 1, "leaked-thread",
                "pool of %zu threads created %d", threads, NumThreadsCreated() - created);
      OrcPool* orc = OrcNewPool(pool->NumWorkers(), "pool");
      History(*pool, orc, static_cast<int>(Gen(8)), false);
      // A long idle time in which every worker blocks.
      if (Gen(3) == 0) {
        WorkFor(static_cast<int>(Gen(2000)));
        CheckedRun(*pool, orc, 0, pool->NumWorkers() * 2, 0, 1);
      }
    }
    SIM_CHECK(NumThreadsAlive() == before, "leaked-thread", "%d threads alive after the destructor",
              NumThreadsAlive() - before);
  }
}

// Through every barrier and wait type.
SIM_SCENARIO(C03, tuning_history, 2) {
  CommonFaults();
  ChooseSpinCpu();
  const size_t threads = 1 + Gen(8);
  SetStepBudget(400000, 4000000);
  {
    PoolHolder pool(threads);
    if (GenBool()) pool->SetWaitMode(PoolWaitMode::kSpin);
    const int runs = static_cast<int>(12 + Gen(60));
    for (int i = 0; i < runs; ++i) {
      pool->Run(0, 2 + Gen(threads * 2), [](uint64_t task, size_t) { WorkFor(static_cast<int>(task & 3)); });
      if (Gen(16) == 15) pool->SetWaitMode(GenBool() ? PoolWaitMode::kSpin : PoolWaitMode::kBlock);
    }
  }
  SIM_CHECK(NumThreadsAlive() == 1, "leaked-thread", "threads alive after the destructor");
}

// The system refuses to create a thread: the constructor reports that (or
// terminates the program), rather than leaving a pool without that worker.
namespace {
uint64_t g_refused_before;
void OnTerminate() {
  SIM_CHECK(FaultsFired(fThreadCreateFail) != g_refused_before, "abort", "pool terminated the program although all threads were created");
  Probe("terminated: no more threads");
  FinishOk();
}
}  // namespace
SIM_SCENARIO(C03, refused_threads, 1) {
  CommonFaults();
  ChooseSpinCpu();
  EnableFault(fThreadCreateFail, 1 + static_cast<uint32_t>(Gen(3)) * 100000);
  SetStepBudget(60000, 4000000);
  SetAbortHook(&OnTerminate);
  const size_t threads = GenSmallThreads();
  const int before = NumThreadsAlive();
  g_refused_before = FaultsFired(fThreadCreateFail);
  try {
    PoolHolder pool(threads);
    SIM_CHECK(FaultsFired(fThreadCreateFail) == g_refused_before, "missing-worker", "pool of %zu threads constructed although one was not created", threads);
    OrcPool* orc = OrcNewPool(threads + 1, "pool");
    History(*pool, orc, 2, false);
  } catch (const std::system_error&) {
    SIM_CHECK(FaultsFired(fThreadCreateFail) != g_refused_before, "abort", "system_error although all threads were created");
    Probe("exception: no more threads");
  }
  SIM_CHECK(NumThreadsAlive() == before, "leaked-thread", "%d threads alive after the pool", NumThreadsAlive() - before);
}

// ------------------------------------------------------------------ C04
SIM_SCENARIO(C04, mode_history, 5) {
  CommonFaults();
  ChooseSpinCpu();
  const size_t threads = Gen(8) == 0 ? 0 : (Gen(6) == 0 ? GenThreads() : GenSmallThreads());
  SetStepBudget(threads > 16 ? 60000 : 150000, 4000000);
  PoolHolder pool(threads);
  OrcPool* orc = OrcNewPool(pool->NumWorkers(), "pool");
  CheckMode(*pool, PoolWaitMode::kBlock);
  PoolWaitMode mode = PoolWaitMode::kBlock;
  const int ops = static_cast<int>(threads > 16 ? 1 + Gen(5) : 2 + Gen(16));
  for (int i = 0; i < ops; ++i) {
    if (Gen(2) == 0) {
      mode = GenBool() ? PoolWaitMode::kSpin : PoolWaitMode::kBlock;
      pool->SetWaitMode(mode);
      if (Gen(4) == 0) pool->SetWaitMode(mode);
    } else {
      CheckedRun(*pool, orc, 0, GenNumTasks(pool->NumWorkers()), static_cast<uint32_t>(Gen(3) * 4), static_cast<uint64_t>(i));
    }
    CheckMode(*pool, mode);
    SIM_CHECK(!pool->AutoTuneComplete(), "tuned-early", "tuning complete after %d operations", i);
  }
}

// The configuration in use after tuning is the candidate of lowest estimated cost.
void CheckSelected(ThreadPool& pool, PoolWaitMode mode) {
  const hwy::pool::Config c = pool.config();
  const std::vector<hwy::pool::Config> all = hwy::pool::Config::AllCandidates(mode, pool.NumWorkers() - 1);
  const hwy::Span<hwy::CostDistribution> costs = pool.AutoTuneCosts();
  SIM_CHECK(all.size() == costs.size(), "tuning-lost", "%zu costs of %zu candidates", costs.size(), all.size());
  double used = -1.0, lowest = 1E300;
  for (size_t i = 0; i < all.size(); ++i) {
    const double cost = costs[i].EstimateCost();
    lowest = std::min(lowest, cost);
    if (all[i].spin_type == c.spin_type && all[i].wait_type == c.wait_type && all[i].barrier_type == c.barrier_type) used = cost;
  }
  SIM_CHECK(used >= 0.0, "wrong-config", "%s is not among the candidates", c.ToString().c_str());
  SIM_CHECK(used <= lowest * 1.000001, "wrong-config", "tuning is complete, but %s (cost %.1f) is used although the lowest cost is %.1f",
            c.ToString().c_str(), used, lowest);
}

// Runs until both modes are tuned.
SIM_SCENARIO(C04, tune_to_completion, 2) {
  CommonFaults();
  EnableFault(fClockJump, 60000);
  const int cpu_kind = ChooseSpinCpu();
  const size_t threads = 1 + Gen(3);
  SetStepBudget(3000000, 6000000);
  SetRaceDetection(false);  // long run; races are C02's
  PoolHolder pool(threads);
  OrcPool* orc = OrcNewPool(threads + 1, "pool");
  const bool spin_first = GenBool();
  const bool interleave = Gen(3) == 0;
  bool done[2] = {false, false};
  hwy::pool::Config best[2];
  int runs[2] = {0, 0};
  double longest[2] = {0.0, 0.0};
  const size_t spin_types = cpu_kind == 0 ? 1 : 2;
  const size_t barriers = threads <= 1 ? 4 : 6;
  int mode = spin_first ? 1 : 0;
  pool->SetWaitMode(mode ? PoolWaitMode::kSpin : PoolWaitMode::kBlock);
  while (!done[0] || !done[1]) {
    CheckMode(*pool, mode ? PoolWaitMode::kSpin : PoolWaitMode::kBlock);
    SIM_CHECK(pool->AutoTuneComplete() == done[mode], "tuned-early", "AutoTuneComplete is %d in mode %d after %d Runs",
              pool->AutoTuneComplete(), mode, runs[mode]);
    const uint64_t before = Ticks();
    CheckedRun(*pool, orc, 0, 2 + (runs[mode] & 1) * threads, 0, 0);
    longest[mode] = std::max(longest[mode], static_cast<double>(Ticks() - before));
    ++runs[mode];
    const bool complete = pool->AutoTuneComplete();
    if (!done[mode] && complete) {
      done[mode] = true;
      best[mode] = pool->config();
      CheckSelected(*pool, mode ? PoolWaitMode::kSpin : PoolWaitMode::kBlock);
      for (hwy::CostDistribution& c : pool->AutoTuneCosts())
        SIM_CHECK(c.EstimateCost() <= longest[mode] * 1.0001 + 1.0, "wrong-cost", "estimated cost %.1f, but no Run took longer than %.1f ticks",
                  c.EstimateCost(), longest[mode]);
      Probe(mode ? "spin tuning complete" : "block tuning complete");
      CheckMode(*pool, mode ? PoolWaitMode::kSpin : PoolWaitMode::kBlock);
    } else if (done[mode]) {
      SIM_CHECK(complete, "tuning-lost", "AutoTuneComplete became false again");
      const hwy::pool::Config c = pool->config();
      SIM_CHECK(c.spin_type == best[mode].spin_type && c.wait_type == best[mode].wait_type &&
                    c.barrier_type == best[mode].barrier_type,
                "tuning-lost", "configuration changed to %s after tuning selected another", c.ToString().c_str());
    }
    // Generous bound: every candidate measured in 200 rounds.
    const size_t candidates = spin_types * barriers * (mode ? 2 : 1);
    SIM_CHECK(runs[mode] <= static_cast<int>(200 * candidates), "tuning-unbounded",
              "not tuned after %d Runs of %zu candidates", runs[mode], candidates);
    const bool want_switch = done[mode] ? (runs[mode] & 3) == 0 : (interleave && Hash32(static_cast<uint64_t>(runs[0]), static_cast<uint64_t>(runs[1])) % 64 == 0);
    if (want_switch) {
      mode ^= 1;
      pool->SetWaitMode(mode ? PoolWaitMode::kSpin : PoolWaitMode::kBlock);
    }
  }
  // Both complete: alternate.
  for (int i = 0; i < 4; ++i) {
    mode ^= 1;
    pool->SetWaitMode(mode ? PoolWaitMode::kSpin : PoolWaitMode::kBlock);
    SIM_CHECK(pool->AutoTuneComplete(), "tuning-lost", "AutoTuneComplete false after both modes completed");
    const hwy::pool::Config c = pool->config();
    SIM_CHECK(c.spin_type == best[mode].spin_type && c.wait_type == best[mode].wait_type &&
                  c.barrier_type == best[mode].barrier_type,
              "tuning-lost", "configuration %s differs from the selected one", c.ToString().c_str());
    CheckedRun(*pool, orc, 0, 5, 2, 0);
  }
}

// Partial tuning in both modes with races on.
SIM_SCENARIO(C04, partial_tuning, 3) {
  CommonFaults();
  ChooseSpinCpu();
  const size_t threads = 1 + Gen(5);
  SetStepBudget(300000, 4000000);
  PoolHolder pool(threads);
  OrcPool* orc = OrcNewPool(threads + 1, "pool");
  std::vector<uint64_t> data(64, 0);
  PoolWaitMode mode = PoolWaitMode::kBlock;
  const int runs = static_cast<int>(10 + Gen(60));
  for (int i = 0; i < runs; ++i) {
    if (Gen(6) == 5) {
      mode = GenBool() ? PoolWaitMode::kSpin : PoolWaitMode::kBlock;
      pool->SetWaitMode(mode);
    }
    const uint64_t num = 2 + Gen(2 * threads + 2);
    OrcRun* r = OrcStart(orc, 0, num, false);
    pool->Run(0, num, [&](uint64_t task, size_t worker) {
      OrcEnter(r, task, worker);
      data[task] += task;
      Yield();
      OrcLeave(r, task, worker);
    });
    OrcFinish(r);
    CheckMode(*pool, mode);
  }
}

// ------------------------------------------------------------------ C05
namespace {
struct Client {
  ThreadPool* pool;
  OrcPool* orc;
  int ops;
  uint64_t salt;
  bool own_pool;
  size_t threads;
};
void ClientMain(void* arg) {
  Client* c = static_cast<Client*>(arg);
  if (c->own_pool) {
    PoolHolder pool(c->threads);
    OrcPool* orc = OrcNewPool(c->threads + 1, "client pool");
    for (int i = 0; i < c->ops; ++i) {
      const uint64_t num = Hash32(static_cast<uint64_t>(i), c->salt) % (3 * c->threads + 4);
      CheckedRun(*pool, orc, 0, num, 6, c->salt);
      if (Hash32(static_cast<uint64_t>(i), c->salt + 9) % 4 == 0) pool->SetWaitMode(PoolWaitMode::kSpin);
    }
  } else {
    for (int i = 0; i < c->ops; ++i) {
      // Trivial Runs on a shared pool, from several threads.
      const uint64_t begin = Hash32(static_cast<uint64_t>(i), c->salt) % 50;
      const uint64_t num = Hash32(static_cast<uint64_t>(i), c->salt + 1) % (c->pool->NumWorkers() == 1 ? 5 : 2);
      CheckedRun(*c->pool, c->orc, begin, begin + num, 6, c->salt);
    }
  }
}
}  // namespace

SIM_SCENARIO(C05, independent_pools, 3) {
  CommonFaults();
  ChooseSpinCpu();
  SetStepBudget(120000, 4000000);
  const int clients = static_cast<int>(2 + Gen(3));
  std::vector<std::unique_ptr<Client>> cs;
  std::vector<int> tids;
  for (int i = 0; i < clients; ++i) {
    cs.push_back(std::make_unique<Client>(
        Client{nullptr, nullptr, static_cast<int>(1 + Gen(4)), static_cast<uint64_t>(i), true, 1 + Gen(3)}));
    tids.push_back(Spawn(&ClientMain, cs.back().get()));
  }
  PoolHolder own(1 + Gen(3));
  OrcPool* orc = OrcNewPool(own->NumWorkers(), "main pool");
  History(*own, orc, static_cast<int>(1 + Gen(4)), false);
  for (int t : tids) Join(t);
}

SIM_SCENARIO(C05, shared_trivial, 2) {
  CommonFaults();
  ChooseSpinCpu();
  SetStepBudget(120000, 4000000);
  const bool no_threads = Gen(3) == 0;
  PoolHolder shared(no_threads ? 0 : 1 + Gen(4));
  OrcPool* orc = OrcNewPool(shared->NumWorkers(), "shared pool");
  const int clients = static_cast<int>(1 + Gen(4));
  std::vector<std::unique_ptr<Client>> cs;
  std::vector<int> tids;
  for (int i = 0; i < clients; ++i) {
    cs.push_back(std::make_unique<Client>(
        Client{&*shared, orc, static_cast<int>(1 + Gen(6)), static_cast<uint64_t>(i), false, 0}));
    tids.push_back(Spawn(&ClientMain, cs.back().get()));
  }
  // The owner may run non-trivial work meanwhile.
  const int ops = static_cast<int>(Gen(5));
  for (int i = 0; i < ops; ++i) CheckedRun(*shared, orc, 0, GenNumTasks(shared->NumWorkers()), 5, 77);
  for (int t : tids) Join(t);
}

SIM_SCENARIO(C05, nested, 4) {
  CommonFaults();
  ChooseSpinCpu();
  SetStepBudget(150000, 4000000);
  const size_t threads = 1 + Gen(3);
  PoolHolder outer(threads);
  OrcPool* orc = OrcNewPool(threads + 1, "outer pool");
  if (GenBool()) outer->SetWaitMode(PoolWaitMode::kSpin);
  // One inner pool per outer worker.
  std::vector<std::unique_ptr<PoolHolder>> inner;
  std::vector<OrcPool*> inner_orc;
  const bool with_inner = GenBool();
  const bool on_the_fly = Gen(4) == 0;
  for (size_t w = 0; w <= threads && with_inner; ++w) {
    inner.push_back(std::make_unique<PoolHolder>(Gen(3)));
    inner_orc.push_back(OrcNewPool((*inner.back())->NumWorkers(), "inner pool"));
  }
  const int runs = static_cast<int>(1 + Gen(3));
  for (int i = 0; i < runs; ++i) {
    const uint64_t num = 2 + Gen(2 * threads + 2);
    OrcRun* r = OrcStart(orc, 0, num, false);
    outer->Run(0, num, [&](uint64_t task, size_t worker) {
      OrcEnter(r, task, worker);
      // A trivial Run on the same pool from inside its closure.
      CheckedRun(*outer, orc, task * 10, task * 10 + (task & 1), 3, task);
      if (with_inner) CheckedRun(**inner[worker], inner_orc[worker], 0, 1 + task % 5, 3, task);
      if (on_the_fly && task == 1) {
        PoolHolder temp(2);
        OrcPool* temp_orc = OrcNewPool(3, "temporary pool");
        CheckedRun(*temp, temp_orc, 0, 5, 3, task);
      }
      OrcLeave(r, task, worker);
    });
    OrcFinish(r);
  }
}
