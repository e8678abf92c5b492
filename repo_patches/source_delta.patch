From 828ec6df655b2a6bcd007922f4a3927e03cfe677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 01/44] Add guarded simulation hooks (HWY_SIM_HOOKS, off by
 default)

---
 hwy/cache_control.h            | 11 +++++++++++
 hwy/contrib/thread_pool/spin.h | 21 +++++++++++++++++----
 hwy/targets.cc                 |  8 +++++++-
 hwy/timer.h                    | 12 ++++++++++--
 hwy/x86_cpuid.h                |  8 +++++++-
 5 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/hwy/cache_control.h b/hwy/cache_control.h
index bdfa959..893157c 100644
--- a/hwy/cache_control.h
+++ b/hwy/cache_control.h
@@ -35,6 +35,11 @@
 #endif
 #endif  // HWY_DISABLE_CACHE_CONTROL
 
+#ifdef HWY_SIM_HOOKS  // deterministic simulation: scheduling points
+extern "C" void hwy_sim_pause(void);
+extern "C" void hwy_sim_flush_stream(void);
+#endif
+
 namespace hwy {
 
 // Even if N*sizeof(T) is smaller, Stream may write a multiple of this size.
@@ -71,6 +76,9 @@ HWY_INLINE HWY_ATTR_CACHE void LoadFence() {
 // outputs are to be consumed by other core(s), the producer must publish
 // availability (e.g. via mutex or atomic_flag) after `FlushStream`.
 HWY_INLINE HWY_ATTR_CACHE void FlushStream() {
+#ifdef HWY_SIM_HOOKS
+  hwy_sim_flush_stream();
+#endif
 #if HWY_ARCH_X86 && !defined(HWY_DISABLE_CACHE_CONTROL)
   _mm_sfence();
 #endif
@@ -106,6 +114,9 @@ HWY_INLINE HWY_ATTR_CACHE void FlushCacheline(const void* p) {
 // outstanding load requests, which reduces the memory order violation penalty
 // when exiting the loop.
 HWY_INLINE HWY_ATTR_CACHE void Pause() {
+#ifdef HWY_SIM_HOOKS
+  hwy_sim_pause();
+#endif
 #ifndef HWY_DISABLE_CACHE_CONTROL
 #if HWY_ARCH_X86
   _mm_pause();
diff --git a/hwy/contrib/thread_pool/spin.h b/hwy/contrib/thread_pool/spin.h
index 19b8399..98914e9 100644
--- a/hwy/contrib/thread_pool/spin.h
+++ b/hwy/contrib/thread_pool/spin.h
@@ -66,6 +66,11 @@
 #include "hwy/x86_cpuid.h"
 #endif  // HWY_ENABLE_MONITORX || HWY_ENABLE_UMONITOR
 
+#ifdef HWY_SIM_HOOKS  // deterministic simulation of the monitor hardware
+extern "C" void hwy_sim_monitor(const void* addr);
+extern "C" void hwy_sim_wait(void);
+#endif
+
 namespace hwy {
 
 // Returned by `UntilDifferent` in a single register.
@@ -173,7 +178,9 @@ class SpinMonitorX {
  private:
   static HWY_INLINE void Monitor(const void* addr) {
     // No extensions/hints currently defined.
-#if HWY_ENABLE_SPIN_ASM
+#ifdef HWY_SIM_HOOKS
+    hwy_sim_monitor(addr);
+#elif HWY_ENABLE_SPIN_ASM
     asm volatile("monitorx" ::"a"(addr), "c"(0), "d"(0));
 #else
     _mm_monitorx(const_cast<void*>(addr), 0, 0);
@@ -181,7 +188,9 @@ class SpinMonitorX {
   }
 
   static HWY_INLINE void Wait() {
-#if HWY_ENABLE_SPIN_ASM
+#ifdef HWY_SIM_HOOKS
+    hwy_sim_wait();
+#elif HWY_ENABLE_SPIN_ASM
     // EBX=0 cycles means no timeout/infinite.
     asm volatile("mwaitx" ::"a"(kHints), "b"(0), "c"(kExtensions));
 #else
@@ -241,7 +250,9 @@ class SpinUMonitor {
 
  private:
   static HWY_INLINE void Monitor(const void* addr) {
-#if HWY_ENABLE_SPIN_ASM
+#ifdef HWY_SIM_HOOKS
+    hwy_sim_monitor(addr);
+#elif HWY_ENABLE_SPIN_ASM
     asm volatile("umonitor %%rcx" ::"c"(addr));
 #else
     _umonitor(const_cast<void*>(addr));
@@ -249,7 +260,9 @@ class SpinUMonitor {
   }
 
   static HWY_INLINE void Wait() {
-#if HWY_ENABLE_SPIN_ASM
+#ifdef HWY_SIM_HOOKS
+    hwy_sim_wait();
+#elif HWY_ENABLE_SPIN_ASM
     asm volatile("umwait %%ecx" ::"c"(kControl), "d"(kDeadline >> 32),
                  "a"(kDeadline & 0xFFFFFFFFu));
 #else
diff --git a/hwy/targets.cc b/hwy/targets.cc
index e976da7..5615f1f 100644
--- a/hwy/targets.cc
+++ b/hwy/targets.cc
@@ -116,8 +116,14 @@ namespace x86 {
 
 // Returns the lower 32 bits of extended control register 0.
 // Requires CPU support for "OSXSAVE" (see below).
+#ifdef HWY_SIM_HOOKS
+extern "C" uint32_t hwy_sim_xcr0(void);
+#endif
+
 static uint32_t ReadXCR0() {
-#if HWY_COMPILER_MSVC
+#ifdef HWY_SIM_HOOKS
+  return hwy_sim_xcr0();
+#elif HWY_COMPILER_MSVC
   return static_cast<uint32_t>(_xgetbv(0));
 #else   // HWY_COMPILER_MSVC
   uint32_t xcr0, xcr0_high;
diff --git a/hwy/timer.h b/hwy/timer.h
index 16a4702..e780177 100644
--- a/hwy/timer.h
+++ b/hwy/timer.h
@@ -95,6 +95,10 @@ static inline double SecondsSince(const Timestamp& t0) {
 
 // Low-level Start/Stop functions, previously in timer-inl.h.
 
+#ifdef HWY_SIM_HOOKS  // deterministic simulation supplies the tick counter
+extern "C" uint64_t hwy_sim_ticks(void);
+#endif
+
 namespace timer {
 
 // Ticks := platform-specific timer values (CPU cycles on x86). Must be
@@ -154,7 +158,9 @@ using Ticks = uint64_t;
 // divide by InvariantTicksPerSecond.
 static HWY_INLINE Ticks Start() {
   Ticks t;
-#if HWY_ARCH_PPC && defined(__GLIBC__) && defined(__powerpc64__)
+#ifdef HWY_SIM_HOOKS
+  t = hwy_sim_ticks();
+#elif HWY_ARCH_PPC && defined(__GLIBC__) && defined(__powerpc64__)
   asm volatile("mfspr %0, %1" : "=r"(t) : "i"(268));
 #elif HWY_ARCH_ARM_A64 && !HWY_COMPILER_MSVC
   // pmccntr_el0 is privileged but cntvct_el0 is accessible in Linux and QEMU.
@@ -200,7 +206,9 @@ static HWY_INLINE Ticks Start() {
 // WARNING: on x86, caller must check `HaveTimerStop()` before using this!
 static HWY_INLINE Ticks Stop() {
   uint64_t t;
-#if HWY_ARCH_PPC && defined(__GLIBC__) && defined(__powerpc64__)
+#ifdef HWY_SIM_HOOKS
+  t = hwy_sim_ticks();
+#elif HWY_ARCH_PPC && defined(__GLIBC__) && defined(__powerpc64__)
   asm volatile("mfspr %0, %1" : "=r"(t) : "i"(268));
 #elif HWY_ARCH_ARM_A64 && !HWY_COMPILER_MSVC
   // pmccntr_el0 is privileged but cntvct_el0 is accessible in Linux and QEMU.
diff --git a/hwy/x86_cpuid.h b/hwy/x86_cpuid.h
index e5495a7..dcceb7d 100644
--- a/hwy/x86_cpuid.h
+++ b/hwy/x86_cpuid.h
@@ -30,6 +30,10 @@
 #include <cpuid.h>
 #endif
 
+#ifdef HWY_SIM_HOOKS  // deterministic simulation supplies the CPU description
+extern "C" void hwy_sim_cpuid(uint32_t level, uint32_t count, uint32_t* abcd);
+#endif
+
 namespace hwy {
 namespace x86 {
 
@@ -37,7 +41,9 @@ namespace x86 {
 // in abcd array where abcd = {eax, ebx, ecx, edx} (hence the name abcd).
 static inline void Cpuid(const uint32_t level, const uint32_t count,
                          uint32_t* HWY_RESTRICT abcd) {
-#if HWY_COMPILER_MSVC || HWY_COMPILER_CLANGCL
+#ifdef HWY_SIM_HOOKS
+  hwy_sim_cpuid(level, count, abcd);
+#elif HWY_COMPILER_MSVC || HWY_COMPILER_CLANGCL
   int regs[4];
   __cpuidex(regs, level, count);
   for (int i = 0; i < 4; ++i) {
-- 
2.43.0


From 78b8e3c4348f792f74e26ebb6055b28ad4ce5a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 02/44] fix: ThreadPool futex wait tolerates EINTR in debug
 builds

---
 hwy/contrib/thread_pool/futex.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwy/contrib/thread_pool/futex.h b/hwy/contrib/thread_pool/futex.h
index 76d6349..77a0dbd 100644
--- a/hwy/contrib/thread_pool/futex.h
+++ b/hwy/contrib/thread_pool/futex.h
@@ -155,7 +155,9 @@ static inline uint32_t BlockUntilDifferent(
     // the timespec type is only standardized since C++17 or C11.
     const auto ret = syscall(SYS_futex, address, op, prev, nullptr, nullptr, 0);
     if (ret == -1) {
-      HWY_DASSERT(errno == EAGAIN);  // otherwise an actual error
+      // EAGAIN: already changed. EINTR: interrupted by a signal handler, also
+      // retry. Otherwise an actual error.
+      HWY_DASSERT(errno == EAGAIN || errno == EINTR);
     }
   }
 
-- 
2.43.0


From 34a343bd530d83a6034d0d0f2676aedb7ac1482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 03/44] fix: ThreadPool::Run with end close to the largest u64
 called tasks outside the range

---
 hwy/contrib/thread_pool/thread_pool.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hwy/contrib/thread_pool/thread_pool.h b/hwy/contrib/thread_pool/thread_pool.h
index 0d6a518..6329bb3 100644
--- a/hwy/contrib/thread_pool/thread_pool.h
+++ b/hwy/contrib/thread_pool/thread_pool.h
@@ -453,7 +453,8 @@ class alignas(8) Tasks {
     opaque_.store(reinterpret_cast<const void*>(&closure), kRel);
   }
 
-  // Assigns workers their share of `[begin, end)`. Called from the main
+  // Assigns workers their share of `[begin, end)`, stored relative to `begin`
+  // (see `WorkerRunWithStealing`). Called from the main
   // thread; workers are initializing or spinning for a command.
   static void DivideRangeAmongWorkers(const uint64_t begin, const uint64_t end,
                                       const Divisor64& div_workers,
@@ -470,13 +471,15 @@ class alignas(8) Tasks {
     const size_t remainder =
         static_cast<size_t>(div_workers.Remainder(num_tasks));
 
-    uint64_t my_begin = begin;
+    // Relative to `begin`, so that `WorkerReserveTask` cannot wrap around if
+    // `end` is close to the largest u64.
+    uint64_t my_begin = 0;
     for (size_t worker = 0; worker < num_workers; ++worker) {
       const uint64_t my_end = my_begin + min_tasks + (worker < remainder);
       workers[worker].SetRange(my_begin, my_end);
       my_begin = my_end;
     }
-    HWY_DASSERT(my_begin == end);
+    HWY_DASSERT(my_begin == num_tasks);
   }
 
   // Runs the worker's assigned range of tasks, plus work stealing if needed.
@@ -495,9 +498,9 @@ class alignas(8) Tasks {
     const uint64_t end = end_.load(kAcq);
     HWY_DASSERT(begin <= end);
 
-    const uint64_t task = begin + worker;
     // We might still have more workers than tasks, so check first.
-    if (HWY_LIKELY(task < end)) {
+    if (HWY_LIKELY(worker < end - begin)) {
+      const uint64_t task = begin + worker;
       const void* opaque = Opaque();
       const RunFunc func = Func();
       func(opaque, task, worker);
@@ -519,6 +522,7 @@ class alignas(8) Tasks {
   HWY_POOL_PROFILE void WorkerRunWithStealing(Worker* worker) const {
     Worker* workers = worker->AllWorkers();
     const size_t index = worker->Index();
+    const uint64_t begin = begin_.load(kAcq);
     const RunFunc func = Func();
     const void* opaque = Opaque();
 
@@ -540,7 +544,7 @@ class alignas(8) Tasks {
         }
         // Pass the index we are actually running on; this is important
         // because it is the TLS index for user code.
-        func(opaque, task, index);
+        func(opaque, begin + task, index);
       }
     }
   }
-- 
2.43.0


From 5ad192cd0a0047b86647f34f8e15e2affedf7b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 04/44] fix: ThreadPool barrier counters shared storage with
 the epochs of the last workers

---
 hwy/contrib/thread_pool/thread_pool.h | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/hwy/contrib/thread_pool/thread_pool.h b/hwy/contrib/thread_pool/thread_pool.h
index 6329bb3..e884a53 100644
--- a/hwy/contrib/thread_pool/thread_pool.h
+++ b/hwy/contrib/thread_pool/thread_pool.h
@@ -368,6 +368,12 @@ class alignas(HWY_ALIGNMENT) Worker {  // HWY_ALIGNMENT bytes
   std::atomic<uint32_t>& MutableBarrier() { return barrier_epoch_; }
   void StoreBarrier(uint32_t epoch) { barrier_epoch_.store(epoch, kRel); }
 
+  // Separate from the epoch, so that counts left over from `BarrierCounter`
+  // cannot be mistaken for the epoch of a subsequent barrier.
+  const std::atomic<uint32_t>& Arrived() const { return num_arrived_; }
+  std::atomic<uint32_t>& MutableArrived() { return num_arrived_; }
+  void StoreArrived(uint32_t count) { num_arrived_.store(count, kRel); }
+
  private:
   // Atomics first because arm7 clang otherwise makes them unaligned.
 
@@ -377,7 +383,8 @@ class alignas(HWY_ALIGNMENT) Worker {  // HWY_ALIGNMENT bytes
 
   // Use u32 to match futex.h.
   alignas(4) std::atomic<uint32_t> wait_epoch_{0};
-  alignas(4) std::atomic<uint32_t> barrier_epoch_{0};  // is reset
+  alignas(4) std::atomic<uint32_t> barrier_epoch_{0};
+  alignas(4) std::atomic<uint32_t> num_arrived_{0};  // is reset
 
   uint32_t num_victims_;  // <= kPoolMaxVictims
   std::array<uint32_t, kMaxVictims> victims_;
@@ -666,7 +673,7 @@ class BarrierCounter {
     for (size_t i = 0; i < kShards; ++i) {
       // Use last worker(s) to avoid contention with other stores to the Worker.
       // Note that there are kMaxThreads + 1 workers, hence i == 0 is the last.
-      workers[kMaxThreads - i].StoreBarrier(0);
+      workers[kMaxThreads - i].StoreArrived(0);
     }
   }
 
@@ -675,7 +682,7 @@ class BarrierCounter {
                      uint32_t /*epoch*/) const {
     const size_t shard = worker->Index() & (kShards - 1);
     const auto kAcqRel = std::memory_order_acq_rel;
-    worker->AllWorkers()[kMaxThreads - shard].MutableBarrier().fetch_add(
+    worker->AllWorkers()[kMaxThreads - shard].MutableArrived().fetch_add(
         1, kAcqRel);
   }
 
@@ -684,14 +691,14 @@ class BarrierCounter {
                     uint32_t /*epoch*/) const {
     HWY_IF_CONSTEXPR(kShards == 1) {
       (void)spin.UntilEqual(static_cast<uint32_t>(num_threads),
-                            workers[kMaxThreads].Barrier());
+                            workers[kMaxThreads].Arrived());
     }
     HWY_IF_CONSTEXPR(kShards == 2) {
       const auto kAcq = std::memory_order_acquire;
       for (;;) {
         hwy::Pause();
-        const uint64_t sum = workers[kMaxThreads - 0].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 1].Barrier().load(kAcq);
+        const uint64_t sum = workers[kMaxThreads - 0].Arrived().load(kAcq) +
+                             workers[kMaxThreads - 1].Arrived().load(kAcq);
         if (sum == num_threads) break;
       }
     }
@@ -699,10 +706,10 @@ class BarrierCounter {
       const auto kAcq = std::memory_order_acquire;
       for (;;) {
         hwy::Pause();
-        const uint64_t sum = workers[kMaxThreads - 0].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 1].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 2].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 3].Barrier().load(kAcq);
+        const uint64_t sum = workers[kMaxThreads - 0].Arrived().load(kAcq) +
+                             workers[kMaxThreads - 1].Arrived().load(kAcq) +
+                             workers[kMaxThreads - 2].Arrived().load(kAcq) +
+                             workers[kMaxThreads - 3].Arrived().load(kAcq);
         if (sum == num_threads) break;
       }
     }
-- 
2.43.0


From cb808bb740d327408604634c747ec11a7cbcd5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 05/44] fix: AutoTune::Candidates aborted in debug builds once
 tuning finished

---
 hwy/auto_tune.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/auto_tune.h b/hwy/auto_tune.h
index 3cf27c4..4eef34a 100644
--- a/hwy/auto_tune.h
+++ b/hwy/auto_tune.h
@@ -420,7 +420,7 @@ class AutoTune {
 
   // Typically called after Best() is non-null to compare all candidates' costs.
   Span<const Config> Candidates() const {
-    HWY_DASSERT(HasCandidates());
+    HWY_DASSERT(!candidates_.empty());  // not HasCandidates(): may be finished
     return Span<const Config>(candidates_.data(), candidates_.size());
   }
   Span<CostDistribution> Costs() {
-- 
2.43.0


From 85271165a460c2d9f5cf55b246065939ec87ff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 06/44] fix: SupportedTargets re-enabled disabled targets for
 dynamic dispatch

SupportedTargets() updated the chosen target with the detected targets before
removing those disabled via DisableTargets. A mere query, or a concurrent first
dispatch in another thread, thus made HWY_DYNAMIC_DISPATCH call a disabled
target.
---
 hwy/targets.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hwy/targets.cc b/hwy/targets.cc
index 5615f1f..376775a 100644
--- a/hwy/targets.cc
+++ b/hwy/targets.cc
@@ -791,21 +791,25 @@ HWY_DLLEXPORT void SetSupportedTargetsForTest(int64_t targets) {
 
 HWY_DLLEXPORT int64_t SupportedTargets() {
   int64_t targets = supported_targets_for_test_;
-  if (HWY_LIKELY(targets == 0)) {
+  const bool is_mocked = targets != 0;
+  if (HWY_LIKELY(!is_mocked)) {
     // Mock not active. Re-detect instead of caching just in case we're on a
     // heterogeneous ISA (also requires some app support to pin threads). This
     // is only reached on the first HWY_DYNAMIC_DISPATCH or after each call to
     // DisableTargets or SetSupportedTargetsForTest.
     targets = DetectTargets();
+  }
+
+  targets &= supported_mask_;
+  if (targets == 0) targets = HWY_STATIC_TARGET;
 
+  if (HWY_LIKELY(!is_mocked)) {
     // VectorBytes invokes HWY_DYNAMIC_DISPATCH. To prevent infinite recursion,
-    // first set up ChosenTarget. No need to Update() again afterwards with the
-    // final targets - that will be done by a caller of this function.
+    // first set up ChosenTarget. This must not include disabled targets because
+    // callers that only query, or other threads, would then dispatch to them.
     GetChosenTarget().Update(targets);
   }
-
-  targets &= supported_mask_;
-  return targets == 0 ? HWY_STATIC_TARGET : targets;
+  return targets;
 }
 
 HWY_DLLEXPORT ChosenTarget& GetChosenTarget() {
-- 
2.43.0


From cb536a34529173d3e19c7d503a0a44f38941e01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 07/44] fix: do not report AVX10.2 targets if the OS does not
 save opmask/ZMM state

EVEX-encoded instructions raise #UD unless XCR0[7:5] are set, hence AVX10_2 and
AVX10_2_512 must be cleared like the AVX3 targets.
---
 hwy/targets.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hwy/targets.cc b/hwy/targets.cc
index 376775a..2e1fa4d 100644
--- a/hwy/targets.cc
+++ b/hwy/targets.cc
@@ -411,7 +411,10 @@ static int64_t DetectTargets() {
 #endif
 
     const uint32_t xcr0 = ReadXCR0();
-    constexpr int64_t min_avx3 = HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_SPR;
+    // All of these (including 256-bit AVX10.2) use EVEX encodings, which raise
+    // #UD unless the OS enabled the opmask and ZMM state.
+    constexpr int64_t min_avx3 = HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_SPR |
+                                 HWY_AVX10_2 | HWY_AVX10_2_512;
     // XMM/YMM
     if (!IsBitSet(xcr0, 1) || !IsBitSet(xcr0, 2)) {
       // Clear the AVX2/AVX3 bits if XMM/YMM XSAVE is not enabled
-- 
2.43.0


From 611301f8b3b8dd5a295827500b09a795d508874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 08/44] fix: Warn and Abort threw std::bad_alloc when out of
 memory

The default handlers copied the file name into a std::string. If that allocation
failed, Abort left via an exception (despite HWY_NORETURN) and the message was
lost.
---
 hwy/abort.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hwy/abort.cc b/hwy/abort.cc
index a67819b..72d8632 100644
--- a/hwy/abort.cc
+++ b/hwy/abort.cc
@@ -10,7 +10,6 @@
 #include <stdlib.h>
 
 #include <atomic>
-#include <string>
 
 #include "hwy/base.h"
 
@@ -32,9 +31,13 @@ std::atomic<AbortFunc>& AtomicAbortFunc() {
   return func;
 }
 
-std::string GetBaseName(std::string const& file_name) {
-  auto last_slash = file_name.find_last_of("/\\");
-  return file_name.substr(last_slash + 1);
+// Does not allocate: also called when out of memory.
+const char* GetBaseName(const char* file_name) {
+  const char* base = file_name;
+  for (const char* p = file_name; *p != '\0'; ++p) {
+    if (*p == '/' || *p == '\\') base = p + 1;
+  }
+  return base;
 }
 
 }  // namespace
@@ -75,7 +78,7 @@ HWY_DLLEXPORT void HWY_FORMAT(3, 4)
   if (handler != nullptr) {
     handler(file, line, buf);
   } else {
-    fprintf(stderr, "Warn at %s:%d: %s\n", GetBaseName(file).data(), line, buf);
+    fprintf(stderr, "Warn at %s:%d: %s\n", GetBaseName(file), line, buf);
   }
 }
 
@@ -91,7 +94,7 @@ HWY_DLLEXPORT HWY_NORETURN void HWY_FORMAT(3, 4)
   if (handler != nullptr) {
     handler(file, line, buf);
   } else {
-    fprintf(stderr, "Abort at %s:%d: %s\n", GetBaseName(file).data(), line,
+    fprintf(stderr, "Abort at %s:%d: %s\n", GetBaseName(file), line,
             buf);
   }
 
-- 
2.43.0


From 5b6636c06f83461a798c5e7215808c5ff64d6e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 09/44] fix: MakeUniqueAligned constructed at nullptr if the
 allocation failed

Return an empty pointer instead, as MakeUniqueAlignedArray already does.
---
 hwy/aligned_allocator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index d2f4e84..73b8ebb 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -118,8 +118,8 @@ template <typename T, typename... Args>
 AlignedUniquePtr<T> MakeUniqueAlignedWithAlloc(AllocPtr alloc, FreePtr free,
                                                void* opaque, Args&&... args) {
   T* ptr = static_cast<T*>(AllocateAlignedBytes(sizeof(T), alloc, opaque));
-  return AlignedUniquePtr<T>(new (ptr) T(std::forward<Args>(args)...),
-                             AlignedDeleter(free, opaque));
+  if (ptr != nullptr) new (ptr) T(std::forward<Args>(args)...);
+  return AlignedUniquePtr<T>(ptr, AlignedDeleter(free, opaque));
 }
 
 // Similar to MakeUniqueAlignedWithAlloc but using the default alloc/free
@@ -127,8 +127,8 @@ AlignedUniquePtr<T> MakeUniqueAlignedWithAlloc(AllocPtr alloc, FreePtr free,
 template <typename T, typename... Args>
 AlignedUniquePtr<T> MakeUniqueAligned(Args&&... args) {
   T* ptr = static_cast<T*>(AllocateAlignedBytes(sizeof(T)));
-  return AlignedUniquePtr<T>(new (ptr) T(std::forward<Args>(args)...),
-                             AlignedDeleter());
+  if (ptr != nullptr) new (ptr) T(std::forward<Args>(args)...);
+  return AlignedUniquePtr<T>(ptr, AlignedDeleter());
 }
 
 template <class T>
-- 
2.43.0


From 50508bba34a49f275756997b2e33cee516ab794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 10/44] fix: AlignedAllocator::allocate returned nullptr when
 out of memory

std::vector and other containers require allocate() to throw and wrote to the
null pointer. Also detect overflow of the byte size.
---
 hwy/aligned_allocator.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index 73b8ebb..de073a7 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -25,6 +25,7 @@
 #include <cstring>
 #include <initializer_list>
 #include <memory>
+#include <new>
 #include <type_traits>
 #include <utility>
 #include <vector>
@@ -146,8 +147,20 @@ struct AlignedAllocator {
                   "AlignedAllocator only supports integer types");
     static_assert(sizeof(V) <= sizeof(std::size_t),
                   "V n must be smaller or equal size_t to avoid overflow");
-    return static_cast<value_type*>(
-        AllocateAlignedBytes(static_cast<std::size_t>(n) * sizeof(value_type)));
+    const std::size_t items = static_cast<std::size_t>(n);
+    void* p = nullptr;
+    if (items <= ~std::size_t{0} / sizeof(value_type)) {  // no overflow
+      p = AllocateAlignedBytes(items * sizeof(value_type));
+    }
+    // Containers rely on allocators not returning null.
+    if (p == nullptr) {
+#if defined(__cpp_exceptions) || defined(_CPPUNWIND)
+      throw std::bad_alloc();
+#else
+      HWY_ABORT("AlignedAllocator: out of memory");
+#endif
+    }
+    return static_cast<value_type*>(p);
   }
 
   template <class V>
-- 
2.43.0


From 35cab3f425317a83a3fd7aa5a767341531f1f3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 11/44] fix: AlignedNDArray zero-filled nullptr if its
 allocation failed

Report the failure like ImageBase does.
---
 hwy/aligned_allocator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index de073a7..ce8b552 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -347,6 +347,7 @@ class AlignedNDArray {
     memory_shape_[axes - 1] = RoundUpTo(memory_shape_[axes - 1], VectorBytes());
     memory_sizes_ = ComputeSizes(memory_shape_);
     buffer_ = hwy::AllocateAligned<T>(memory_size());
+    HWY_ASSERT(buffer_.get() != nullptr);
     hwy::ZeroBytes(buffer_.get(), memory_size() * sizeof(T));
   }
 
-- 
2.43.0


From 28b69a50211270482e5b5aa61f1030a254adb162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 12/44] fix: scalar VQSort hung for zero keys and VQPartialSort
 read past the end if k == n

---
 hwy/contrib/sort/vqsort-inl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hwy/contrib/sort/vqsort-inl.h b/hwy/contrib/sort/vqsort-inl.h
index 94cedd3..24e1d33 100644
--- a/hwy/contrib/sort/vqsort-inl.h
+++ b/hwy/contrib/sort/vqsort-inl.h
@@ -161,7 +161,7 @@ template <class Traits, typename T>
 void HeapSort(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes) {
   constexpr size_t N1 = st.LanesPerKey();
   HWY_DASSERT(num_lanes % N1 == 0);
-  if (num_lanes == N1) return;
+  if (num_lanes <= N1) return;  // Can be zero.
 
   // Build heap.
   for (size_t i = ((num_lanes - N1) / N1 / 2) * N1; i != (~N1 + 1); i -= N1) {
@@ -232,7 +232,8 @@ void HeapSelect(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes,
 template <class Traits, typename T>
 void HeapPartialSort(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes,
                      const size_t k_lanes) {
-  HeapSelect(st, lanes, num_lanes, k_lanes);
+  // HeapSelect requires k_lanes < num_lanes.
+  if (k_lanes < num_lanes) HeapSelect(st, lanes, num_lanes, k_lanes);
   HeapSort(st, lanes, k_lanes);
 }
 
-- 
2.43.0


From 827f334817f2ba44e859cee2c5eb435e6b023bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 13/44] fix: VQPartialSort with k == 0 aborted in debug builds

---
 hwy/contrib/sort/vqsort-inl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hwy/contrib/sort/vqsort-inl.h b/hwy/contrib/sort/vqsort-inl.h
index 24e1d33..a6b3817 100644
--- a/hwy/contrib/sort/vqsort-inl.h
+++ b/hwy/contrib/sort/vqsort-inl.h
@@ -2024,8 +2024,10 @@ void PartialSort(D d, Traits st, T* HWY_RESTRICT keys, size_t num, size_t k,
     // TODO: optimize to use kLooseSelect
     detail::Recurse<detail::RecurseMode::kSelect>(d, st, keys, num, buf, state,
                                                   max_levels, k);
-    detail::Recurse<detail::RecurseMode::kSort>(d, st, keys, k, buf, state,
-                                                max_levels);
+    if (k != 0) {
+      detail::Recurse<detail::RecurseMode::kSort>(d, st, keys, k, buf, state,
+                                                  max_levels);
+    }
   }
 #else   // !VQSORT_ENABLED
   (void)d;
-- 
2.43.0


From ae34081c378310025c29c9279867d96c0b0cac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 14/44] fix: VQPartialSort and VQSelect overwrote keys with NaN

---
 hwy/contrib/sort/vqsort-inl.h | 49 +++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/hwy/contrib/sort/vqsort-inl.h b/hwy/contrib/sort/vqsort-inl.h
index a6b3817..13355a6 100644
--- a/hwy/contrib/sort/vqsort-inl.h
+++ b/hwy/contrib/sort/vqsort-inl.h
@@ -1951,6 +1951,34 @@ HWY_INLINE size_t CountAndReplaceNaN(D, Traits, T* HWY_RESTRICT, size_t) {
   return 0;
 }
 
+// Unlike a full sort, PartialSort and Select do not move all sentinels to the
+// back, so they cannot replace NaN with them. Instead, moves any NaN behind all
+// other keys and returns how many there are.
+template <class D, typename T, HWY_IF_FLOAT(T)>
+HWY_INLINE size_t MoveNaNToBack(D d, T* HWY_RESTRICT keys, size_t num) {
+  const size_t N = Lanes(d);
+  size_t end = num;
+  size_t i = 0;
+  while (i < end) {
+    if (HWY_LIKELY(end - i >= N && AllFalse(d, IsNaN(LoadU(d, keys + i))))) {
+      i += N;
+    } else if (ScalarIsNaN(keys[i])) {
+      --end;
+      const T nan = keys[i];
+      keys[i] = keys[end];
+      keys[end] = nan;
+    } else {
+      ++i;
+    }
+  }
+  return num - end;
+}
+
+template <class D, typename T, HWY_IF_NOT_FLOAT(T)>
+HWY_INLINE size_t MoveNaNToBack(D, T* HWY_RESTRICT, size_t) {
+  return 0;
+}
+
 }  // namespace detail
 
 // Old interface with user-specified buffer, retained for compatibility. Called
@@ -2013,7 +2041,9 @@ void PartialSort(D d, Traits st, T* HWY_RESTRICT keys, size_t num, size_t k,
   }
 #endif  // HWY_MAX_BYTES > 64
 
-  const size_t num_nan = detail::CountAndReplaceNaN(d, st, keys, num);
+  const size_t num_nan = detail::MoveNaNToBack(d, keys, num);
+  num -= num_nan;
+  k = HWY_MIN(k, num);
 
 #if VQSORT_ENABLED || HWY_IDE
   if (!detail::HandleSpecialCases(d, st, keys, num, buf)) {  // TODO
@@ -2039,13 +2069,13 @@ void PartialSort(D d, Traits st, T* HWY_RESTRICT keys, size_t num, size_t k,
 #endif  // VQSORT_ENABLED
 
   if (num_nan != 0) {
-    Fill(d, GetLane(NaN(d)), num_nan, keys + num - num_nan);
+    Fill(d, GetLane(NaN(d)), num_nan, keys + num);
   }
 }
 
 template <class D, class Traits, typename T>
-void Select(D d, Traits st, T* HWY_RESTRICT keys, const size_t num,
-            const size_t k, T* HWY_RESTRICT buf) {
+void Select(D d, Traits st, T* HWY_RESTRICT keys, size_t num, const size_t k,
+            T* HWY_RESTRICT buf) {
   if (VQSORT_PRINT >= 1) {
     fprintf(stderr, "=============== Select %s num=%zu, k=%zu vec bytes=%zu\n",
             st.KeyString(), num, k, sizeof(T) * Lanes(d));
@@ -2059,10 +2089,13 @@ void Select(D d, Traits st, T* HWY_RESTRICT keys, const size_t num,
   }
 #endif  // HWY_MAX_BYTES > 64
 
-  const size_t num_nan = detail::CountAndReplaceNaN(d, st, keys, num);
+  const size_t num_nan = detail::MoveNaNToBack(d, keys, num);
+  num -= num_nan;
 
 #if VQSORT_ENABLED || HWY_IDE
-  if (!detail::HandleSpecialCases(d, st, keys, num, buf)) {  // TODO
+  // If k is among the NaN, all other keys are already before it.
+  if (k < num &&
+      !detail::HandleSpecialCases(d, st, keys, num, buf)) {  // TODO
     uint64_t* HWY_RESTRICT state = hwy::detail::GetGeneratorStateStatic();
     // Introspection: switch to worst-case N*logN heapsort after this many.
     // Should never be reached, so computing log2 exactly does not help.
@@ -2076,11 +2109,11 @@ void Select(D d, Traits st, T* HWY_RESTRICT keys, const size_t num,
   if (VQSORT_PRINT >= 1) {
     HWY_WARN("using slow HeapSort because vqsort disabled\n");
   }
-  detail::HeapSelect(st, keys, num, k);
+  if (k < num) detail::HeapSelect(st, keys, num, k);
 #endif  // VQSORT_ENABLED
 
   if (num_nan != 0) {
-    Fill(d, GetLane(NaN(d)), num_nan, keys + num - num_nan);
+    Fill(d, GetLane(NaN(d)), num_nan, keys + num);
   }
 }
 
-- 
2.43.0


From b3dde0f1b78053d8845c760834fc5d38e8cd5ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 15/44] Profiler: fewer calibration repetitions under
 HWY_SIM_HOOKS (off by default)

---
 hwy/profiler.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hwy/profiler.h b/hwy/profiler.h
index 29f697d..3166cc1 100644
--- a/hwy/profiler.h
+++ b/hwy/profiler.h
@@ -596,7 +596,11 @@ inline void ThreadSpecific::ComputeOverhead() {
     const size_t kNumSamples = 32;
     uint32_t samples[kNumSamples];
     for (size_t idx_sample = 0; idx_sample < kNumSamples; ++idx_sample) {
+#ifdef HWY_SIM_HOOKS  // Simulated clocks require fewer samples.
+      const size_t kNumDurations = 64;
+#else
       const size_t kNumDurations = 1024;
+#endif
       uint32_t durations[kNumDurations];
 
       for (size_t idx_duration = 0; idx_duration < kNumDurations;
@@ -629,7 +633,11 @@ inline void ThreadSpecific::ComputeOverhead() {
     uint32_t durations[kNumDurations];
     for (size_t idx_duration = 0; idx_duration < kNumDurations;
          ++idx_duration) {
+#ifdef HWY_SIM_HOOKS
+      const size_t kReps = 20;
+#else
       const size_t kReps = 10000;
+#endif
       // Analysis time should not be included => must fit within buffer.
       HWY_DASSERT(kReps * 2 < max_packets_);
       std::atomic_thread_fence(std::memory_order_seq_cst);
-- 
2.43.0


From b53f11579e02ef846d54fcdbc0fdb7500b2ee624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:08 +0000
Subject: [PATCH 16/44] fix: profiler aborted in debug builds of binaries
 linked at a low address

---
 hwy/profiler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwy/profiler.h b/hwy/profiler.h
index 3166cc1..0b7b334 100644
--- a/hwy/profiler.h
+++ b/hwy/profiler.h
@@ -403,7 +403,8 @@ class ThreadSpecific {
   void ComputeOverhead();
 
   void WriteEntry(const char* name, const uint64_t timestamp) {
-    HWY_DASSERT(name >= string_origin_);
+    // Packet::Make checks the range; `string_origin_` is already biased and may
+    // have wrapped around if the binary is loaded below `kOffsetBias`.
     const size_t biased_offset = static_cast<size_t>(name - string_origin_);
     Write(Packet::Make(biased_offset, timestamp));
   }
-- 
2.43.0


From 22a233ddf2f213d2d957ecac4d0fcfaea45d6159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 17/44] fix: printing profiler results crashed if no zone was
 entered

---
 hwy/profiler.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hwy/profiler.h b/hwy/profiler.h
index 0b7b334..ef980db 100644
--- a/hwy/profiler.h
+++ b/hwy/profiler.h
@@ -498,6 +498,7 @@ class ThreadList {
   void PrintResults() {
     const auto acq = std::memory_order_acquire;
     const size_t num_threads = num_threads_.load(acq);
+    if (num_threads == 0) return;  // No zone was entered.
 
     ThreadSpecific* main = threads_[0].load(acq);
     main->AnalyzeRemainingPackets();
@@ -508,9 +509,7 @@ class ThreadList {
       main->GetResults().Assimilate(ts->GetResults());
     }
 
-    if (num_threads != 0) {
-      main->GetResults().Print();
-    }
+    main->GetResults().Print();
   }
 
  private:
-- 
2.43.0


From 4931a0c7198758f9d974bc4a154d3cb1313bbff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 18/44] fix: profiler printed the last duplicate zone twice

---
 hwy/profiler.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hwy/profiler.h b/hwy/profiler.h
index ef980db..0eab1ab 100644
--- a/hwy/profiler.h
+++ b/hwy/profiler.h
@@ -355,9 +355,8 @@ class Results {
         if (!strcmp(name, string_origin + zones_[j].BiasedOffset())) {
           num_calls += zones_[j].NumCalls();
           zones_[i].Add(0, zones_[j].Duration());
-          // j was the last zone, so we are done.
-          if (j == num_zones_ - 1) break;
-          // Replace current zone with the last one, and check it next.
+          // Replace current zone with the last one (a no-op, and the end of this
+          // loop, if j was the last), and check it next.
           zones_[j] = zones_[--num_zones_];
         } else {  // Name differed, try next Accumulator.
           ++j;
-- 
2.43.0


From 2fcc93657fc53094159ee7f5ca1ea885c62459da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 19/44] fix: nanobenchmark returned wrapped-around durations if
 the overhead exceeded them

---
 hwy/nanobenchmark.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hwy/nanobenchmark.cc b/hwy/nanobenchmark.cc
index 0a885d2..8ee0086 100644
--- a/hwy/nanobenchmark.cc
+++ b/hwy/nanobenchmark.cc
@@ -289,6 +289,16 @@ HWY_DLLEXPORT size_t Measure(const Func func, const uint8_t* arg,
       return 0;
     }
 
+    // Also fail if the overhead exceeds what was measured: the difference below
+    // would wrap around.
+    if (total - total_skip < overhead - overhead_skip) {
+      HWY_WARN("Measurement failed: total %f - %f < overhead %f - %f\n",
+               static_cast<double>(total), static_cast<double>(total_skip),
+               static_cast<double>(overhead),
+               static_cast<double>(overhead_skip));
+      return 0;
+    }
+
     const timer::Ticks duration =
         (total - overhead) - (total_skip - overhead_skip);
     results[i].input = unique[i];
-- 
2.43.0


From 41ba16aa848e63ba0ddb6e30755c98d31adc6605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 20/44] fix: nanobenchmark variability was NaN or infinite if
 the estimated duration is zero

---
 hwy/nanobenchmark.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwy/nanobenchmark.cc b/hwy/nanobenchmark.cc
index 8ee0086..c4ed065 100644
--- a/hwy/nanobenchmark.cc
+++ b/hwy/nanobenchmark.cc
@@ -84,7 +84,9 @@ timer::Ticks SampleUntilStable(const double max_rel_mad, double* rel_mad,
     // Median absolute deviation (mad) is a robust measure of 'variability'.
     const timer::Ticks abs_mad = robust_statistics::MedianAbsoluteDeviation(
         samples.data(), samples.size(), est);
-    *rel_mad = static_cast<double>(abs_mad) / static_cast<double>(est);
+    // A coarse timer can report zero; avoid returning NaN or infinity.
+    *rel_mad = static_cast<double>(abs_mad) /
+               static_cast<double>(HWY_MAX(est, timer::Ticks{1}));
 
     if (*rel_mad <= max_rel_mad || abs_mad <= max_abs_mad) {
       if (p.verbose) {
-- 
2.43.0


From 1e6293f2af12ceccf3ef2330b458099a961f79c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:21 +0000
Subject: [PATCH 21/44] fix: PerfCounters::Init returned true although no
 counter is available

---
 hwy/perf_counters.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/perf_counters.cc b/hwy/perf_counters.cc
index 472d19b..4884d21 100644
--- a/hwy/perf_counters.cc
+++ b/hwy/perf_counters.cc
@@ -290,7 +290,7 @@ class PMU {
       return true;
     } else {
       HWY_WARN("No valid counters found.");
-      return true;
+      return false;
     }
   }
 
-- 
2.43.0


From 25b7cbaa7f0bd87e8124e74df1b555a2d618603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 22/44] fix: GetThreadAffinity did not remove other processors
 from the caller's set

---
 hwy/contrib/thread_pool/topology.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index e01bb7c..1403d88 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -326,6 +326,7 @@ HWY_CONTRIB_DLLEXPORT bool GetThreadAffinity(LogicalProcessorSet& lps) {
   CPU_ZERO(&set);
   const int err = GetAffinity(&set);
   if (err != 0) return false;
+  lps = LogicalProcessorSet();  // clear all
   for (size_t lp = 0; lp < kMaxLogicalProcessors; ++lp) {
     if (IsSet(lp, &set)) lps.Set(lp);
   }
-- 
2.43.0


From e4107fce56d2af42824836dfb1ca8385f0b49fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 23/44] fix: ThreadPool::MaxThreads wrapped around if the
 number of processors is unknown

---
 hwy/contrib/thread_pool/thread_pool.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hwy/contrib/thread_pool/thread_pool.h b/hwy/contrib/thread_pool/thread_pool.h
index e884a53..122a68c 100644
--- a/hwy/contrib/thread_pool/thread_pool.h
+++ b/hwy/contrib/thread_pool/thread_pool.h
@@ -1023,10 +1023,12 @@ class alignas(HWY_ALIGNMENT) ThreadPool {
     LogicalProcessorSet lps;
     // This is OS dependent, but more accurate if available because it takes
     // into account restrictions set by cgroups or numactl/taskset.
-    if (GetThreadAffinity(lps)) {
+    if (GetThreadAffinity(lps) && lps.Any()) {
       return lps.Count() - 1;
     }
-    return static_cast<size_t>(std::thread::hardware_concurrency() - 1);
+    // May return 0 if unknown.
+    const size_t num = std::thread::hardware_concurrency();
+    return num == 0 ? 0 : num - 1;
   }
 
   // `num_threads` is the number of *additional* threads to spawn, which should
-- 
2.43.0


From 60343c3085f11a53e5ca57c87801dd4306a4026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 24/44] fix: Topology aborted if a NUMA node has no processors

---
 hwy/contrib/thread_pool/topology.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 1403d88..691b75d 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -571,6 +571,9 @@ std::vector<size_t> ExpandList(const char* list, size_t list_end,
   constexpr size_t kNotFound = ~size_t{0};
   size_t pos = 0;
 
+  // Empty list, e.g. for NUMA nodes which only have memory.
+  if (list_end == 0 || list[0] == '\0' || list[0] == '\n') return expanded;
+
   // Returns first `found_pos >= pos` where `list[found_pos] == c`, or
   // `kNotFound`.
   const auto find = [list, list_end, &pos](char c) -> size_t {
-- 
2.43.0


From bf503b02a59a3993796df070dfb6d0c3f31f993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:08 +0000
Subject: [PATCH 25/44] fix: Topology and DataCaches aborted if sysfs lists
 more processors than TotalLogicalProcessors

---
 hwy/contrib/thread_pool/topology.cc | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 691b75d..e1cc7ac 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -565,6 +565,9 @@ std::vector<PackageSizes> DetectPackages(std::vector<Topology::LP>& lps) {
   return package_sizes;
 }
 
+// Returns all LPs in `list` which are at most `max_lp`. Ignores others because
+// `TotalLogicalProcessors` may be less than those in sysfs: it is clamped, can
+// be virtualized separately (containers), and LPs can be added at any time.
 std::vector<size_t> ExpandList(const char* list, size_t list_end,
                                size_t max_lp) {
   std::vector<size_t> expanded;
@@ -586,16 +589,10 @@ std::vector<size_t> ExpandList(const char* list, size_t list_end,
 
   // Reads LP number and advances `pos`. `end` is for verifying we did not
   // read past a known terminator, or the end of string.
-  const auto parse_lp = [list, list_end, &pos, max_lp](size_t end) -> size_t {
+  const auto parse_lp = [list, list_end, &pos](size_t end) -> size_t {
     end = HWY_MIN(end, list_end);
     size_t lp;
     HWY_ASSERT(ParseDigits(list, end, pos, &lp));
-    HWY_IF_CONSTEXPR(HWY_ARCH_RISCV) {
-      // On RISC-V, both TotalLogicalProcessors and GetThreadAffinity may
-      // under-report the count, hence clamp.
-      lp = HWY_MIN(lp, max_lp);
-    }
-    HWY_ASSERT(lp <= max_lp);
     HWY_ASSERT(pos <= end);
     return lp;
   };
@@ -610,11 +607,11 @@ std::vector<size_t> ExpandList(const char* list, size_t list_end,
       // Last of range ends with comma or end.
       const size_t lp_range_last = parse_lp(find(','));
 
-      expanded.reserve(expanded.size() + lp_range_last - lp_range_first + 1);
-      for (size_t lp = lp_range_first; lp <= lp_range_last; ++lp) {
+      for (size_t lp = lp_range_first; lp <= HWY_MIN(lp_range_last, max_lp);
+           ++lp) {
         expanded.push_back(lp);
       }
-    } else {  // single number
+    } else if (lp_range_first <= max_lp) {  // single number
       expanded.push_back(lp_range_first);
     }
 
-- 
2.43.0


From 506afa7fbc49a8c41e8a1926c152851faf5a59c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 26/44] fix: Topology aborted on processor or cache IDs with
 more than 9 digits

---
 hwy/contrib/thread_pool/topology.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index e1cc7ac..07db307 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -438,8 +438,8 @@ size_t ReadSysfs(const char* format, size_t lp, char* buf200) {
 // is found, or at end. Returns false if no digits found.
 bool ParseDigits(const char* str, const size_t end, size_t& pos, size_t* out) {
   HWY_ASSERT(pos <= end);
-  // 9 digits cannot overflow even 32-bit size_t.
-  const size_t stop = pos + 9;
+  // Cannot overflow size_t. IDs can be arbitrary 32-bit (or larger) numbers.
+  const size_t stop = pos + (sizeof(size_t) == 8 ? 19 : 9);
   *out = 0;
   for (; pos < HWY_MIN(end, stop); ++pos) {
     const int c = str[pos];
-- 
2.43.0


From 54b0d7b72779500c48212e746fa575da80d5850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:15 +0000
Subject: [PATCH 27/44] fix: Topology leaked file descriptor 0 if standard
 input is closed

---
 hwy/contrib/thread_pool/topology.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 07db307..70af957 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -372,7 +372,7 @@ class File {
   explicit File(const char* path) {
     for (;;) {
       fd_ = open(path, O_RDONLY);
-      if (fd_ > 0) return;           // success
+      if (fd_ >= 0) return;          // success
       if (errno == EINTR) continue;  // signal: retry
       if (errno == ENOENT) return;   // not found, give up
       if (HWY_IS_DEBUG_BUILD) {
@@ -383,7 +383,7 @@ class File {
   }
 
   ~File() {
-    if (fd_ > 0) {
+    if (fd_ >= 0) {
       for (;;) {
         const int ret = close(fd_);
         if (ret == 0) break;           // success
-- 
2.43.0


From 8b1707da4832c877c54441d0fa7c6548ceeff001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 28/44] fix: Topology ignored all NUMA nodes after the first
 unused node number

---
 hwy/contrib/thread_pool/topology.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 70af957..20c62f1 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -632,12 +632,13 @@ std::vector<size_t> ExpandList(const char* list, size_t list_end,
 
 // Sets LP.node for all `lps`.
 void SetNodes(std::vector<Topology::LP>& lps) {
-  // For each NUMA node found via sysfs:
-  for (size_t node = 0;; node++) {
+  // For each NUMA node found via sysfs. They may be sparse, so continue after
+  // the first that does not exist, up to the largest that fits in LP.node.
+  for (size_t node = 0; node <= 255; node++) {
     // Read its cpulist so we can scatter `node` to all its `lps`.
     char buf200[200];
     const size_t bytes_read = ReadSysfs(kNode, node, buf200);
-    if (bytes_read == 0) break;
+    if (bytes_read == 0) continue;
     const std::vector<size_t> list =
         ExpandList(buf200, bytes_read, lps.size() - 1);
     for (size_t lp : list) {
-- 
2.43.0


From 2e3f4df40b24144b2011fe844e3903e389b8f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:57 +0000
Subject: [PATCH 29/44] fix: Topology wrote past its buffer for, and truncated,
 sysfs files of 200 or more bytes

---
 hwy/contrib/thread_pool/topology.cc | 44 ++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 20c62f1..965c441 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -369,6 +369,9 @@ struct PackageSizes {
 
 class File {
  public:
+  // Large enough for lists of LPs that are not contiguous.
+  static constexpr size_t kBufSize = 4096;
+
   explicit File(const char* path) {
     for (;;) {
       fd_ = open(path, O_RDONLY);
@@ -396,15 +399,16 @@ class File {
     }
   }
 
-  // Returns number of bytes read or 0 on failure.
-  size_t Read(char* buf200) const {
+  // Returns number of bytes read, including a terminating null, or 0 on failure
+  // or if the file does not fit into the `kBufSize` bytes of `buf`.
+  size_t Read(char* buf) const {
     if (fd_ < 0) return 0;
     size_t pos = 0;
     for (;;) {
       // read instead of `pread`, which might not work for sysfs.
-      const auto bytes_read = read(fd_, buf200 + pos, 200 - pos);
+      const auto bytes_read = read(fd_, buf + pos, kBufSize - pos);
       if (bytes_read == 0) {  // EOF: done
-        buf200[pos++] = '\0';
+        buf[pos++] = '\0';
         return pos;
       }
       if (bytes_read == -1) {
@@ -415,7 +419,13 @@ class File {
         return 0;
       }
       pos += static_cast<size_t>(bytes_read);
-      HWY_ASSERT(pos <= 200);
+      HWY_ASSERT(pos <= kBufSize);
+      if (pos == kBufSize) {  // No space for terminator
+        if (HWY_IS_DEBUG_BUILD) {
+          HWY_WARN("File is too large for the buffer.\n");
+        }
+        return 0;
+      }
     }
   }
 
@@ -424,14 +434,14 @@ class File {
 };
 
 // Returns bytes read, or 0 on failure.
-size_t ReadSysfs(const char* format, size_t lp, char* buf200) {
+size_t ReadSysfs(const char* format, size_t lp, char* buf) {
   char path[200];
   const int bytes_written = snprintf(path, sizeof(path), format, lp);
   HWY_ASSERT(0 < bytes_written &&
              bytes_written < static_cast<int>(sizeof(path) - 1));
 
   const File file(path);
-  return file.Read(buf200);
+  return file.Read(buf);
 }
 
 // Interprets [str + pos, str + end) as base-10 ASCII. Stops when any non-digit
@@ -473,10 +483,10 @@ bool ParseNumberWithOptionalSuffix(const char* str, size_t len, size_t* out) {
 }
 
 bool ReadNumberWithOptionalSuffix(const char* format, size_t lp, size_t* out) {
-  char buf200[200];
-  const size_t pos = ReadSysfs(format, lp, buf200);
+  char buf[File::kBufSize];
+  const size_t pos = ReadSysfs(format, lp, buf);
   if (pos == 0) return false;
-  return ParseNumberWithOptionalSuffix(buf200, pos, out);
+  return ParseNumberWithOptionalSuffix(buf, pos, out);
 }
 
 const char* kPackage =
@@ -636,11 +646,11 @@ void SetNodes(std::vector<Topology::LP>& lps) {
   // the first that does not exist, up to the largest that fits in LP.node.
   for (size_t node = 0; node <= 255; node++) {
     // Read its cpulist so we can scatter `node` to all its `lps`.
-    char buf200[200];
-    const size_t bytes_read = ReadSysfs(kNode, node, buf200);
+    char buf[File::kBufSize];
+    const size_t bytes_read = ReadSysfs(kNode, node, buf);
     if (bytes_read == 0) continue;
     const std::vector<size_t> list =
-        ExpandList(buf200, bytes_read, lps.size() - 1);
+        ExpandList(buf, bytes_read, lps.size() - 1);
     for (size_t lp : list) {
       lps[lp].node = static_cast<uint8_t>(node);
     }
@@ -899,13 +909,13 @@ using Caches = std::array<Cache, 4>;
 std::string ReadString(const char* name, size_t index) {
   // First CPU is usually a P core.
   const std::string path("/sys/devices/system/cpu/cpu0/cache/index%zu/");
-  char buf200[200];
-  size_t end = ReadSysfs((path + name).c_str(), index, buf200);
+  char buf[File::kBufSize];
+  size_t end = ReadSysfs((path + name).c_str(), index, buf);
   // Remove trailing newline/null to simplify string comparison.
   for (; end != 0; --end) {
-    if (buf200[end - 1] != '\0' && buf200[end - 1] != '\n') break;
+    if (buf[end - 1] != '\0' && buf[end - 1] != '\n') break;
   }
-  return std::string(buf200, buf200 + end);
+  return std::string(buf, buf + end);
 }
 
 template <typename T>
-- 
2.43.0


From 845f488006ce6ca8b40abea37dd00d2406bda3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:06 +0000
Subject: [PATCH 30/44] fix: Topology closed a file descriptor twice after
 EINTR

---
 hwy/contrib/thread_pool/topology.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 965c441..aa0723e 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -387,14 +387,11 @@ class File {
 
   ~File() {
     if (fd_ >= 0) {
-      for (;;) {
-        const int ret = close(fd_);
-        if (ret == 0) break;           // success
-        if (errno == EINTR) continue;  // signal: retry
-        if (HWY_IS_DEBUG_BUILD) {
-          HWY_WARN("Unexpected error closing file: %d\n", errno);
-        }
-        return;  // unknown error, ignore
+      // Do not retry after EINTR: Linux has already closed `fd_`, which another
+      // thread may be reusing.
+      const int ret = close(fd_);
+      if (ret != 0 && errno != EINTR && HWY_IS_DEBUG_BUILD) {
+        HWY_WARN("Unexpected error closing file: %d\n", errno);
       }
     }
   }
-- 
2.43.0


From 688bc0105e5898bf22bc28fcbbc88e650e79a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:14 +0000
Subject: [PATCH 31/44] fix: DataCaches aborted if the associativity of a cache
 is unknown

---
 hwy/contrib/thread_pool/topology.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index aa0723e..c7db69d 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -958,7 +958,9 @@ bool InitCachesSysfs(Caches& caches) {
 
     const bool ok = WriteSysfs("size", i, &c.size_kib) &&
                     WriteSysfs("ways_of_associativity", i, &c.associativity) &&
-                    WriteSysfs("number_of_sets", i, &c.sets);
+                    WriteSysfs("number_of_sets", i, &c.sets) &&
+                    // Linux reports 0 ways if fully associative or unknown.
+                    c.associativity != 0 && c.sets != 0;
     if (HWY_UNLIKELY(!ok)) {
       HWY_WARN("skipping partially-detected L%u, error %d\n", level, errno);
       c = Cache();
-- 
2.43.0


From 4ddd7a179c1b1ecd2b809e2cd9ed2b26824eeb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:25 +0000
Subject: [PATCH 32/44] fix: DataCaches aborted for low-associativity caches
 whose size is not divisible by the number of cores

---
 hwy/contrib/thread_pool/topology.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index c7db69d..fe1ee54 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -1201,7 +1201,11 @@ HWY_MAYBE_UNUSED void ComputeSets(Cache& c) {
     c.sets = static_cast<uint32_t>(sets);
   } else {
     const size_t diff = c.sets - sets;
-    if (diff > 1) {
+    // Rounding down `size_kib` may have lost almost 1 KiB, which is multiple
+    // sets if there are few ways.
+    const size_t max_diff =
+        DivCeil(size_t{1024}, size_t{c.bytes_per_line} * c.associativity);
+    if (diff > max_diff) {
       HWY_ABORT("Inconsistent cache sets %u != %zu\n", c.sets, sets);
     }
   }
-- 
2.43.0


From e65c2ac339b13abf0448d69ef5a219d8a4fa8b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 33/44] fix: MatVec did not flush streamed stores on the
 threads that wrote them

---
 hwy/contrib/matvec/matvec-inl.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hwy/contrib/matvec/matvec-inl.h b/hwy/contrib/matvec/matvec-inl.h
index a858c9f..dd92e8f 100644
--- a/hwy/contrib/matvec/matvec-inl.h
+++ b/hwy/contrib/matvec/matvec-inl.h
@@ -121,8 +121,9 @@ HWY_NOINLINE void MatVecAddImpl(const T* HWY_RESTRICT mat,
              for (size_t i = 0; i != kChunkSize; i += N) {
                Stream(Load(d, buf + i), d, out + begin + i);
              }
+             // On the same thread as Stream: makes out visible to the caller.
+             hwy::FlushStream();
            });
-  hwy::FlushStream();
 
   // Handle remainder rows which are not a multiple of the chunk size.
   for (size_t r = num_chunks * kChunkSize; r < kOuter; ++r) {
@@ -280,8 +281,9 @@ HWY_NOINLINE void MatVecAddImpl(const hwy::bfloat16_t* HWY_RESTRICT mat,
              for (size_t i = 0; i != kChunkSize; i += N) {
                Stream(Load(d, buf + i), d, out + begin + i);
              }
+             // On the same thread as Stream: makes out visible to the caller.
+             hwy::FlushStream();
            });
-  hwy::FlushStream();
 
   // Handle remainder rows which are not a multiple of the chunk size.
   for (size_t r = num_chunks * kChunkSize; r < kOuter; ++r) {
@@ -399,8 +401,9 @@ HWY_NOINLINE void MatVecAddImpl(const hwy::bfloat16_t* HWY_RESTRICT mat,
              for (size_t i = 0; i != kChunkSize; i += N / 2) {
                Stream(Load(df, buf + i), df, out + begin + i);
              }
+             // On the same thread as Stream: makes out visible to the caller.
+             hwy::FlushStream();
            });
-  hwy::FlushStream();
 
   // Handle remainder rows which are not a multiple of the chunk size.
   for (size_t r = num_chunks * kChunkSize; r < kOuter; ++r) {
-- 
2.43.0


From e3eed8d56421d58a943126b88405dd1f94da24dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:40 +0000
Subject: [PATCH 34/44] fix: MakeUniqueAligned(Array) leaked its memory and
 objects if a constructor throws

---
 hwy/aligned_allocator.h | 54 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index ce8b552..e749893 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -111,6 +111,45 @@ class AlignedDeleter {
 template <typename T>
 using AlignedUniquePtr = std::unique_ptr<T, AlignedDeleter>;
 
+namespace detail {
+
+// Owns memory while objects are constructed in it: unless `Release` is called,
+// i.e. if a constructor throws, destroys the objects and frees the memory.
+template <typename T>
+class ConstructionGuard {
+ public:
+  ConstructionGuard(T* ptr, FreePtr free, void* opaque)
+      : ptr_(ptr), free_(free), opaque_ptr_(opaque) {}
+  ~ConstructionGuard() {
+    if (ptr_ == nullptr) return;
+    while (constructed_ != 0) (ptr_ + --constructed_)->~T();
+    FreeAlignedBytes(ptr_, free_, opaque_ptr_);
+  }
+
+  ConstructionGuard(const ConstructionGuard&) = delete;
+  ConstructionGuard& operator=(const ConstructionGuard&) = delete;
+
+  template <typename... Args>
+  void Construct(Args&&... args) {
+    new (ptr_ + constructed_) T(std::forward<Args>(args)...);
+    ++constructed_;
+  }
+
+  T* Release() {
+    T* ptr = ptr_;
+    ptr_ = nullptr;
+    return ptr;
+  }
+
+ private:
+  T* ptr_;
+  FreePtr free_;
+  void* opaque_ptr_;
+  size_t constructed_ = 0;
+};
+
+}  // namespace detail
+
 // Aligned memory equivalent of make_unique<T> using the custom allocators
 // alloc/free with the passed `opaque` pointer. This function calls the
 // constructor with the passed Args... and calls the destructor of the object
@@ -119,8 +158,9 @@ template <typename T, typename... Args>
 AlignedUniquePtr<T> MakeUniqueAlignedWithAlloc(AllocPtr alloc, FreePtr free,
                                                void* opaque, Args&&... args) {
   T* ptr = static_cast<T*>(AllocateAlignedBytes(sizeof(T), alloc, opaque));
-  if (ptr != nullptr) new (ptr) T(std::forward<Args>(args)...);
-  return AlignedUniquePtr<T>(ptr, AlignedDeleter(free, opaque));
+  detail::ConstructionGuard<T> guard(ptr, free, opaque);
+  if (ptr != nullptr) guard.Construct(std::forward<Args>(args)...);
+  return AlignedUniquePtr<T>(guard.Release(), AlignedDeleter(free, opaque));
 }
 
 // Similar to MakeUniqueAlignedWithAlloc but using the default alloc/free
@@ -128,8 +168,9 @@ AlignedUniquePtr<T> MakeUniqueAlignedWithAlloc(AllocPtr alloc, FreePtr free,
 template <typename T, typename... Args>
 AlignedUniquePtr<T> MakeUniqueAligned(Args&&... args) {
   T* ptr = static_cast<T*>(AllocateAlignedBytes(sizeof(T)));
-  if (ptr != nullptr) new (ptr) T(std::forward<Args>(args)...);
-  return AlignedUniquePtr<T>(ptr, AlignedDeleter());
+  detail::ConstructionGuard<T> guard(ptr, nullptr, nullptr);
+  if (ptr != nullptr) guard.Construct(std::forward<Args>(args)...);
+  return AlignedUniquePtr<T>(guard.Release(), AlignedDeleter());
 }
 
 template <class T>
@@ -218,12 +259,13 @@ template <typename T, typename... Args>
 AlignedUniquePtr<T[]> MakeUniqueAlignedArrayWithAlloc(
     size_t items, AllocPtr alloc, FreePtr free, void* opaque, Args&&... args) {
   T* ptr = detail::AllocateAlignedItems<T>(items, alloc, opaque);
+  detail::ConstructionGuard<T> guard(ptr, free, opaque);
   if (ptr != nullptr) {
     for (size_t i = 0; i < items; i++) {
-      new (ptr + i) T(std::forward<Args>(args)...);
+      guard.Construct(std::forward<Args>(args)...);
     }
   }
-  return AlignedUniquePtr<T[]>(ptr, AlignedDeleter(free, opaque));
+  return AlignedUniquePtr<T[]>(guard.Release(), AlignedDeleter(free, opaque));
 }
 
 template <typename T, typename... Args>
-- 
2.43.0


From 33c8e1d729fbe5ca597d8cf10cea8143fd9eca4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:40 +0000
Subject: [PATCH 35/44] fix: VectorXoshiro and CachedXoshiro wrote past the end
 if the count is not a multiple of the vector length

---
 hwy/contrib/random/random-inl.h | 34 +++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/hwy/contrib/random/random-inl.h b/hwy/contrib/random/random-inl.h
index 4779ef5..4941dd2 100644
--- a/hwy/contrib/random/random-inl.h
+++ b/hwy/contrib/random/random-inl.h
@@ -207,10 +207,15 @@ class VectorXoshiro {
     auto s1 = Load(tag, state_[{1}].data());
     auto s2 = Load(tag, state_[{2}].data());
     auto s3 = Load(tag, state_[{3}].data());
-    for (std::uint64_t i = 0; i < n; i += Lanes(tag)) {
+    std::uint64_t i = 0;
+    for (; i + Lanes(tag) <= n; i += Lanes(tag)) {
       const auto next = Update(s0, s1, s2, s3);
       Store(next, tag, result.data() + i);
     }
+    if (i < n) {  // less than one vector remains: do not write past the end
+      const auto next = Update(s0, s1, s2, s3);
+      StoreN(next, tag, result.data() + i, static_cast<size_t>(n - i));
+    }
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
     Store(s2, tag, state_[{2}].data());
@@ -226,10 +231,15 @@ class VectorXoshiro {
     auto s1 = Load(tag, state_[{1}].data());
     auto s2 = Load(tag, state_[{2}].data());
     auto s3 = Load(tag, state_[{3}].data());
-    for (std::uint64_t i = 0; i < N; i += Lanes(tag)) {
+    std::uint64_t i = 0;
+    for (; i + Lanes(tag) <= N; i += Lanes(tag)) {
       const auto next = Update(s0, s1, s2, s3);
       Store(next, tag, result.data() + i);
     }
+    if (i < N) {  // less than one vector remains: do not write past the end
+      const auto next = Update(s0, s1, s2, s3);
+      StoreN(next, tag, result.data() + i, static_cast<size_t>(N - i));
+    }
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
     Store(s2, tag, state_[{2}].data());
@@ -264,13 +274,21 @@ class VectorXoshiro {
     auto s2 = Load(tag, state_[{2}].data());
     auto s3 = Load(tag, state_[{3}].data());
 
-    for (std::uint64_t i = 0; i < n; i += Lanes(real_tag)) {
+    std::uint64_t i = 0;
+    for (; i + Lanes(real_tag) <= n; i += Lanes(real_tag)) {
       const auto next = Update(s0, s1, s2, s3);
       const auto bits = ShiftRight<11>(next);
       const auto real = ConvertTo(real_tag, bits);
       const auto uniform = Mul(real, MUL_VALUE);
       Store(uniform, real_tag, result.data() + i);
     }
+    if (i < n) {  // less than one vector remains: do not write past the end
+      const auto next = Update(s0, s1, s2, s3);
+      const auto bits = ShiftRight<11>(next);
+      const auto real = ConvertTo(real_tag, bits);
+      const auto uniform = Mul(real, MUL_VALUE);
+      StoreN(uniform, real_tag, result.data() + i, static_cast<size_t>(n - i));
+    }
 
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
@@ -291,13 +309,21 @@ class VectorXoshiro {
     auto s2 = Load(tag, state_[{2}].data());
     auto s3 = Load(tag, state_[{3}].data());
 
-    for (std::uint64_t i = 0; i < N; i += Lanes(real_tag)) {
+    std::uint64_t i = 0;
+    for (; i + Lanes(real_tag) <= N; i += Lanes(real_tag)) {
       const auto next = Update(s0, s1, s2, s3);
       const auto bits = ShiftRight<11>(next);
       const auto real = ConvertTo(real_tag, bits);
       const auto uniform = Mul(real, MUL_VALUE);
       Store(uniform, real_tag, result.data() + i);
     }
+    if (i < N) {  // less than one vector remains: do not write past the end
+      const auto next = Update(s0, s1, s2, s3);
+      const auto bits = ShiftRight<11>(next);
+      const auto real = ConvertTo(real_tag, bits);
+      const auto uniform = Mul(real, MUL_VALUE);
+      StoreN(uniform, real_tag, result.data() + i, static_cast<size_t>(N - i));
+    }
 
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
-- 
2.43.0


From 54f0b53c24d0efece7a5b5f1e99a738a488c5a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:03 +0000
Subject: [PATCH 36/44] fix: AlignedNDArray allocated too little memory if the
 product of its shape overflows

---
 hwy/aligned_allocator.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index e749893..0467116 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -387,6 +387,13 @@ class AlignedNDArray {
     // SIMD operations on this architecture to make sure that each innermost
     // array is aligned from the first element.
     memory_shape_[axes - 1] = RoundUpTo(memory_shape_[axes - 1], VectorBytes());
+    // Abort instead of allocating too little if the total size overflows.
+    size_t max_items = ~size_t{0};
+    for (size_t axis = 0; axis < axes; ++axis) {
+      HWY_ASSERT(shape_[axis] <= memory_shape_[axis]);
+      HWY_ASSERT(memory_shape_[axis] <= max_items);
+      if (memory_shape_[axis] != 0) max_items /= memory_shape_[axis];
+    }
     memory_sizes_ = ComputeSizes(memory_shape_);
     buffer_ = hwy::AllocateAligned<T>(memory_size());
     HWY_ASSERT(buffer_.get() != nullptr);
-- 
2.43.0


From 0b4a282af3681651c3dab50c930983ad67a66c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:03 +0000
Subject: [PATCH 37/44] fix: Image allocated too little memory if its size in
 bytes overflows

---
 hwy/contrib/image/image.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hwy/contrib/image/image.cc b/hwy/contrib/image/image.cc
index 75f6528..5ed7c3a 100644
--- a/hwy/contrib/image/image.cc
+++ b/hwy/contrib/image/image.cc
@@ -73,6 +73,8 @@ ImageBase::ImageBase(const size_t xsize, const size_t ysize,
   // if nonzero, because "zero" bytes still have padding/bookkeeping overhead.
   if (xsize != 0 && ysize != 0) {
     bytes_per_row_ = BytesPerRow(xsize, sizeof_t);
+    // Abort instead of allocating too little if the total size overflows.
+    HWY_ASSERT(ysize <= ~size_t{0} / bytes_per_row_);
     bytes_ = AllocateAligned<uint8_t>(bytes_per_row_ * ysize);
     HWY_ASSERT(bytes_.get() != nullptr);
     InitializePadding(sizeof_t, Padding::kRoundUp);
-- 
2.43.0


From 97cd43cb7881c2c1c2c6ae1a0dee3c8c4835cbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:32 +0000
Subject: [PATCH 38/44] fix: Image3 rows could not be accessed: VoidPlaneRow
 did not compile

---
 hwy/contrib/image/image.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hwy/contrib/image/image.h b/hwy/contrib/image/image.h
index 4f578aa..9692215 100644
--- a/hwy/contrib/image/image.h
+++ b/hwy/contrib/image/image.h
@@ -293,9 +293,8 @@ class Image3 {
     // Use the first plane's stride because the compiler might not realize they
     // are all equal. Thus we only need a single multiplication for all planes.
     const size_t row_offset = y * planes_[0].bytes_per_row();
-    const void* row = planes_[c].bytes() + row_offset;
-    return static_cast<const T * HWY_RESTRICT>(
-        HWY_ASSUME_ALIGNED(row, HWY_ALIGNMENT));
+    void* row = reinterpret_cast<uint8_t*>(planes_[c].MutableRow(0)) + row_offset;
+    return HWY_ASSUME_ALIGNED(row, HWY_ALIGNMENT);
   }
 
  private:
-- 
2.43.0


From 4ea72bd761fbaf181a01c3ecaa2ae2a6e6837578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:37 +0000
Subject: [PATCH 39/44] fix: Image3 computed wrong row addresses if the strides
 of its planes differ

---
 hwy/contrib/image/image.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hwy/contrib/image/image.h b/hwy/contrib/image/image.h
index 9692215..23535f2 100644
--- a/hwy/contrib/image/image.h
+++ b/hwy/contrib/image/image.h
@@ -290,11 +290,9 @@ class Image3 {
                 static_cast<int>(y), static_cast<int>(ysize()));
     }
 #endif
-    // Use the first plane's stride because the compiler might not realize they
-    // are all equal. Thus we only need a single multiplication for all planes.
-    const size_t row_offset = y * planes_[0].bytes_per_row();
-    void* row = reinterpret_cast<uint8_t*>(planes_[c].MutableRow(0)) + row_offset;
-    return HWY_ASSUME_ALIGNED(row, HWY_ALIGNMENT);
+    // Use the plane's own stride: the sizes of all planes are equal, but their
+    // strides can differ if they were moved from separate images.
+    return planes_[c].MutableRow(y);
   }
 
  private:
-- 
2.43.0


From f1707c083c768d2da1c5dfeab711eb5a1c156ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:40 +0000
Subject: [PATCH 40/44] fix: Pack16<11> and Pack16<13> did not unpack to the
 packed values

---
 hwy/contrib/bit_pack/bit_pack-inl.h | 33 +++++++++++++++--------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/hwy/contrib/bit_pack/bit_pack-inl.h b/hwy/contrib/bit_pack/bit_pack-inl.h
index 09d37ac..28a19c8 100644
--- a/hwy/contrib/bit_pack/bit_pack-inl.h
+++ b/hwy/contrib/bit_pack/bit_pack-inl.h
@@ -1898,10 +1898,11 @@ struct Pack16<11> {
     const VU16 rawD = OrAnd(downD, ShiftRight<4>(packed9), hi3);
     const VU16 rawE = OrAnd(downE, ShiftRight<4>(packedA), hi3);
 
-    // Shift MSB into the top 3-of-11 and mask.
-    const VU16 rawF = Or(downF, Xor3(And(ShiftRight<7>(packed8), hi3),
-                                     And(ShiftRight<6>(packed9), hi3),
-                                     And(ShiftRight<5>(packedA), hi3)));
+    // Shift MSB into the top 3-of-11 and mask (only one bit from each).
+    const VU16 rawF =
+        Or(downF, Xor3(And(ShiftRight<7>(packed8), Set(d, 0x100u)),
+                       And(ShiftRight<6>(packed9), Set(d, 0x200u)),
+                       And(ShiftRight<5>(packedA), Set(d, 0x400u))));
 
     StoreU(raw0, d, raw + 0 * N);
     StoreU(raw1, d, raw + 1 * N);
@@ -2120,7 +2121,7 @@ struct Pack16<13> {
     packedC = OrAnd(packedC, ShiftLeft<2>(rawE), next);
 
     // Scatter upper 5 bits of rawF into the upper bits.
-    next = ShiftLeft<3>(next);  // = 0x8000u
+    next = ShiftLeft<5>(next);  // = 0x8000u
     packed8 = OrAnd(packed8, ShiftLeft<7>(rawF), next);
     packed9 = OrAnd(packed9, ShiftLeft<6>(rawF), next);
     packedA = OrAnd(packedA, ShiftLeft<5>(rawF), next);
@@ -2184,21 +2185,21 @@ struct Pack16<13> {
     const VU16 raw5 = OrAnd(down5, ShiftLeft<3>(packed8), hi5);
     const VU16 raw6 = OrAnd(down6, ShiftLeft<3>(packed9), hi5);
     const VU16 raw7 = OrAnd(down7, ShiftLeft<3>(packedA), hi5);
-    const VU16 raw8 = OrAnd(down8, ShiftLeft<3>(packed9), hi5);
-    const VU16 raw9 = OrAnd(down9, ShiftLeft<3>(packedA), hi5);
+    const VU16 raw8 = OrAnd(down8, ShiftLeft<3>(packedB), hi5);
+    const VU16 raw9 = OrAnd(down9, ShiftLeft<3>(packedC), hi5);
 
     const VU16 rawA = OrAnd(downA, ShiftRight<2>(packed8), hi5);
     const VU16 rawB = OrAnd(downB, ShiftRight<2>(packed9), hi5);
     const VU16 rawC = OrAnd(downC, ShiftRight<2>(packedA), hi5);
-    const VU16 rawD = OrAnd(downD, ShiftRight<2>(packed9), hi5);
-    const VU16 rawE = OrAnd(downE, ShiftRight<2>(packedA), hi5);
-
-    // Shift MSB into the top 5-of-11 and mask.
-    const VU16 p0 = Xor3(And(ShiftRight<7>(packed8), hi5),  //
-                         And(ShiftRight<6>(packed9), hi5),
-                         And(ShiftRight<5>(packedA), hi5));
-    const VU16 p1 = Xor3(And(ShiftRight<4>(packedB), hi5),
-                         And(ShiftRight<3>(packedC), hi5), downF);
+    const VU16 rawD = OrAnd(downD, ShiftRight<2>(packedB), hi5);
+    const VU16 rawE = OrAnd(downE, ShiftRight<2>(packedC), hi5);
+
+    // Shift MSB into the top 5-of-13 and mask (only one bit from each).
+    const VU16 p0 = Xor3(And(ShiftRight<7>(packed8), Set(d, 0x100u)),
+                         And(ShiftRight<6>(packed9), Set(d, 0x200u)),
+                         And(ShiftRight<5>(packedA), Set(d, 0x400u)));
+    const VU16 p1 = Xor3(And(ShiftRight<4>(packedB), Set(d, 0x800u)),
+                         And(ShiftRight<3>(packedC), Set(d, 0x1000u)), downF);
     const VU16 rawF = Or(p0, p1);
 
     StoreU(raw0, d, raw + 0 * N);
-- 
2.43.0


From b641f9135935a1065a9f3fb9df119619aeab816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:44 +0000
Subject: [PATCH 41/44] fix: Stats overflowed for more than 2^31 samples

---
 hwy/stats.cc | 13 ++++++++-----
 hwy/stats.h  | 15 ++++++++-------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/hwy/stats.cc b/hwy/stats.cc
index 4c53124..2849610 100644
--- a/hwy/stats.cc
+++ b/hwy/stats.cc
@@ -33,11 +33,14 @@ void Stats::Assimilate(const Stats& other) {
 
   sum_log_ += other.sum_log_;
 
-  const double product_n = n_ * other.n_;
-  const double n2 = n_ * n_;
-  const double other_n2 = other.n_ * other.n_;
-  const int64_t total_n2 = total_n * total_n;
-  const double total_n3 = static_cast<double>(total_n2) * total_n;
+  // Floating-point because the products of counts could overflow int64_t.
+  const double n = static_cast<double>(n_);
+  const double other_n = static_cast<double>(other.n_);
+  const double product_n = n * other_n;
+  const double n2 = n * n;
+  const double other_n2 = other_n * other_n;
+  const double total_n2 = static_cast<double>(total_n) * total_n;
+  const double total_n3 = total_n2 * total_n;
   // Precompute reciprocal for speed - used at least twice.
   const double inv_total_n = 1.0 / total_n;
   const double inv_total_n2 = 1.0 / total_n2;
diff --git a/hwy/stats.h b/hwy/stats.h
index a313e02..ea9a63d 100644
--- a/hwy/stats.h
+++ b/hwy/stats.h
@@ -86,9 +86,10 @@ class Stats {
     const double d = x - m1_;
     const double d_div_n = d / static_cast<double>(n_);
     const double d2n1_div_n = d * (static_cast<double>(n_) - 1) * d_div_n;
-    const int64_t n_poly = n_ * n_ - 3 * n_ + 3;
+    const double n = static_cast<double>(n_);  // n_ * n_ could overflow
+    const double n_poly = n * n - 3.0 * n + 3.0;
     m1_ += d_div_n;
-    m4_ += d_div_n * (d_div_n * (d2n1_div_n * static_cast<double>(n_poly) + 6.0 * m2_) - 4.0 * m3_);
+    m4_ += d_div_n * (d_div_n * (d2n1_div_n * n_poly + 6.0 * m2_) - 4.0 * m3_);
     m3_ += d_div_n * (d2n1_div_n * (static_cast<double>(n_) - 2) - 3.0 * m2_);
     m2_ += d2n1_div_n;
   }
@@ -107,13 +108,13 @@ class Stats {
   double Mean() const { return m1_; }
   // Same as Mu2. Assumes n_ is large.
   double SampleVariance() const {
-    return n_ == 0 ? 0.0 : m2_ / static_cast<int>(n_);
+    return n_ == 0 ? 0.0 : m2_ / static_cast<double>(n_);
   }
   // Unbiased estimator for population variance even for smaller n_.
   double Variance() const {
     if (n_ == 0) return 0.0;
     if (n_ == 1) return m2_;
-    return m2_ / static_cast<int>(n_ - 1);
+    return m2_ / static_cast<double>(n_ - 1);
   }
   double StandardDeviation() const { return std::sqrt(Variance()); }
   // Near zero for normal distributions; if positive on a unimodal distribution,
@@ -146,9 +147,9 @@ class Stats {
   // Central moments, useful for "method of moments"-based parameter estimation
   // of a mixture of two Gaussians. Assumes Count() != 0.
   double Mu1() const { return m1_; }
-  double Mu2() const { return m2_ / static_cast<int>(n_); }
-  double Mu3() const { return m3_ / static_cast<int>(n_); }
-  double Mu4() const { return m4_ / static_cast<int>(n_); }
+  double Mu2() const { return m2_ / static_cast<double>(n_); }
+  double Mu3() const { return m3_ / static_cast<double>(n_); }
+  double Mu4() const { return m4_ / static_cast<double>(n_); }
 
   // Which statistics to EXCLUDE in ToString
   enum {
-- 
2.43.0


From 05f4765ef3591e90e4c545c040716cab4997960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:33 +0000
Subject: [PATCH 42/44] fix: Stats::ToString returned uninitialized memory if
 everything is excluded

---
 hwy/stats.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hwy/stats.cc b/hwy/stats.cc
index 2849610..9f3b153 100644
--- a/hwy/stats.cc
+++ b/hwy/stats.cc
@@ -72,6 +72,7 @@ std::string Stats::ToString(int exclude) const {
   if (Count() == 0) return std::string("(none)");
 
   char buf[300];
+  buf[0] = '\0';  // in case everything is excluded
   int pos = 0;
   int ret;  // snprintf - bytes written or negative for error.
 
-- 
2.43.0


From d98894c7f9ad92482e8e0b0312625293c8c5d075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:04 +0000
Subject: [PATCH 43/44] fix: Image of external memory read before that memory
 when destroyed

AlignedFreer::DoNothing is for externally-owned memory, but FreeAlignedBytes
loaded the (non-existent) allocation header before calling it, which crashes
if the preceding page is not mapped.
---
 hwy/aligned_allocator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index 0467116..15fe146 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -287,6 +287,8 @@ class AlignedFreer {
 
   template <typename T>
   void operator()(T* aligned_pointer) const {
+    // Externally-owned memory is not preceded by our allocation header.
+    if (free_ == &AlignedFreer::DoNothing) return;
     FreeAlignedBytes(aligned_pointer, free_, opaque_ptr_);
   }
 
-- 
2.43.0


From 70908b49d65d62cc60cd3e1a79bfc225318fce82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:53 +0000
Subject: [PATCH 44/44] fix: Mode ignored the last value if their number is odd

---
 hwy/robust_statistics.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/hwy/robust_statistics.h b/hwy/robust_statistics.h
index d80a214..bf1a5e6 100644
--- a/hwy/robust_statistics.h
+++ b/hwy/robust_statistics.h
@@ -57,15 +57,16 @@ void CountingSort(T* values, size_t num_values) {
   HWY_ASSERT(p == values + num_values);
 }
 
-// @return i in [idx_begin, idx_begin + half_count) that minimizes
-// sorted[i + half_count] - sorted[i].
+// @return i in [idx_begin, idx_begin + num - half_count) that minimizes
+// sorted[i + half_count] - sorted[i], where half_count = num / 2.
 template <typename T>
 size_t MinRange(const T* const HWY_RESTRICT sorted, const size_t idx_begin,
-                const size_t half_count) {
+                const size_t num) {
+  const size_t half_count = num / 2;
   T min_range = std::numeric_limits<T>::max();
   size_t min_idx = 0;
 
-  for (size_t idx = idx_begin; idx < idx_begin + half_count; ++idx) {
+  for (size_t idx = idx_begin; idx < idx_begin + num - half_count; ++idx) {
     HWY_ASSERT(sorted[idx] <= sorted[idx + half_count]);
     const T range = sorted[idx + half_count] - sorted[idx];
     if (range < min_range) {
@@ -86,17 +87,16 @@ size_t MinRange(const T* const HWY_RESTRICT sorted, const size_t idx_begin,
 template <typename T>
 T ModeOfSorted(const T* const HWY_RESTRICT sorted, const size_t num_values) {
   size_t idx_begin = 0;
-  size_t half_count = num_values / 2;
-  while (half_count > 1) {
-    idx_begin = MinRange(sorted, idx_begin, half_count);
-    half_count >>= 1;
+  size_t num = num_values;
+  while (num > 2) {
+    idx_begin = MinRange(sorted, idx_begin, num);
+    num = num / 2 + 1;
   }
 
   const T x = sorted[idx_begin + 0];
-  if (half_count == 0) {
+  if (num < 2) {
     return x;
   }
-  HWY_ASSERT(half_count == 1);
   const T average = (x + sorted[idx_begin + 1] + 1) / 2;
   return average;
 }
-- 
2.43.0

