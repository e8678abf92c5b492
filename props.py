"""Per-property configuration of the checks."""

ASSUMPTIONS = [
    "seeded search, not exhaustive: a clean result covers the executed runs only",
    "context switches happen at synchronisation operations, system calls and hooks; plain accesses between them are "
    "covered by the happens-before race detector instead",
    "weak memory is modelled per atomic location (a load may return older stores permitted by coherence and "
    "happens-before); store-to-load reordering across locations beyond that and dependency tracking are not",
    "single host architecture (x86-64, Linux code paths), compiled by clang 18 at -O1 with the TSan instrumentation pass",
]

RT_STUB = ["kernel scheduler, futexes, pthreads (create/join/mutex/cond/once)", "malloc/free (block table with red zones and quarantine)",
           "clocks and sleeps", "thread-local storage", "CPUID/XGETBV, RDTSC, PAUSE, MONITOR/MWAIT and TPAUSE/UMWAIT instructions"]

PROPS = {}


def prop(pid, binaries, title, rule, real, stub=None, **kw):
    PROPS[pid] = dict(binaries=binaries, title=title, rule=rule, real=real, stub=(stub or []) + RT_STUB, **kw)


POOL_REAL = ["hwy/contrib/thread_pool/thread_pool.h, futex.h, spin.h", "hwy/auto_tune.h", "hwy/timer.{h,cc}", "hwy/aligned_allocator.{h,cc}",
             "hwy/x86_cpuid.h (above the CPUID hook)", "libstdc++ std::thread/vector/function"]
POOL_BIN = ["pool_dbg", "pool_rel"]

prop("C01", POOL_BIN, "exactly-once parallel-for",
     "Each run draws a pool size (0-64), a history of Run (ranges incl. empty, begin > 0, near 2^64, fewer/more tasks than workers) and "
     "SetWaitMode calls, a simulated CPU (pause / MONITORX / WAITPKG), a scheduling strategy, a fault mix. Non-trivial: at least two "
     "threads and one context switch. Oracle: per-Run history of (enter, leave) events with task and worker, checked online.",
     POOL_REAL)
prop("C02", POOL_BIN, "visibility and data races",
     "As C01, but closures exchange plain data with the caller, each other (across Runs) and through constructor/destructor; heap memory "
     "of closures is reused. Oracle: FastTrack happens-before race detection on every plain access of pool, closures and caller, plus values read "
     "under a weak-memory model in which loads may be stale.", POOL_REAL)
prop("C03", POOL_BIN, "termination",
     "Pools of 0-64 threads are constructed, used or not, and destroyed under stalls, late thread starts, spurious/interrupted futex waits; after "
     "a step budget all faults stop and scheduling becomes fair; thread creation may fail. Oracle: deadlock (nothing runnable), no return "
     "within the recovery budget, threads alive after the destructor, a pool constructed without all of its workers.", POOL_REAL)
prop("C04", POOL_BIN, "wait modes and auto-tuning",
     "Histories interleaving SetWaitMode and Run, short ones and ones that tune both modes to completion with noisy clocks. Oracle: C01's, plus "
     "config() belongs to the mode, completion is reached in a bounded number of Runs, is stable and keeps the selected configuration.", POOL_REAL)
prop("C05", POOL_BIN, "independent and nested pools",
     "2-5 client threads each with pools, trivial Runs on a shared pool from several threads, nested pools and re-entrant trivial Runs. Oracle: "
     "C01's per pool; trivial Runs execute on the calling thread as worker 0; races, deadlocks.", POOL_REAL)
prop("C06", ["tune_dbg", "tune_rel"], "AutoTune",
     "Each run draws 1-1000+ candidates, cost distributions (arbitrary, clear winner with noise, outliers, preemption of the measured code, clock "
     "jumps) and the number of notifications. Oracle: candidates stay members of the list, completion is monotone, bounded and stable, and with a "
     "margin larger than the noise the cheapest candidate is selected; no assertion in debug builds.",
     ["hwy/auto_tune.h (including CostDistribution)", "hwy/contrib/sort (VQSort of costs)", "hwy/timer.{h,cc}"])
prop("C07", ["wait_dbg", "wait_rel"], "futex and spin waits",
     "1-17 threads follow, relay or ping-pong values through BlockUntilDifferent/WakeAll and the three spin implementations on simulated CPUs "
     "(PAUSE, MONITORX, WAITPKG), with spurious and interrupted waits, stalls, stale loads. Oracle: never returns while the condition is false, "
     "returned value was stored, happens-before with the store (race detector and payload), no lost wakeup (deadlock / recovery budget).",
     ["hwy/contrib/thread_pool/futex.h, spin.h", "hwy/timer.h", "hwy/x86_cpuid.h (above the CPUID hook)"])
prop("C08", ["dispatch_dbg", "dispatch_rel"], "dynamic dispatch",
     "Each run draws a simulated CPU (feature level SSE2 to AVX10.2, vendor, missing features, truncated CPUID leaves, missing XSAVE/OSXSAVE/XCR0 "
     "state), then phases of DisableTargets / SetSupportedTargetsForTest / re-detection and 1-6 threads that dispatch in four modules (two compiled with "
     "fewer targets, two as C++14) through every dispatch form, and query. Oracle: each dispatched call ran the best target of an independently "
     "computed supported-and-enabled set and passed arguments and result through; queries return exactly that set; data races.",
     ["hwy/targets.{h,cc}", "hwy/highway.h dispatch tables and FunctionCache", "hwy/foreach_target.h", "hwy/per_target.cc",
      "hwy/x86_cpuid.h (above the CPUID hook)"],
     ["the dispatched functions themselves (they return HWY_TARGET and execute no SIMD instruction)"])
prop("C09", ["abort_dbg", "abort_rel"], "Warn and Abort",
     "1-4 threads warn (messages of 0-5000 characters with %-characters and paths of all shapes) while handlers are exchanged, chained and removed, "
     "with memory running out inside; or abort, possibly several at once, through Abort or assertions, with handlers that return, chain or warn. Oracle: "
     "installations form one chain consistent with real time, each warning met a handler installed during the call exactly once with its text, location "
     "and the handler's data visible, or stderr got exactly one line; Abort never returns or throws and its message is delivered once.",
     ["hwy/abort.{h,cc}", "hwy/base.h assertion macros"], ["process termination (abort(), trap)"])
prop("C10", ["alloc_dbg", "alloc_rel"], "aligned allocation",
     "1-5 threads allocate and free (also each other's blocks) through every creating function and container, with malloc and with custom allocators that "
     "return oddly aligned, guarded blocks, both failing at any point; sizes around every power of two and header size, sizes that overflow. Oracle: "
     "alignment, disjointness from all live blocks, contents preserved until freed, red zones and guard bytes, pointer and opaque returned exactly once, "
     "constructors = destructors, no leak, null only if an allocation failed; otherwise an exception or Abort, never a crash.",
     ["hwy/aligned_allocator.{h,cc}", "hwy/contrib/image/image.cc", "hwy/per_target.cc, targets.cc", "libstdc++ vector"])
prop("C11", ["sort_dbg", "sort_avx2", "sort_avx3", "sort_scalar"], "VQSort",
     "Each run draws 1-6 calls (VQSort, Sorter, VQPartialSort, VQSelect) over 12 key types, both orders, 0-6000 keys (base-case edges), 15 input shapes incl. "
     "NaN, infinities, few/equal keys, any k, misaligned or block-exact buffers; alone, from 2-4 threads, or on adjacent parts of one array; getrandom fails with five "
     "errors, returns short or adversarial bytes, the clock may stand still; an adversary who knows the entropy models the pivot sampling and key movement to force the "
     "worst recursion. Oracle: rearrangement of the input, order / partition against a scalar reference, nothing outside the keys touched, number of memory "
     "accesses within a fixed multiple of n log n, no allocation, races on the random generator.",
     ["hwy/contrib/sort/*.cc, *-inl.h for SSE2, AVX2, AVX3 (widest of this machine) and without SIMD", "hwy/highway.h ops used by it"],
     ["getrandom"])
prop("C12", ["profiler_dbg", "profiler_rel"], "profiler",
     "Trees of zones (1-140000, nesting up to 64, up to 230 names in two modules, names that the linker can and cannot merge) run on 1-7 threads that "
     "start, stall and meet clock jumps at any point, with timestamps wrapping; per-thread storage overflows. Oracle: the parsed report has every name "
     "once with its exact call count, self time at most what the clock advanced in the zone outside its children and (when calibrated undisturbed) at "
     "least that minus overhead, seconds consistent with ticks, sorted; no zone at all and CPUs without RDTSCP; data races.",
     ["hwy/profiler.h", "hwy/timer.{h,cc}", "hwy/robust_statistics.h", "hwy/contrib/sort (VQSort of accumulators)"])
prop("C13", ["timer_dbg", "timer_rel"], "timers",
     "Simulated clocks (0.024-3.7 GHz, granularity 1-20000 ticks, up to 400 days of uptime) are first used by 1-6 threads at once, calibrated alone with "
     "no, few or many delays (up to 10 ms) at any clock read, and queried for their resolution; CPU descriptions with and without brand string, RDTSCP, "
     "invariant TSC. Oracle: all threads see one rate, readings lie between the simulated clock before and after, never go backwards (also across threads that "
     "communicate), rate within 0.4% if at most two delays lower it and never above what one delay explains, resolution equals the typical back-to-back difference.",
     ["hwy/timer.{h,cc}", "hwy/robust_statistics.h", "hwy/x86_cpuid.h (above the CPUID hook)", "libstdc++ chrono, static initialisation"])
prop("C14", ["nanobench_dbg", "nanobench_rel"], "nanobenchmark",
     "Each run measures a function whose cost is a known function of 1-6 distinct inputs (given in any order and multiplicity, any value), with random "
     "parameters and clocks: undisturbed; with a minority of delayed intervals; with hostile clocks (frequent jumps up to 10 ms, granularity up to 50000 ticks, "
     "free functions); in two threads at once; on a CPU without RDTSCP. Oracle: 0 or one finite non-negative result per unique input in order, at most the time that "
     "passed, function called with the given inputs and argument only and within the bound given by the parameters, arrays accessed in bounds; undisturbed or "
     "with few delays it succeeds and agrees with the true costs within 1% plus clock resolution and reported variability. Also the estimators (CountingSort, Mode, "
     "Median, MedianAbsoluteDeviation) on 1-300 timings of which a minority is disturbed, against their definitions and independent of order.",
     ["hwy/nanobenchmark.{h,cc}", "hwy/timer.{h,cc}", "hwy/robust_statistics.h"], ["the measured function (advances the clock)"])
prop("C15", ["perf_dbg", "perf_rel"], "PerfCounters",
     "Histories of Init, StartAll, StopAllAndReset, reads and elapsing time against a model of perf_event_open/read/ioctl/prctl: any subset of events supported, "
     "any group capacity, descriptor limit, refusal errno, multiplexing share (also never scheduled), kernel release and CPU name; calls are interrupted, reads "
     "are short or fail at any position. Oracle: what is reported valid was opened (once) and equals the model's count times enabled/running time, failed reads give "
     "no valid counters, Init/StartAll results, counters stopped and reset, iteration visits the valid ones once, no use of closed descriptors.",
     ["hwy/perf_counters.{h,cc}", "hwy/bit_set.h", "hwy/x86_cpuid.h (above the CPUID hook)"],
     ["perf_event_open, read, ioctl, prctl, uname, stat (simulated kernel)"])
prop("C16", ["topo_dbg", "topo_rel"], "Topology and DataCaches",
     "Random machines (1-4 packages, 1-8 L3 clusters, up to 32 cores each, SMT 1-4, hybrid, any enumeration order, opaque ids up to 2^31, dense/sparse/"
     "memory-only/no NUMA nodes, offline CPUs, 1-5 cache indices of any geometry and sharing, missing attributes) presented as a simulated sysfs with 0-16 KiB files; "
     "sysconf restricted or failing; standard input closed; open/read interrupted, short reads, close errors; then also hard errors at any call and CPU hotplug; "
     "DataCaches from 1-4 threads. Oracle: undisturbed or merely interrupted detection equals the machine (same partition into packages, clusters, cores, "
     "hyperthreads; nodes; sizes, ways, lines, sharing); otherwise nothing or consistent in-range values; no abort, no leaked or doubly closed descriptor, no heap leak.",
     ["hwy/contrib/thread_pool/topology.{h,cc}", "hwy/bit_set.h"],
     ["open, read, close, sysconf (simulated sysfs)"])
prop("C17", ["topo_dbg", "topo_rel"], "affinity",
     "1-4 threads query, restrict and pin their affinity against a simulated scheduler with any permitted mask (64 to 1536 processors) that refuses calls with "
     "three errors at any point; sets are built with Set, Clear and 64-bit masks. Oracle: the kernel's per-thread masks, bit by bit; results "
     "match what the OS answered; sets unchanged on failure; MaxThreads is the usable processors minus one, 0 if unknown.",
     ["hwy/contrib/thread_pool/topology.{h,cc}, thread_pool.h (MaxThreads)", "hwy/bit_set.h"],
     ["sched_getaffinity, sched_setaffinity, sysconf, get_nprocs (simulated kernel)"])
prop("C18", ["matvec_dbg", "matvec_rel", "matvec_avx2", "matvec_avx3"], "MatVec",
     "1-4 products, each repeated with new inputs into the same output, of ten shapes (1x17 to 257x7) and five type combinations (float, double, int32, bf16 x float, "
     "bf16 x bf16), with or without added vector, on a pool of 0-63 threads in either wait mode; streamed stores become visible late. Oracle: exact integer products, "
     "or bit-equality with the single-threaded result; guard bytes around the output; race detector over inputs and output; heap bounds; aligned streams.",
     ["hwy/contrib/matvec/matvec-inl.h for SSE2, AVX2 and AVX3", "hwy/contrib/thread_pool/*", "hwy/cache_control.h (FlushStream)"],
     ["Stream (simulated write-combining buffers)", "futex, threads"])
prop("C19", ["algo_dbg", "algo_sse4", "algo_avx2", "algo_avx3", "algo_emu"], "algorithms on shared arrays",
     "2-5 threads call 19 algorithms and kinds of stores (1-4 calls each, all different or all the same) on adjacent ranges of 0 to some vectors of two shared "
     "arrays of eight element types, with 1 lane up to whole vectors, or pack and unpack blocks of 1-64 bits; the functors passed to them yield, so that a thread can be delayed between any load and store. "
     "Oracle: sequential scalar model of every element, race detector and bounds over all (also masked and 64-byte) accesses, elements passed to functors.",
     ["hwy/contrib/algo, bit_pack, dot, unroller", "hwy/ops for SSE2, SSE4, AVX2, AVX3 (widest of this machine), EMU128"])
prop("C20", ["random_dbg", "random_avx2", "random_avx3", "random_emu"], "random streams",
     "1-5 threads each draw from their own VectorXoshiro, CachedXoshiro<1, 2, 16, 1024> or scalar generator (same seed, different thread numbers) with up to 8 "
     "operations of any kind and count; streams then change hands; allocations of draws or of constructors fail. Oracle: sequential xoshiro256++ with independent "
     "jumps, number by number; heap bounds, races, leaks; after a failed draw the stream continues without loss.",
     ["hwy/contrib/random/random-inl.h for SSE2, AVX2, AVX3, EMU128", "hwy/aligned_allocator.{h,cc}"])
prop("C21", ["image_dbg", "image_rel"], "images shared by threads",
     "1-6 threads store whole vectors to their rows or planes of 1-10 rows of 1-300 elements of four types (owned, caller's, moved, swapped, shrunk images and "
     "triples), process tiles of a region, or read mirrored neighbours, on CPUs and after DisableTargets calls with vectors of 16 to 64 bytes; threads create, move, "
     "swap and destroy images while allocations fail. Oracle: value of every pixel, race detector and heap bounds over all whole-vector accesses, alignment, leaks.",
     ["hwy/contrib/image/image.{h,cc}", "hwy/aligned_allocator.{h,cc}", "hwy/per_target.cc, targets.{h,cc}"],
     ["vector loads and stores of the client (their byte ranges are simulated)", "cpuid, xgetbv"])
prop("C22", ["stats_dbg", "stats_rel"], "merged statistics",
     "1-6 threads gather Stats and Bins of 0-400 samples (seven distributions), which a scheduler deals out statically or from a queue in chunks, so that each thread sees "
     "a schedule-dependent subset, also none; the results are merged in random order as a chain or a parallel tree, or doubled up to 2^35 times. Oracle: count, "
     "extrema, mean, variances, skewness, kurtosis, central moments and geometric mean of all samples in long double; printed text and bins; Reset.",
     ["hwy/stats.{h,cc}"])
