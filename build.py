#!/usr/bin/env python3
"""Builds simulation binaries from /repo's working tree. Usage: build.py NAME..."""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HWYSIM_REPO", "/repo")
OUT = os.environ.get("HWYSIM_BUILD", os.path.join(VERIF, ".build"))
CXX = "clang++"

BASE = ["-std=c++17", "-g1", "-fno-pie", "-fno-omit-frame-pointer", "-ffunction-sections", "-Wno-unused-command-line-argument",
        "-I" + REPO, "-I" + VERIF + "/sim", "-I" + VERIF + "/harness"]
# Uninitialised variables have the same (odd) values in every run.
HOOKS = ["-DHWY_SIM_HOOKS", "-ftrivial-auto-var-init=pattern"]
TSAN = ["-fsanitize=thread", "-femulated-tls", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
# Code whose accesses need no race detection (single-threaded numeric code):
# atomics are still intercepted.
TSAN_ATOMICS = TSAN + ["-mllvm", "-tsan-instrument-memory-accesses=0", "-mllvm", "-tsan-instrument-memintrinsics=0"]
# TSan ignores accesses wider than 16 bytes and masked ones. Files with this flag are compiled in two
# steps: TSan for atomics only, then ASan's (outlined, runtime-less) access callbacks for everything else.
WIDE = ["@wide1"]
WIDE_STAGE2 = ["-O1", "-fno-pie", "-fno-omit-frame-pointer", "-ffunction-sections", "-femulated-tls", "-fsanitize=address", "-Wno-override-module"]
for o in ("instrumentation-with-call-threshold=0", "stack=0", "globals=0", "use-after-scope=0", "instrument-atomics=0"):
    WIDE_STAGE2 += ["-mllvm", "-asan-" + o]
STATIC = ["-DHWY_COMPILE_ONLY_STATIC"]
DBG = ["-DHWY_IS_DEBUG_BUILD=1"]
REL = ["-DHWY_IS_DEBUG_BUILD=0", "-DNDEBUG"]

RUNTIME = [("sim/rt.cc", ["-O2"]), ("sim/driver.cc", ["-O2"]), ("harness/oracle.cc", ["-O2"]),
           ("harness/common.cc", ["-O2"])]

CORE = ["hwy/abort.cc", "hwy/aligned_allocator.cc", "hwy/per_target.cc", "hwy/print.cc", "hwy/targets.cc",
        "hwy/timer.cc", "hwy/stats.cc", "hwy/contrib/thread_pool/topology.cc", "hwy/perf_counters.cc"]


def repo_objs(files, flags):
    return [("@" + f, flags) for f in files]


BINARIES = {}


def define(name, harness, repo_files, variant, extra=None, harness_flags=None, file_flags=None):
    extra = extra or []
    flags = ["-O1"] + HOOKS + TSAN + ([] if any("COMPILE_ONLY" in e for e in extra) else STATIC) + variant + extra
    objs = list(RUNTIME)
    for f in repo_files:
        objs += repo_objs([f], flags + (file_flags or {}).get(f, []))
    objs += [(h, flags + (harness_flags or [])) for h in harness]
    BINARIES[name] = objs


for v, fl in (("dbg", DBG), ("rel", REL)):
    SORTDEF = ["hwy/contrib/sort/vqsort_f64a.cc", "hwy/contrib/sort/vqsort.cc"]
    define("stats_" + v, ["harness/h_stats.cc"], ["hwy/abort.cc", "hwy/stats.cc"], fl)
    define("tune_" + v, ["harness/h_tune.cc"], CORE + SORTDEF, fl)
    define("abort_" + v, ["harness/h_abort.cc"], ["hwy/abort.cc"], fl)
    define("alloc_" + v, ["harness/h_alloc.cc"], CORE + ["hwy/contrib/image/image.cc"], fl)
    define("profiler_" + v, ["harness/h_profiler.cc", "harness/profiler_b.cc"], CORE + SORTDEF + ["hwy/contrib/sort/vqsort_128d.cc"], fl)
    define("timer_" + v, ["harness/h_timer.cc"], CORE, fl)
    define("nanobench_" + v, ["harness/h_nanobench.cc"], CORE + ["hwy/nanobenchmark.cc"], fl)
    define("perf_" + v, ["harness/h_perf.cc"], CORE, fl, None, ["-fno-sanitize=thread"])
    define("topo_" + v, ["harness/h_topo.cc"], CORE, fl, None, ["-fno-sanitize=thread"])
    define("wait_" + v, ["harness/h_wait.cc"], CORE, fl)
    define("pool_" + v, ["harness/h_pool.cc"], CORE + ["hwy/contrib/sort/vqsort_f64a.cc", "hwy/contrib/sort/vqsort.cc"], fl)


# VQSort for every key type: baseline vectors (fully race-checked), the widest vectors of this
# machine (only scalar accesses are visible to the race detector) and without SIMD.
def cpu_has(*names):
    try:
        flags = open("/proc/cpuinfo").read().split()
    except OSError:
        return False
    return all(n in flags for n in names)


SORT = ["hwy/contrib/sort/vqsort.cc"] + ["hwy/contrib/sort/vqsort_%s%s.cc" % (t, o) for t in
        ("u16", "u32", "u64", "i16", "i32", "i64", "f32", "f64", "kv64", "kv128", "128") for o in "ad"]
SORT_ALL = SORT + ["hwy/contrib/sort/vqsort_f16%s.cc" % o for o in "ad"]
AVX2 = ["-march=haswell", "-maes"] if cpu_has("aes", "avx2", "bmi2", "fma", "f16c") else []
AVX3 = ["-march=sapphirerapids"] if cpu_has("avx512_fp16", "avx512_bf16", "avx512_bitalg", "avx512_vpopcntdq", "gfni", "vaes", "vpclmulqdq", "amx_tile") else (
    ["-march=skylake-avx512"] if cpu_has("avx512f", "avx512bw", "avx512dq", "avx512vl", "avx512cd") else AVX2)
define("sort_dbg", ["harness/h_sort.cc"], CORE + SORT, DBG, None, ["-fno-sanitize=thread"])
define("sort_avx2", ["harness/h_sort.cc"], CORE + SORT, REL, AVX2 + WIDE, ["-fno-sanitize=thread"])
define("sort_avx3", ["harness/h_sort.cc"], CORE + SORT_ALL, REL, AVX3 + WIDE + ["-DSORT_F16=1"], ["-fno-sanitize=thread"])
define("sort_scalar", ["harness/h_sort.cc"], CORE + SORT, REL, ["-DHWY_COMPILE_ONLY_SCALAR", "-DSORT_SCALAR=1"], ["-fno-sanitize=thread"])

MATVEC = CORE + ["hwy/contrib/sort/vqsort_f64a.cc", "hwy/contrib/sort/vqsort.cc"]
define("matvec_dbg", ["harness/h_matvec.cc"], MATVEC, DBG)
define("matvec_rel", ["harness/h_matvec.cc"], MATVEC, REL)
define("matvec_avx2", ["harness/h_matvec.cc"], MATVEC, REL, AVX2 + WIDE)
define("matvec_avx3", ["harness/h_matvec.cc"], MATVEC, REL, AVX3 + WIDE)


ALGO = ["hwy/abort.cc", "hwy/aligned_allocator.cc", "hwy/per_target.cc", "hwy/targets.cc"]
SSE4 = ["-msse4.2", "-maes", "-mpclmul", "-mssse3"] if cpu_has("sse4_2", "aes", "pclmulqdq") else []
define("algo_dbg", ["harness/h_algo.cc", "harness/h_bitpack.cc"], ALGO, DBG)
define("algo_sse4", ["harness/h_algo.cc", "harness/h_bitpack.cc"], ALGO, REL, SSE4)
define("algo_avx2", ["harness/h_algo.cc", "harness/h_bitpack.cc"], ALGO, REL, AVX2 + WIDE)
define("algo_avx3", ["harness/h_algo.cc", "harness/h_bitpack.cc"], ALGO, REL, AVX3 + WIDE)
define("algo_emu", ["harness/h_algo.cc", "harness/h_bitpack.cc"], ALGO, REL, ["-DHWY_COMPILE_ONLY_EMU128"])
define("random_dbg", ["harness/h_random.cc"], ALGO, DBG)
define("random_avx2", ["harness/h_random.cc"], ALGO, REL, AVX2 + WIDE)
define("random_avx3", ["harness/h_random.cc"], ALGO, REL, AVX3 + WIDE)
define("random_emu", ["harness/h_random.cc"], ALGO, REL, ["-DHWY_COMPILE_ONLY_EMU128"])


# Applications that dispatch dynamically: no HWY_COMPILE_ONLY_STATIC.
def define_dynamic(name, harness, repo_files, variant, extra=None):
    flags = ["-O1"] + HOOKS + TSAN + variant + (extra or [])
    objs = list(RUNTIME) + [("harness/cpu_model.cc", ["-O2"])]
    objs += repo_objs(repo_files, flags)
    for h in harness:
        objs.append((h, flags + (["-std=c++14"] if "14.cc" in h else [])))
    BINARIES[name] = objs


for v, fl in (("dbg", DBG), ("rel", REL)):
    define_dynamic("dispatch_" + v, ["harness/h_dispatch.cc"] + ["harness/dispatch_%s.cc" % x for x in ("a17", "b17", "c14", "d14")],
                   ["hwy/abort.cc", "hwy/per_target.cc", "hwy/targets.cc", "hwy/aligned_allocator.cc", "hwy/timer.cc"], fl,
                   ["-DHWY_COMPILE_ALL_ATTAINABLE=1"])
    define_dynamic("image_" + v, ["harness/h_image.cc"],
                   ["hwy/abort.cc", "hwy/per_target.cc", "hwy/targets.cc", "hwy/aligned_allocator.cc", "hwy/timer.cc", "hwy/contrib/image/image.cc"], fl)


def obj_path(src, flags):
    h = hashlib.sha256((src + "\0" + "\0".join(BASE + flags + (WIDE_STAGE2 if "@wide1" in flags else []))).encode()).hexdigest()[:16]
    return os.path.join(OUT, os.path.basename(src).replace(".", "_") + "-" + h + ".o")


def file_hash(p):
    try:
        with open(p, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return "missing"


def deps_of(dfile):
    try:
        txt = open(dfile).read()
    except OSError:
        return None
    txt = txt.replace("\\\n", " ")
    parts = txt.split(":", 1)[1].split()
    return [p for p in parts if not p.startswith("/usr/")]


def compile_one(src, flags):
    path = os.path.join(REPO, src[1:]) if src.startswith("@") else os.path.join(VERIF, src)
    obj = obj_path(src, flags)
    stamp = obj + ".json"
    if os.path.exists(obj) and os.path.exists(stamp):
        try:
            rec = json.load(open(stamp))
            if all(file_hash(p) == h for p, h in rec.items()):
                return obj, None
        except (ValueError, OSError):
            pass
    if os.path.exists(stamp):
        os.unlink(stamp)
    wide = "@wide1" in flags and "-fno-sanitize=thread" not in flags
    cflags = [f for f in flags if f != "@wide1"]
    if wide:
        cflags = [f for f in cflags if f not in TSAN_ATOMICS] + TSAN_ATOMICS
    cmd = [CXX] + BASE + cflags + ["-MMD", "-MF", obj + ".d"] + (["-S", "-emit-llvm", path, "-o", obj + ".ll"] if wide else ["-c", path, "-o", obj])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if wide and r.returncode == 0:
        with open(obj + ".ll") as f:
            ir = f.read()
        # TSan leaves the (now unused) original of each atomic load behind.
        ir = re.sub(r"(?m)^(  %\d+) = load atomic ptr, .*", r"\1 = bitcast ptr null to ptr", ir)
        ir = re.sub(r"(?m)^(  %\d+) = load atomic (i\d+), .*", r"\1 = add \2 0, 0", ir)
        if " load atomic " in ir:
            return None, "%s: atomic load left behind" % src
        with open(obj + ".ll", "w") as f:
            f.write(re.sub(r"(?m)^(attributes #.*) sanitize_thread", r"\1 sanitize_thread sanitize_address", ir))
        cmd = [CXX, "-x", "ir"] + WIDE_STAGE2 + ["-c", obj + ".ll", "-o", obj]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        os.unlink(obj + ".ll")
    if r.returncode != 0:
        return None, "$ " + " ".join(cmd) + "\n" + r.stdout
    rec = {p: file_hash(p) for p in deps_of(obj + ".d") or []}
    json.dump(rec, open(stamp, "w"))
    return obj, None


def build(names, jobs=None):
    """Returns {name: path}; raises RuntimeError with the compiler output."""
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    todo = {}
    for n in names:
        for src, flags in BINARIES[n]:
            todo[(src, tuple(flags))] = None
    # Longest first.
    order = sorted(todo, key=lambda k: -(("-inl" in k[0]) + ("vqsort" in k[0]) * 2 + ("h_" in k[0]) * 3))
    errors = []
    with concurrent.futures.ThreadPoolExecutor(jobs or os.cpu_count() or 8) as ex:
        futs = {ex.submit(compile_one, s, list(f)): (s, f) for s, f in order}
        for fu in concurrent.futures.as_completed(futs):
            obj, err = fu.result()
            if err:
                errors.append(err)
            todo[futs[fu]] = obj
    if errors:
        raise RuntimeError("\n".join(errors[:3]))
    paths = {}

    def link(n):
        objs = [todo[(s, tuple(f))] for s, f in BINARIES[n]]
        key = hashlib.sha256("".join(o + file_hash(o) for o in objs).encode()).hexdigest()
        out = os.path.join(OUT, n)
        stamp = out + ".link"
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
            return n, out, None
        cmd = [CXX, "-no-pie", "-g1", "-Wl,--gc-sections", "-o", out + ".tmp"] + objs + ["-ldl", "-lpthread"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return n, None, "$ " + " ".join(cmd) + "\n" + r.stdout
        os.rename(out + ".tmp", out)
        open(stamp, "w").write(key)
        return n, out, None

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for n, out, err in ex.map(link, names):
            if err:
                raise RuntimeError(err)
            paths[n] = out
    return paths


if __name__ == "__main__":
    try:
        names = sys.argv[1:] or sorted(BINARIES)
        for n, p in build(names).items():
            print(n, p)
    except RuntimeError as e:
        print(str(e)[:6000])
        sys.exit(3)
