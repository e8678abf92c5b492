// Search, replay and minimisation. NOT instrumented.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "rt_int.h"

namespace sim {
static Scenario g_scen[256];
static int g_num_scen = 0;
Registrar::Registrar(const char* p, const char* n, void (*fn)(), uint32_t w) {
  if (g_num_scen < 256) g_scen[g_num_scen++] = Scenario{p, n, fn, w};
}
}  // namespace sim
using namespace sim;

static double RealNow() {
  timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

static uint64_t Mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0x9E3779B97F4A7C15ull));
  r.Next();
  return r.Next() ^ (b << 1);
}

static std::vector<Scenario> ForProperty(const std::string& prop, const std::string& only) {
  std::vector<Scenario> v;
  for (int i = 0; i < g_num_scen; ++i)
    if (prop == g_scen[i].property && (only.empty() || only == g_scen[i].name)) v.push_back(g_scen[i]);
  std::sort(v.begin(), v.end(),
            [](const Scenario& a, const Scenario& b) { return strcmp(a.name, b.name) < 0; });
  return v;
}

static const Scenario& PickScenario(const std::vector<Scenario>& v, uint64_t run_seed) {
  uint64_t total = 0;
  for (auto& s : v) total += s.weight;
  Rng r(run_seed ^ 0xABCDEF);
  uint64_t x = r.Below(total);
  for (auto& s : v) {
    if (x < s.weight) return s;
    x -= s.weight;
  }
  return v[0];
}

static Shared* MapShared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return static_cast<Shared*>(p);
}

constexpr uintptr_t kSharedAt = 0x2F0000000000ull;

static int MakeMemfd(const char* name) { return static_cast<int>(syscall(SYS_memfd_create, name, 0u)); }

// Runs one simulation in a forked child; results in `sh`.
static void RunChild(Shared* sh, const Scenario& s, const RunConfig& cfg) {
  memset(static_cast<void*>(sh), 0, offsetof(Shared, decisions));
  static int err_fd = MakeMemfd("err"), out_fd = MakeMemfd("out");
  (void)!ftruncate(err_fd, 0);
  (void)!ftruncate(out_fd, 0);
  fflush(stdout);
  fflush(stderr);
  const pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(3);
  }
  if (pid == 0) {
    // At a fixed address, because pointers to it end up in unused parts of simulated stacks.
    void* fixed = mremap(static_cast<void*>(sh), sizeof(Shared), sizeof(Shared), MREMAP_MAYMOVE | MREMAP_FIXED, reinterpret_cast<void*>(kSharedAt));
    if (fixed != MAP_FAILED) sh = static_cast<Shared*>(fixed);
    g_shared = sh;
    RunConfig c = cfg;
    c.trace_fd = dup(1);
    // O_APPEND so that both our own and the child's writes are in order.
    fcntl(err_fd, F_SETFL, O_APPEND);
    fcntl(out_fd, F_SETFL, O_APPEND);
    dup2(err_fd, 2);
    dup2(out_fd, 1);
    g_capture_fd = err_fd;
    g_capture_out_fd = out_fd;
    setvbuf(stdout, nullptr, _IONBF, 0);
    setvbuf(stderr, nullptr, _IONBF, 0);
    RunInThisProcess(s, c);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (sh->status == 0) {
    // The process died without reporting: killed or exited.
    sh->status = 2;
    if (WIFSIGNALED(st)) {
      if (WTERMSIG(st) == SIGKILL) {
        snprintf(sh->cls, sizeof(sh->cls), "killed");
        snprintf(sh->msg, sizeof(sh->msg), "run was killed (out of memory or CPU time)");
      } else {
        snprintf(sh->cls, sizeof(sh->cls), "crash");
        snprintf(sh->msg, sizeof(sh->msg), "process died with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
      }
    } else {
      const int code = WEXITSTATUS(st);
      char buf[600] = "";
      const long n = syscall(SYS_pread64, err_fd, buf, sizeof(buf) - 1, 0L);
      if (n > 0) buf[n] = 0;
      snprintf(sh->cls, sizeof(sh->cls), "%s", code >= 96 && code <= 98 ? "sim-error" : "exit");
      snprintf(sh->msg, sizeof(sh->msg), "process exited with code %d: %s", code, buf);
    }
  }
}

static bool IsInfra(const Shared& s) {
  return strcmp(s.cls, "sim-error") == 0 || strcmp(s.cls, "sim-limit") == 0 || strcmp(s.cls, "killed") == 0;
}

// ------------------------------------------------------------ known findings
struct Known {
  std::string property, scenario, cls, match, text;
};
static std::vector<Known> LoadKnown(const std::string& path, const std::string& prop) {
  std::vector<Known> v;
  FILE* f = fopen(path.c_str(), "r");
  if (!f) return v;
  char line[2000];
  while (fgets(line, sizeof(line), f)) {
    std::string l(line);
    while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
    if (l.rfind("finding: ", 0) != 0) continue;
    auto field = [&](const char* key) -> std::string {
      const std::string k = std::string(" ") + key + "=";
      size_t p = l.find(k);
      if (p == std::string::npos) return "";
      p += k.size();
      if (p < l.size() && l[p] == '"') {
        size_t e = l.find('"', p + 1);
        return l.substr(p + 1, e - p - 1);
      }
      size_t e = l.find(' ', p);
      return l.substr(p, e == std::string::npos ? e : e - p);
    };
    Known k{field("property"), field("scenario"), field("class"), field("match"), field("what")};
    if (k.property == prop) v.push_back(k);
  }
  fclose(f);
  return v;
}
static int MatchKnown(const std::vector<Known>& v, const char* scenario, const Shared& s) {
  for (size_t i = 0; i < v.size(); ++i) {
    if (!v[i].scenario.empty() && v[i].scenario != scenario) continue;
    if (!v[i].cls.empty() && v[i].cls != s.cls) continue;
    if (!v[i].match.empty() && !strstr(s.msg, v[i].match.c_str())) continue;
    return static_cast<int>(i);
  }
  return -1;
}

// ------------------------------------------------------------ statistics
constexpr size_t kHashSlots = 1 << 22;
struct Stats {
  std::atomic<uint64_t> runs, steps, switches, sim_ns, plain, atomics, nontrivial, distinct, threads, reruns,
      decisions, max_threads;
  std::atomic<uint64_t> fired[kNumStreams], offered[kNumStreams], runs_fired[kNumStreams];
  std::atomic<uint64_t> scen_runs[64];
  std::atomic<uint64_t> known_hits[32];
  std::atomic<uint64_t> known_run[32];
  std::atomic<int> stop;
  std::atomic<int> num_viol;
  uint64_t viol_run[64];
  std::atomic<int> nondet;
  uint64_t nondet_run;
  std::atomic<int> infra;
  uint64_t infra_run;
  char infra_msg[400];
  std::atomic<int> probe_lock;
  ProbeCount probes[128];
  uint64_t probe_runs[128];
  uint64_t sample_run[8];
  char sample[8][400];
  std::atomic<int> num_samples;
  std::atomic<uint64_t> hashes[kHashSlots];
};

static bool InsertHash(Stats* st, uint64_t h) {
  if (h == 0) h = 1;
  size_t i = (h * 0x9E3779B97F4A7C15ull) >> 42;
  for (int k = 0; k < 64; ++k, ++i) {
    auto& e = st->hashes[i & (kHashSlots - 1)];
    uint64_t cur = e.load(std::memory_order_relaxed);
    if (cur == h) return false;
    if (cur == 0) {
      if (e.compare_exchange_strong(cur, h)) return true;
      if (cur == h) return false;
    }
  }
  return false;
}

static void Accumulate(Stats* st, const Shared& s, const char* scen, int scen_idx, uint64_t run) {
  st->runs++;
  st->steps += s.steps;
  st->switches += s.switches;
  st->sim_ns += s.sim_ns;
  st->plain += s.plain_accesses;
  st->atomics += s.atomic_ops;
  st->threads += s.threads;
  st->decisions += s.num_decisions;
  uint64_t mt = st->max_threads;
  while (s.threads > mt && !st->max_threads.compare_exchange_weak(mt, s.threads)) {
  }
  if (scen_idx < 64) st->scen_runs[scen_idx]++;
  bool any_fault = false;
  for (int k = 0; k < kNumStreams; ++k) {
    if (s.fired[k]) {
      st->runs_fired[k]++;
      any_fault = true;
    }
    st->fired[k] += s.fired[k];
    st->offered[k] += s.offered[k];
  }
  const bool nontrivial = s.switches > 2 || any_fault || s.num_decisions > 2;
  if (nontrivial) {
    st->nontrivial++;
    if (InsertHash(st, s.hash)) st->distinct++;
  }
  while (st->probe_lock.exchange(1)) {
  }
  for (int k = 0; k < kMaxProbes && s.probes[k].name[0]; ++k) {
    for (int j = 0; j < 128; ++j) {
      if (st->probes[j].name[0] == 0) memcpy(st->probes[j].name, s.probes[k].name, sizeof(s.probes[k].name));
      if (strcmp(st->probes[j].name, s.probes[k].name) == 0) {
        st->probes[j].count += s.probes[k].count;
        st->probe_runs[j]++;
        break;
      }
    }
  }
  st->probe_lock = 0;
  if (nontrivial && s.num_decisions >= 3 && st->num_samples < 3) {
    const int i = st->num_samples++;
    if (i < 3) {
      st->sample_run[i] = run;
      int n = snprintf(st->sample[i], sizeof(st->sample[i]), "scenario %s: threads=%u steps=%llu switches=%llu; first decisions:",
                       scen, s.threads, static_cast<unsigned long long>(s.steps),
                       static_cast<unsigned long long>(s.switches));
      for (uint64_t d = 0; d < s.num_decisions && d < 10 && d < kMaxDecisions && n < 330; ++d)
        n += snprintf(st->sample[i] + n, sizeof(st->sample[i]) - static_cast<size_t>(n), " %s[%u]=%llu",
                      StreamName(static_cast<int>(s.decisions[d].stream)), s.decisions[d].idx,
                      static_cast<unsigned long long>(s.decisions[d].value));
    }
  }
}

// ------------------------------------------------------------ minimisation
static bool Less(const Decision& a, const Decision& b) {
  return a.stream != b.stream ? a.stream < b.stream : a.idx < b.idx;
}

struct Minimiser {
  Shared* sh;
  Scenario scen;
  std::string cls;
  int tests = 0;
  double deadline;
  // Actual decisions of the last failing run.
  std::vector<Decision> last;
  std::string last_msg;
  uint64_t last_hash = 0;

  bool Fails(std::vector<Decision> d) {
    ++tests;
    std::sort(d.begin(), d.end(), Less);
    RunConfig c;
    c.replay = true;
    c.replay_decisions = d.data();
    c.num_replay = d.size();
    RunChild(sh, scen, c);
    if (sh->status == 2 && cls == sh->cls) {
      last.assign(sh->decisions, sh->decisions + std::min<uint64_t>(sh->num_decisions, kMaxDecisions));
      std::sort(last.begin(), last.end(), Less);
      last_msg = sh->msg;
      last_hash = sh->hash;
      return true;
    }
    return false;
  }
  bool Time() const { return RealNow() < deadline; }

  std::vector<Decision> Run(std::vector<Decision> cur) {
    // Drop whole streams.
    for (int s = kNumStreams - 1; s >= 0 && Time(); --s) {
      std::vector<Decision> t;
      for (auto& d : cur)
        if (static_cast<int>(d.stream) != s) t.push_back(d);
      if (t.size() != cur.size() && Fails(t)) cur = last;
    }
    // Shrink workload values first: it shortens everything else.
    ShrinkValues(&cur);
    // Delta debugging.
    size_t chunk = std::max<size_t>(1, cur.size() / 2);
    while (Time() && !cur.empty()) {
      bool any = false;
      for (size_t i = 0; i < cur.size() && Time();) {
        std::vector<Decision> t(cur.begin(), cur.begin() + static_cast<long>(i));
        const size_t e = std::min(cur.size(), i + chunk);
        t.insert(t.end(), cur.begin() + static_cast<long>(e), cur.end());
        if (Fails(t) && last.size() < cur.size()) {
          cur = last;
          any = true;
        } else {
          i += chunk;
        }
      }
      if (chunk == 1) {
        if (!any) break;
      } else {
        chunk = chunk / 2;
      }
    }
    ShrinkValues(&cur);
    return cur;
  }
  void ShrinkValues(std::vector<Decision>* cur) {
    for (size_t i = 0; i < cur->size() && Time(); ++i) {
      if ((*cur)[i].stream == kSched || (*cur)[i].stream == kStallWhere) continue;
      for (uint64_t div : {0, 8, 2}) {
        while (Time()) {
          const uint64_t v = (*cur)[i].value;
          const uint64_t nv = div ? v / div : 1;
          if (nv == v || nv == 0) break;
          std::vector<Decision> t = *cur;
          t[i].value = nv;
          if (!Fails(t)) break;
          *cur = t;  // keep positions; surplus entries are dropped later
          if (div == 0) break;
        }
      }
    }
    if (Time() && Fails(*cur)) *cur = last;
  }
};

static std::string g_binary_name;

static std::string WriteReplay(const std::string& dir, const std::string& prop, const Scenario& s,
                               const std::string& cls, const std::string& msg, uint64_t seed, uint64_t run,
                               uint64_t run_seed, bool explicit_mode, const std::vector<Decision>& d,
                               uint64_t hash) {
  mkdir(dir.c_str(), 0777);
  char name[300];
  snprintf(name, sizeof(name), "%s/%s-%s-%llu-%llu.replay", dir.c_str(), prop.c_str(), s.name,
           static_cast<unsigned long long>(seed), static_cast<unsigned long long>(run));
  FILE* f = fopen(name, "w");
  if (!f) {
    perror(name);
    exit(3);
  }
  std::string m = msg;
  for (char& c : m)
    if (c == '\n') c = ' ';
  fprintf(f, "hwysim-replay 1\nproperty %s\nbinary %s\nscenario %s\nclass %s\nmessage %s\nseed %llu\nrun %llu\n",
          prop.c_str(), g_binary_name.c_str(), s.name, cls.c_str(), m.c_str(),
          static_cast<unsigned long long>(seed), static_cast<unsigned long long>(run));
  fprintf(f, "run_seed %llu\nhash %llu\nmode %s\n", static_cast<unsigned long long>(run_seed),
          static_cast<unsigned long long>(hash), explicit_mode ? "decisions" : "seed");
  if (explicit_mode) {
    fprintf(f, "# each line: decision <stream name> <stream> <index> <value>; all others are 0\n");
    for (auto& x : d)
      fprintf(f, "decision %s %u %u %llu\n", StreamName(static_cast<int>(x.stream)), x.stream, x.idx,
              static_cast<unsigned long long>(x.value));
  }
  fclose(f);
  return name;
}

static int Replay(const char* path, bool trace, bool quiet) {
  FILE* f = fopen(path, "r");
  if (!f) {
    perror(path);
    return 3;
  }
  std::string prop, scen, cls, mode;
  uint64_t run_seed = 0, hash = 0;
  std::vector<Decision> ds;
  char line[4000];
  while (fgets(line, sizeof(line), f)) {
    char a[64], b[300];
    unsigned s, i;
    unsigned long long v;
    if (sscanf(line, "decision %63s %u %u %llu", a, &s, &i, &v) == 4) {
      ds.push_back(Decision{s, i, v});
    } else if (sscanf(line, "run_seed %llu", &v) == 1) {
      run_seed = v;
    } else if (sscanf(line, "hash %llu", &v) == 1) {
      hash = v;
    } else if (sscanf(line, "%63s %299s", a, b) == 2) {
      if (!strcmp(a, "property")) prop = b;
      if (!strcmp(a, "scenario")) scen = b;
      if (!strcmp(a, "class")) cls = b;
      if (!strcmp(a, "mode")) mode = b;
    }
  }
  fclose(f);
  std::vector<Scenario> v = ForProperty(prop, scen);
  if (v.size() != 1) {
    fprintf(stderr, "replay: no scenario %s/%s in this binary\n", prop.c_str(), scen.c_str());
    return 3;
  }
  std::sort(ds.begin(), ds.end(), Less);
  RunConfig c;
  c.trace = trace;
  if (mode == "decisions") {
    c.replay = true;
    c.replay_decisions = ds.data();
    c.num_replay = ds.size();
  } else {
    c.seed = run_seed;
  }
  Shared* sh = MapShared();
  RunChild(sh, v[0], c);
  const bool same = sh->status == 2 && cls == sh->cls;
  if (!quiet) {
    printf("scenario %s status %s class %s\n%s\n", scen.c_str(), sh->status == 2 ? "violation" : "ok", sh->cls, sh->msg);
    if (sh->notes[0]) printf("notes:\n%s", sh->notes);
    printf("hash %s\n", sh->hash == hash ? "identical to the recorded run" : "DIFFERS from the recorded run");
  }
  if (same) {
    if (!quiet) printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path);
    return sh->hash == hash ? 1 : 4;
  }
  return 0;
}

static void JsonStr(FILE* f, const std::string& s) {
  fputc('"', f);
  for (char c : s) {
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (static_cast<unsigned char>(c) < 32) fprintf(f, " ");
    else fputc(c, f);
  }
  fputc('"', f);
}

int main(int argc, char** argv) {
  // ASLR off so that addresses (and everything derived) repeat exactly.
  if (!getenv("HWYSIM_NOASLR")) {
    setenv("HWYSIM_NOASLR", "1", 1);
    syscall(SYS_personality, 0x0040000ul);
    execv("/proc/self/exe", argv);
  }
  std::map<std::string, std::string> opt;
  std::vector<std::string> pos;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.rfind("--", 0) == 0) {
      if (a == "--trace") opt["trace"] = "1";
      else if (i + 1 < argc) opt[a.substr(2)] = argv[++i];
    } else {
      pos.push_back(a);
    }
  }
  {
    std::string b = argv[0];
    size_t p = b.rfind('/');
    g_binary_name = p == std::string::npos ? b : b.substr(p + 1);
  }
  if (pos.empty()) {
    fprintf(stderr, "usage: search|one|replay|list\n");
    return 3;
  }
  ReserveMemory();
  const std::string prop = opt["prop"];
  const uint64_t seed = strtoull(opt["seed"].c_str(), nullptr, 10);
  if (pos[0] == "list") {
    for (int i = 0; i < g_num_scen; ++i)
      printf("%s %s weight %u\n", g_scen[i].property, g_scen[i].name, g_scen[i].weight);
    return 0;
  }
  if (pos[0] == "replay") return Replay(pos[1].c_str(), !opt["trace"].empty(), !opt["quiet"].empty());

  std::vector<Scenario> scen = ForProperty(prop, opt["scenario"]);
  if (scen.empty()) {
    fprintf(stderr, "no scenarios for %s\n", prop.c_str());
    return 3;
  }
  if (pos[0] == "one") {
    const uint64_t run = strtoull(opt["run"].c_str(), nullptr, 10);
    RunConfig c;
    c.seed = Mix(seed, run);
    c.trace = !opt["trace"].empty();
    const Scenario& s = PickScenario(scen, c.seed);
    Shared* sh = MapShared();
    RunChild(sh, s, c);
    printf("run %llu scenario %s: status=%s class=%s hash=%016llx steps=%llu switches=%llu threads=%u decisions=%llu\n%s\n%s",
           static_cast<unsigned long long>(run), s.name, sh->status == 1 ? "ok" : "VIOLATION", sh->cls,
           static_cast<unsigned long long>(sh->hash), static_cast<unsigned long long>(sh->steps),
           static_cast<unsigned long long>(sh->switches), sh->threads,
           static_cast<unsigned long long>(sh->num_decisions), sh->msg, sh->notes);
    for (int i = 0; i < kMaxProbes && sh->probes[i].name[0]; ++i)
      printf("  probe %s: %llu\n", sh->probes[i].name, static_cast<unsigned long long>(sh->probes[i].count));
    return sh->status == 1 ? 0 : 1;
  }
  if (pos[0] == "hashes") {  // determinism proof: print every run's hash
    const uint64_t from = strtoull(opt["from"].c_str(), nullptr, 10);
    const uint64_t n = strtoull(opt["n"].c_str(), nullptr, 10);
    Shared* sh = MapShared();
    for (uint64_t run = from; run < from + n; ++run) {
      RunConfig c;
      c.seed = Mix(seed, run);
      const Scenario& s = PickScenario(scen, c.seed);
      RunChild(sh, s, c);
      printf("%llu %s %d %016llx %llu %llu %llu\n", static_cast<unsigned long long>(run), s.name, sh->status,
             static_cast<unsigned long long>(sh->hash), static_cast<unsigned long long>(sh->steps),
             static_cast<unsigned long long>(sh->plain_accesses), static_cast<unsigned long long>(sh->num_decisions));
    }
    return 0;
  }
  if (pos[0] != "search") return 3;

  const double secs = opt.count("secs") ? atof(opt["secs"].c_str()) : 30;
  const int workers = opt.count("workers") ? atoi(opt["workers"].c_str()) : 8;
  const uint64_t max_runs = opt.count("maxruns") ? strtoull(opt["maxruns"].c_str(), nullptr, 10) : ~0ull;
  const std::string replay_dir = opt.count("replay-dir") ? opt["replay-dir"] : "/tmp/hwysim-replays";
  const std::vector<Known> known = LoadKnown(opt["known"], prop);
  Stats* st = static_cast<Stats*>(mmap(nullptr, sizeof(Stats), PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  const double t0 = RealNow();
  std::vector<pid_t> kids;
  for (int w = 0; w < workers; ++w) {
    fflush(stdout);
    const pid_t pid = fork();
    if (pid == 0) {
      Shared* sh = MapShared();
      for (uint64_t run = static_cast<uint64_t>(w); run < max_runs; run += static_cast<uint64_t>(workers)) {
        if (st->stop || RealNow() - t0 > secs) break;
        RunConfig c;
        c.seed = Mix(seed, run);
        const Scenario& s = PickScenario(scen, c.seed);
        const int si = static_cast<int>(&s - scen.data());
        RunChild(sh, s, c);
        Accumulate(st, *sh, s.name, si, run);
        if (sh->status == 2) {
          if (IsInfra(*sh)) {
            if (st->infra++ == 0) {
              st->infra_run = run;
              snprintf(st->infra_msg, sizeof(st->infra_msg), "%s: %s", sh->cls, sh->msg);
            }
            // Keep looking for a violation for a while.
            if (st->infra < 8) continue;
            st->stop = 1;
            break;
          }
          const int k = MatchKnown(known, s.name, *sh);
          if (k >= 0 && k < 32) {
            st->known_hits[k]++;
            st->known_run[k] = run;
            continue;
          }
          const int i = st->num_viol++;
          if (i < 64) st->viol_run[i] = run;
          st->stop = 1;
          break;
        }
        if ((run / static_cast<uint64_t>(workers)) % 64 == 5) {
          const uint64_t h = sh->hash, steps = sh->steps, pl = sh->plain_accesses;
          RunChild(sh, s, c);
          st->reruns++;
          if (sh->hash != h || sh->steps != steps || sh->plain_accesses != pl) {
            if (st->nondet++ == 0) st->nondet_run = run;
            st->stop = 1;
            break;
          }
        }
      }
      _exit(0);
    }
    kids.push_back(pid);
  }
  for (pid_t p : kids) {
    int s;
    while (waitpid(p, &s, 0) < 0 && errno == EINTR) {
    }
  }
  const double wall = RealNow() - t0;

  int rc = 0;
  std::string viol_text, viol_path, viol_cls, viol_scen;
  if (st->nondet && !st->num_viol) {
    printf("ERROR: run %llu is not deterministic (two executions differ)\n",
           static_cast<unsigned long long>(st->nondet_run));
    rc = 3;
  }
  if (st->infra && !st->num_viol) {
    printf("ERROR: simulator limit in run %llu: %s\n", static_cast<unsigned long long>(st->infra_run), st->infra_msg);
    rc = 3;
  }
  if (rc == 0 && st->num_viol > 0) {
    const int nv = std::min<int>(st->num_viol, 64);
    std::vector<uint64_t> runs(st->viol_run, st->viol_run + nv);
    std::sort(runs.begin(), runs.end());
    Shared* sh = MapShared();
    // The first that repeats; code with undefined behaviour may not always.
    uint64_t run = runs[0];
    for (uint64_t r : runs) {
      RunConfig c;
      c.seed = Mix(seed, r);
      const Scenario s = PickScenario(scen, c.seed);
      RunChild(sh, s, c);
      const uint64_t h = sh->hash;
      if (sh->status != 2) continue;
      RunChild(sh, s, c);
      if (sh->status == 2 && sh->hash == h) {
        run = r;
        break;
      }
    }
    RunConfig c;
    c.seed = Mix(seed, run);
    const Scenario s = PickScenario(scen, c.seed);
    RunChild(sh, s, c);
    const uint64_t h = sh->hash;
    const std::string cls = sh->cls, msg = sh->msg;
    const uint64_t nd = sh->num_decisions;
    std::vector<Decision> d0(sh->decisions, sh->decisions + std::min<uint64_t>(nd, kMaxDecisions));
    const bool fails1 = sh->status == 2;
    RunChild(sh, s, c);
    if (!fails1 || sh->status != 2 || sh->hash != h || cls != sh->cls) {
      printf("ERROR: violation in run %llu (%s) did not repeat with the same seed: %d/%d %016llx/%016llx\n",
             static_cast<unsigned long long>(run), cls.c_str(), fails1, sh->status,
             static_cast<unsigned long long>(h), static_cast<unsigned long long>(sh->hash));
      rc = 3;
    } else {
      Minimiser m;
      m.sh = sh;
      m.scen = s;
      m.cls = cls;
      m.deadline = RealNow() + (opt.count("minsecs") ? atof(opt["minsecs"].c_str()) : 25);
      bool explicit_mode = nd <= kMaxDecisions && m.Fails(d0);
      std::vector<Decision> d = d0;
      uint64_t rh = h;
      std::string rmsg = msg;
      if (explicit_mode && m.last_hash != h)
        printf("note: decision replay hash differs from the seed run (same violation class)\n");
      if (explicit_mode) {
        d = m.Run(m.last);
        if (!m.Fails(d)) {
          // Fall back to the unminimised decisions.
          d = d0;
          m.Fails(d);
        }
        d = m.last;
        // One more, so that the recorded hash is of exactly this file.
        if (m.Fails(d)) {
          rh = m.last_hash;
          rmsg = m.last_msg;
        }
      }
      viol_path = WriteReplay(replay_dir, prop, s, cls, rmsg, seed, run, c.seed, explicit_mode, d, rh);
      // Fresh process.
      std::string cmd = std::string("HWYSIM_NOASLR= ; unset HWYSIM_NOASLR; exec '") + argv[0] + "' replay '" + viol_path + "' --quiet 1";
      fflush(stdout);
      const int r = system(cmd.c_str());
      if (!WIFEXITED(r) || WEXITSTATUS(r) != 1) {
        printf("ERROR: replay file %s did not reproduce in a fresh process (%d)\n", viol_path.c_str(), r);
        rc = 3;
      } else {
        viol_cls = cls;
        viol_scen = s.name;
        viol_text = rmsg;
        printf("scenario %s, run %llu of seed %llu: %s: %s\n", s.name, static_cast<unsigned long long>(run),
               static_cast<unsigned long long>(seed), cls.c_str(), rmsg.c_str());
        printf("minimised from %llu to %zu decisions in %d runs\n", static_cast<unsigned long long>(nd), d.size(), m.tests);
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), viol_path.c_str());
        rc = 1;
      }
    }
  }
  for (size_t k = 0; k < known.size() && k < 32; ++k)
    if (st->known_hits[k]) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), known[k].text.c_str());

  if (opt.count("out")) {
    FILE* f = fopen(opt["out"].c_str(), "w");
    if (!f) return 3;
    fprintf(f, "{\"binary\":");
    JsonStr(f, g_binary_name);
    fprintf(f, ",\"wall_s\":%.2f,\"runs\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"steps\":%llu,\"switches\":%llu,"
            "\"sim_ns\":%llu,\"plain_accesses\":%llu,\"atomic_ops\":%llu,\"threads\":%llu,\"max_threads\":%llu,"
            "\"decisions\":%llu,\"reruns\":%llu,\"workers\":%d",
            wall, (unsigned long long)st->runs, (unsigned long long)st->nontrivial, (unsigned long long)st->distinct,
            (unsigned long long)st->steps, (unsigned long long)st->switches, (unsigned long long)st->sim_ns,
            (unsigned long long)st->plain, (unsigned long long)st->atomics, (unsigned long long)st->threads,
            (unsigned long long)st->max_threads, (unsigned long long)st->decisions, (unsigned long long)st->reruns, workers);
    fprintf(f, ",\"scenarios\":{");
    for (size_t i = 0; i < scen.size(); ++i) {
      fprintf(f, "%s", i ? "," : "");
      JsonStr(f, scen[i].name);
      fprintf(f, ":%llu", (unsigned long long)st->scen_runs[i]);
    }
    fprintf(f, "},\"faults\":{");
    bool first = true;
    for (int k = 0; k < kNumStreams; ++k) {
      if (k == kGen || k == kSched || k == kStallWhere) continue;
      if (!st->offered[k] && !st->fired[k]) continue;
      fprintf(f, "%s\"%s\":{\"opportunities\":%llu,\"fired\":%llu,\"runs_with\":%llu}", first ? "" : ",", StreamName(k),
              (unsigned long long)st->offered[k], (unsigned long long)st->fired[k], (unsigned long long)st->runs_fired[k]);
      first = false;
    }
    fprintf(f, "},\"probes\":{");
    for (int j = 0; j < 128 && st->probes[j].name[0]; ++j) {
      fprintf(f, "%s", j ? "," : "");
      JsonStr(f, st->probes[j].name);
      fprintf(f, ":{\"count\":%llu,\"runs\":%llu}", (unsigned long long)st->probes[j].count, (unsigned long long)st->probe_runs[j]);
    }
    fprintf(f, "},\"samples\":[");
    for (int i = 0; i < st->num_samples && i < 3; ++i) {
      fprintf(f, "%s{\"seed\":%llu,\"run\":%llu,\"trace\":", i ? "," : "", (unsigned long long)seed, (unsigned long long)st->sample_run[i]);
      JsonStr(f, st->sample[i]);
      fprintf(f, "}");
    }
    fprintf(f, "],\"known\":[");
    for (size_t k = 0, n = 0; k < known.size() && k < 32; ++k)
      if (st->known_hits[k]) {
        fprintf(f, "%s", n++ ? "," : "");
        JsonStr(f, known[k].text);
      }
    fprintf(f, "],\"rc\":%d,\"violation\":", rc);
    JsonStr(f, viol_text.empty() ? "" : viol_scen + ": " + viol_cls + ": " + viol_text);
    fprintf(f, ",\"replay\":");
    JsonStr(f, viol_path);
    fprintf(f, "}\n");
    fclose(f);
  }
  fflush(stdout);
  return rc;
}
