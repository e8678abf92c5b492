// C16: topology and cache detection from a simulated /sys. C17: affinity.
// Not instrumented: the code under test is.
#include <errno.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "common.h"
#include "hwy/contrib/thread_pool/thread_pool.h"
#include "hwy/contrib/thread_pool/topology.h"

using namespace sim;
using hwy::Cache;
using hwy::LogicalProcessorSet;
using hwy::Topology;
typedef unsigned long long ull;

namespace {

// ------------------------------------------------------------- the machine
constexpr int kMaxCpus = 1300, kMaxNodes = 256, kMaxIndex = 5;
struct SimCpu {
  int package, core, l2, l3, node;  // true ids: dense, system-wide
  int smt;
  bool online;
};
struct CacheIndex {
  bool present;
  const char* type;
  int level;
  uint32_t size_kib, ways, sets, line;
  int scope;  // shared by: 0 core, 1 l2 group, 2 l3 group, 3 package
  bool has_shared_list, has_ways, has_sets, has_size, has_id;
};
struct Machine {
  SimCpu cpu[kMaxCpus];
  int num_cpus, num_packages, num_cores, num_l3;
  uint32_t package_id[8];
  uint32_t core_id[kMaxCpus], l3_id[kMaxCpus];
  bool node_exists[kMaxNodes];
  CacheIndex index[kMaxIndex];
  int num_index;
  uint32_t l2_kib_of_l3[kMaxCpus];  // hybrid machines: differs between clusters
  uint32_t l3_kib_of_l3[kMaxCpus];
  bool no_sysfs, no_caches;
  long sysconf_answer;
  bool restricted;  // sysconf reports fewer than are online (container)
};
Machine m;

struct OpenFile {
  bool open;
  char text[16384];
  size_t len, pos;
};
struct Files {
  OpenFile f[8];
  int first_fd;
  int eintr;  // consecutive
  uint64_t opens, hard;
};
Files fs;

bool HardFault(int kind, uint64_t n, uint64_t* which) {
  const uint64_t f = Fault(kind, n);
  if (!f) return false;
  ++fs.hard;
  *which = f - 1;
  return true;
}

// Linux "%*pbl" format, with newline.
template <class Pred>
size_t FormatList(char* out, size_t cap, const Pred& pred) {
  size_t n = 0;
  for (int i = 0; i < m.num_cpus;) {
    if (!pred(i)) {
      ++i;
      continue;
    }
    int j = i;
    while (j + 1 < m.num_cpus && pred(j + 1)) ++j;
    n += static_cast<size_t>(j > i ? snprintf(out + n, cap - n, "%s%d-%d", n ? "," : "", i, j)
                                   : snprintf(out + n, cap - n, "%s%d", n ? "," : "", i));
    i = j + 1;
  }
  n += static_cast<size_t>(snprintf(out + n, cap - n, "\n"));
  return n;
}
int ScopeOf(const SimCpu& c, int scope) {
  return scope == 0 ? c.core : scope == 1 ? c.l2 : scope == 2 ? c.l3 : c.package;
}

// Returns the length, or -1 if there is no such file.
long Content(const char* path, char* out, size_t cap) {
  if (m.no_sysfs) return -1;
  auto num = [&](ull v, const char* suffix) { return static_cast<long>(snprintf(out, cap, "%llu%s\n", v, suffix)); };
  auto online = [](int i) { return m.cpu[i].online; };
  int c, k;
  char rest[64] = "";
  if (sscanf(path, "/sys/devices/system/node/node%d/%63s", &k, rest) == 2 && !strcmp(rest, "cpulist")) {
    if (k < 0 || k >= kMaxNodes || !m.node_exists[k]) return -1;
    return static_cast<long>(FormatList(out, cap, [k](int i) { return m.cpu[i].online && m.cpu[i].node == k; }));
  }
  if (!strcmp(path, "/sys/devices/system/cpu/online") || !strcmp(path, "/sys/devices/system/cpu/present"))
    return static_cast<long>(FormatList(out, cap, online));
  if (!strcmp(path, "/sys/devices/system/node/online") || !strcmp(path, "/sys/devices/system/node/possible") ||
      !strcmp(path, "/sys/devices/system/node/has_cpu")) {
    size_t n = 0;
    for (int i = 0; i < kMaxNodes; ++i)
      if (m.node_exists[i]) n += static_cast<size_t>(snprintf(out + n, cap - n, "%s%d", n ? "," : "", i));
    return static_cast<long>(n + static_cast<size_t>(snprintf(out + n, cap - n, "\n")));
  }
  if (sscanf(path, "/sys/devices/system/cpu/cpu%d/%63s", &c, rest) != 2) return -1;
  if (c < 0 || c >= m.num_cpus || !m.cpu[c].online) return -1;
  const SimCpu& me = m.cpu[c];
  if (!strcmp(rest, "topology/physical_package_id")) return num(m.package_id[me.package], "");
  if (!strcmp(rest, "topology/core_id")) return num(m.core_id[me.core], "");
  if (!strcmp(rest, "topology/thread_siblings_list") || !strcmp(rest, "topology/core_cpus_list"))
    return static_cast<long>(FormatList(out, cap, [&](int i) { return m.cpu[i].online && m.cpu[i].core == me.core; }));
  if (!strcmp(rest, "topology/package_cpus_list") || !strcmp(rest, "topology/core_siblings_list"))
    return static_cast<long>(FormatList(out, cap, [&](int i) { return m.cpu[i].online && m.cpu[i].package == me.package; }));
  char leaf[64] = "";
  if (sscanf(rest, "cache/index%d/%63s", &k, leaf) != 2 || m.no_caches) return -1;
  if (k < 0 || k >= m.num_index || !m.index[k].present) return -1;
  const CacheIndex& x = m.index[k];
  const uint32_t kib = x.level == 2 ? m.l2_kib_of_l3[me.l3] : x.level == 3 ? m.l3_kib_of_l3[me.l3] : x.size_kib;
  if (!strcmp(leaf, "type")) return snprintf(out, cap, "%s\n", x.type);
  if (!strcmp(leaf, "level")) return num(static_cast<ull>(x.level), "");
  if (!strcmp(leaf, "size")) return x.has_size ? num(kib, "K") : -1;
  if (!strcmp(leaf, "ways_of_associativity")) return x.has_ways ? num(x.ways, "") : -1;
  if (!strcmp(leaf, "number_of_sets")) return x.has_sets ? num(x.sets, "") : -1;
  if (!strcmp(leaf, "coherency_line_size")) return num(x.line, "");
  if (!strcmp(leaf, "id")) return x.has_id ? num(x.level == 3 && x.scope == 2 ? m.l3_id[me.l3] : static_cast<uint32_t>(ScopeOf(me, x.scope)), "") : -1;
  if (!strcmp(leaf, "shared_cpu_list"))
    return x.has_shared_list ? static_cast<long>(FormatList(out, cap, [&](int i) {
      return m.cpu[i].online && ScopeOf(m.cpu[i], x.scope) == ScopeOf(me, x.scope);
    }))
                             : -1;
  return -1;
}

bool Interrupted() {
  if (fs.eintr < 3 && Fault(fEintrIo)) {
    ++fs.eintr;
    return true;
  }
  fs.eintr = 0;
  return false;
}

bool Open(const char* path, int, int* ret, int* err) {
  if (strncmp(path, "/sys/", 5)) return false;
  ++fs.opens;
  *ret = -1;
  if (Interrupted()) {
    *err = EINTR;
    return true;
  }
  uint64_t w;
  if (HardFault(fSyscallFail, 5, &w)) {
    const int errs[] = {ENOENT, EACCES, EMFILE, ENOMEM, EIO};
    *err = errs[w];
    return true;
  }
  if (HardFault(fCustom1, 1000, &w)) {  // hotplug
    SimCpu& c = m.cpu[w % static_cast<uint64_t>(m.num_cpus)];
    if (&c != &m.cpu[0]) c.online = !c.online;
    Probe("hotplug");
  }
  int i = 0;
  while (i < 8 && fs.f[i].open) ++i;
  SIM_CHECK(i < 8, "leaked-descriptor", "8 files are open at once");
  const long n = Content(path, fs.f[i].text, sizeof(fs.f[i].text));
  if (getenv("TOPO_TRACE")) Note("%s: %.*s", path, (int)n, fs.f[i].text);
  if (n < 0) {
    *err = ENOENT;
    return true;
  }
  SIM_CHECK(n < static_cast<long>(sizeof(fs.f[i].text)), "sim-error", "file too large");
  if (n > 200) Probe("long file");
  fs.f[i].open = true;
  fs.f[i].len = static_cast<size_t>(n);
  fs.f[i].pos = 0;
  *ret = fs.first_fd + i;
  return true;
}
bool IsOurs(int fd) { return fd >= fs.first_fd && fd < fs.first_fd + 8; }

bool Read(int fd, void* buf, size_t n, long* ret, int* err) {
  if (!IsOurs(fd)) return false;
  OpenFile& f = fs.f[fd - fs.first_fd];
  SIM_CHECK(f.open, "closed-descriptor", "read from descriptor %d, which is not open", fd);
  *ret = -1;
  if (Interrupted()) {
    *err = EINTR;
    return true;
  }
  uint64_t w;
  if (HardFault(fSyscallFail, 3, &w)) {
    const int errs[] = {EIO, ENODEV, ENOMEM};
    *err = errs[w];
    return true;
  }
  size_t k = f.len - f.pos;
  if (k > n) k = n;
  if (k > 1)
    if (uint64_t s = Fault(fShortIo, 16)) {
      k = 1 + (k - 1) * (s - 1) / 16;
      Probe("short read");
    }
  memcpy(buf, f.text + f.pos, k);
  f.pos += k;
  *ret = static_cast<long>(k);
  return true;
}
bool Pread(int fd, void* buf, size_t n, long off, long* ret, int* err) {
  if (!IsOurs(fd)) return false;
  OpenFile& f = fs.f[fd - fs.first_fd];
  const size_t pos = f.pos;
  f.pos = static_cast<size_t>(off) < f.len ? static_cast<size_t>(off) : f.len;
  const bool ok = Read(fd, buf, n, ret, err);
  f.pos = pos;
  return ok;
}

// Linux always closes, even if it reports an error.
bool Close(int fd, int* ret, int* err) {
  if (!IsOurs(fd)) return false;
  OpenFile& f = fs.f[fd - fs.first_fd];
  SIM_CHECK(f.open, "closed-descriptor", "closed descriptor %d, which is not open", fd);
  f.open = false;
  *ret = 0;
  if (uint64_t w = Fault(fCustom2, 2)) {
    *ret = -1;
    *err = w == 1 ? EINTR : EIO;
    Probe("close reports an error");
  }
  return true;
}
bool Access(const char* path, int* ret, int* err) {
  if (strncmp(path, "/sys/", 5)) return false;
  static char text[16384];
  *ret = Content(path, text, sizeof(text)) >= 0 ? 0 : -1;
  *err = ENOENT;
  return true;
}
bool Sysconf(int name, long* ret) {
  if (name != _SC_NPROCESSORS_ONLN && name != _SC_NPROCESSORS_CONF) return false;
  *ret = m.sysconf_answer;
  return true;
}

uint32_t OpaqueId(int kind, int i, uint64_t salt) {
  switch (kind) {
    case 0: return static_cast<uint32_t>(i);
    case 1: return static_cast<uint32_t>(i * 4 + 36);
    case 2: return Hash32(static_cast<uint32_t>(i), static_cast<uint32_t>(salt)) % 2000000u * 1000u + static_cast<uint32_t>(i);  // large
    default: return 2147483647u - static_cast<uint32_t>(i);
  }
}

void BuildMachine() {
  SetWeakMemory(false);
  SetStepBudget(4000000, 4000000);
  memset(&m, 0, sizeof(m));
  memset(&fs, 0, sizeof(fs));
  fs.first_fd = Gen(8) == 7 ? 0 : 40;  // standard input may be closed
  const bool huge = Gen(150) == 149;
  m.num_packages = 1 + static_cast<int>(Gen(4));
  const int l3_per_package = 1 + static_cast<int>(Gen(huge ? 8 : 4));
  const int cores_per_l3 = 1 + static_cast<int>(Gen(huge ? 32 : 12));
  const int smt = 1 << Gen(3);
  const int cores_per_l2 = 1 + static_cast<int>(Gen(4) == 3 ? Gen(5) : 0);
  const bool hybrid = Gen(6) == 5;  // odd clusters lack SMT
  // All logical processors in order package, l3, core, smt.
  SimCpu list[kMaxCpus];
  int n = 0, core = 0, l2 = 0, l3 = 0;
  for (int p = 0; p < m.num_packages; ++p)
    for (int x = 0; x < l3_per_package; ++x, ++l3) {
      for (int c = 0; c < cores_per_l3; ++c, ++core) {
        if (c && c % cores_per_l2 == 0) ++l2;
        const int threads = hybrid && (x & 1) ? 1 : smt;
        for (int s = 0; s < threads && n < kMaxCpus; ++s) list[n++] = SimCpu{p, core, l2, l3, 0, s, true};
      }
      ++l2;
    }
  m.num_cpus = n;
  m.num_cores = core;
  m.num_l3 = l3;
  switch (Gen(3)) {
    case 0: memcpy(m.cpu, list, sizeof(list)); break;
    case 1: {  // all first hyperthreads, then all second, ..
      int k = 0;
      for (int s = 0; s < smt; ++s)
        for (int i = 0; i < n; ++i)
          if (list[i].smt == s) m.cpu[k++] = list[i];
      break;
    }
    default: {  // any order
      Rng r(Gen(1u << 20));
      for (int i = n - 1; i > 0; --i) {
        const int j = static_cast<int>(r.Next() % static_cast<uint64_t>(i + 1));
        const SimCpu t = list[i];
        list[i] = list[j];
        list[j] = t;
      }
      memcpy(m.cpu, list, sizeof(list));
    }
  }
  const int pk = static_cast<int>(Gen(4)), ck = static_cast<int>(Gen(4)), xk = static_cast<int>(Gen(4));
  for (int i = 0; i < m.num_packages; ++i) m.package_id[i] = OpaqueId(pk, i, 1);
  const int cores_per_package = l3_per_package * cores_per_l3;
  const bool core_restarts = GenBool();  // core ids are unique within a package only
  for (int i = 0; i < core; ++i) m.core_id[i] = OpaqueId(ck, core_restarts ? i % cores_per_package : i, 2);
  const bool l3_restarts = GenBool();
  for (int i = 0; i < l3; ++i) m.l3_id[i] = OpaqueId(xk, l3_restarts ? i % l3_per_package : i, 3);
  // NUMA.
  const int numa = static_cast<int>(Gen(4));  // none, package, l3, interleaved
  const int stride = Gen(4) == 3 ? 1 + static_cast<int>(Gen(8)) : 1;
  int num_nodes = 1;
  for (int i = 0; i < n; ++i) {
    SimCpu& c = m.cpu[i];
    int node = numa == 0 ? 0 : numa == 1 ? c.package : numa == 2 ? c.l3 : i % 3;
    if (node >= num_nodes) num_nodes = node + 1;
    c.node = node * stride;
    m.node_exists[c.node] = true;
  }
  if (stride > 1) Probe("sparse nodes");
  for (int extra = static_cast<int>(Gen(6)) - 3; extra > 0; --extra) {  // memory-only
    const int node = static_cast<int>(Gen(2) ? (num_nodes - 1) * stride + extra : Gen(256));
    m.node_exists[node] = true;
    Probe("memory-only node");
  }
  if (Gen(16) == 15) memset(m.node_exists, 0, sizeof(m.node_exists));  // kernel without NUMA
  // Caches.
  auto add = [](const char* type, int level, int scope, uint32_t sets, uint32_t ways, uint32_t line) {
    CacheIndex& x = m.index[m.num_index++];
    x = CacheIndex{true, type, level, sets * ways * line / 1024, ways, sets, line, scope, true, true, true, true, true};
  };
  const uint32_t lines[] = {64, 64, 128, 32};
  const uint32_t line = GenPick(lines);
  const uint32_t base = 1024 / line;  // sets per KiB and way
  const uint32_t w1[] = {8, 12, 4, 2, 1}, w2[] = {16, 8, 20, 4, 10, 1}, w3[] = {16, 11, 12, 20, 4, 15};
  add("Data", 1, 0, base << Gen(4), GenPick(w1), line);
  if (Gen(8) != 7) add("Instruction", 1, 0, base << Gen(4), GenPick(w1), line);
  add("Unified", 2, 1, (base << (4 + Gen(4))) * (Gen(4) == 3 ? 3 : 1), GenPick(w2), line);
  if (Gen(5) != 4) add("Unified", 3, Gen(4) == 3 ? 3 : 2, (base << (4 + Gen(8))) * (Gen(3) == 2 ? 3 : 1), GenPick(w3), line);
  if (m.num_index == 4 && Gen(6) == 5) add("Unified", 4, 3, base << 12, 16, line);
  for (int i = 0; i < m.num_index; ++i) {
    CacheIndex& x = m.index[i];
    switch (Gen(40)) {
      case 35: x.has_id = false; break;
      case 36: x.has_shared_list = false; break;
      case 37: x.has_ways = false; break;
      case 38: x.has_sets = false; break;
      case 39:  // fully associative, or unknown
        x.ways = 0;
        Probe("ways 0");
        break;
      default: break;
    }
    if (Gen(100) == 99) x.has_size = false;
  }
  for (int i = 0; i < l3; ++i) {
    for (int k = 0; k < m.num_index; ++k) {
      // Only clusters other than that of CPU 0 may differ.
      const uint32_t mul = hybrid && i != m.cpu[0].l3 ? 2 : 1;
      if (m.index[k].level == 2) m.l2_kib_of_l3[i] = m.index[k].size_kib * mul;
      if (m.index[k].level == 3) m.l3_kib_of_l3[i] = m.index[k].size_kib * mul;
    }
  }
  if (Gen(20) == 19) m.no_caches = true;
  if (Gen(40) == 39) m.no_sysfs = true;
  // Offline processors; the first cannot be.
  if (Gen(4) == 3) {
    for (int k = static_cast<int>(Gen(4)); k > 0 && n > 1; --k) m.cpu[1 + Gen(static_cast<uint64_t>(n - 1))].online = false;
    if (GenBool())
      for (int i = n - static_cast<int>(Gen(static_cast<uint64_t>(n))); i < n; ++i)
        if (i > 0) m.cpu[i].online = false;
  }
  int online = 0;
  for (int i = 0; i < n; ++i) online += m.cpu[i].online;
  m.sysconf_answer = online;
  if (Gen(6) == 5) {
    m.restricted = true;
    const long answers[] = {1 + static_cast<long>(Gen(static_cast<uint64_t>(online))), 1, 0, -1};
    m.sysconf_answer = answers[Gen(4)];
    Probe("container");
  }
  os.open = &Open;
  os.read = &Read;
  os.pread = &Pread;
  os.close = &Close;
  os.stat = &Access;
  os.sysconf = &Sysconf;
  SetHwThreads(online);
}

void CheckNothingOpen() {
  for (const OpenFile& f : fs.f) SIM_CHECK(!f.open, "leaked-descriptor", "a file is still open");
}

size_t ExpectedLps() {
  return m.sysconf_answer <= 0 ? 1 : m.sysconf_answer > 1024 ? 1024 : static_cast<size_t>(m.sysconf_answer);
}

// `exact`: no fault during detection.
void CheckTopology(const Topology& t, bool exact) {
  const size_t n = ExpectedLps();
  bool complete = !m.no_sysfs && static_cast<int>(n) <= m.num_cpus;
  for (size_t i = 0; complete && i < n; ++i) complete = m.cpu[i].online;
  if (t.packages.empty()) {
    SIM_CHECK(!exact || !complete, "lost-topology", "nothing detected although the tree describes all %zu processors", n);
    Probe("no topology");
    return;
  }
  SIM_CHECK(!exact || complete, "invented-topology", "detected %zu packages although processors are missing from the tree", t.packages.size());
  SIM_CHECK(t.lps.size() == n, "wrong-topology", "%zu processors, expected %zu", t.lps.size(), n);
  // Valid indices, consistent sets.
  size_t clusters = 0, cores = 0, in_clusters = 0, in_cores = 0;
  for (const auto& p : t.packages) {
    SIM_CHECK(!p.clusters.empty() && !p.cores.empty(), "wrong-topology", "package without cluster or core");
    clusters += p.clusters.size();
    cores += p.cores.size();
    for (const auto& c : p.clusters) in_clusters += c.lps.Count();
    for (const auto& c : p.cores) {
      in_cores += c.lps.Count();
      SIM_CHECK(c.lps.Any(), "wrong-topology", "core without processors");
    }
  }
  SIM_CHECK(in_clusters == n && in_cores == n, "wrong-topology", "clusters have %zu and cores %zu of %zu processors", in_clusters, in_cores, n);
  for (size_t i = 0; i < n; ++i) {
    const Topology::LP& lp = t.lps[i];
    SIM_CHECK(lp.package < t.packages.size(), "wrong-topology", "processor %zu in package %u of %zu", i, lp.package, t.packages.size());
    const auto& p = t.packages[lp.package];
    SIM_CHECK(lp.cluster < p.clusters.size() && lp.core < p.cores.size(), "wrong-topology",
              "processor %zu in cluster %u of %zu, core %u of %zu", i, lp.cluster, p.clusters.size(), lp.core, p.cores.size());
    SIM_CHECK(p.clusters[lp.cluster].lps.Get(i) && p.cores[lp.core].lps.Get(i), "wrong-topology", "processor %zu not in the set of its cluster and core", i);
    SIM_CHECK(lp.smt < p.cores[lp.core].lps.Count(), "wrong-topology", "processor %zu is hyperthread %u of %zu", i, lp.smt, p.cores[lp.core].lps.Count());
    // Unless it was not read, the node is the true one.
    const int node = m.cpu[i].node;
    const bool have_nodes = node < kMaxNodes && m.node_exists[node];
    SIM_CHECK(lp.node == (have_nodes ? node : 0) || (lp.node == 0 && !exact), "wrong-topology", "processor %zu on node %u, expected %d", i, lp.node,
              have_nodes ? node : 0);
  }
  // Different hyperthreads of a core.
  for (size_t i = 0; i < n; ++i) {
    const auto& c = t.packages[t.lps[i].package].cores[t.lps[i].core];
    uint32_t seen = 0;
    if (c.lps.First() != i) continue;
    c.lps.Foreach([&](size_t lp) { seen |= 1u << t.lps[lp].smt; });
    SIM_CHECK(seen == (1u << c.lps.Count()) - 1, "wrong-topology", "hyperthreads of the core of processor %zu are %x", i, seen);
  }
  // Sizes.
  for (const auto& p : t.packages)
    for (const auto& c : p.clusters) {
      if (!c.lps.Any()) {
        SIM_CHECK(!exact, "wrong-topology", "cluster without processors");
        continue;
      }
      const SimCpu& first = m.cpu[c.lps.First()];
      // The tree's index2 is not the L2 if there is no instruction cache.
      uint32_t size[2] = {0, 0};
      for (int k = 2; k <= 3; ++k) {
        if (m.no_caches || k >= m.num_index || !m.index[k].has_size) continue;
        const CacheIndex& x = m.index[k];
        size[k - 2] = x.level == 2 ? m.l2_kib_of_l3[first.l3] : x.level == 3 ? m.l3_kib_of_l3[first.l3] : x.size_kib;
      }
      if (m.num_index < 3 || m.index[1].level != 1) continue;
      SIM_CHECK(c.private_kib == size[0] || (c.private_kib == 0 && !exact), "wrong-size", "private_kib %llu, expected %u", (ull)c.private_kib, size[0]);
      SIM_CHECK(c.shared_kib == size[1] || (c.shared_kib == 0 && !exact), "wrong-size", "shared_kib %llu, expected %u", (ull)c.shared_kib, size[1]);
    }
  if (!exact) return;
  // Same partition as the machine's.
  const bool have_l3 = !m.no_caches && m.num_index > 3 && m.index[3].has_id && m.index[1].level == 1;
  const bool unclear = m.index[1].level != 1;
  int16_t rep_package[8], rep_core[kMaxCpus + 1], rep_l3[kMaxCpus + 1];
  memset(rep_package, -1, sizeof(rep_package));
  memset(rep_core, -1, sizeof(rep_core));
  memset(rep_l3, -1, sizeof(rep_l3));
  size_t want_packages = 0, want_cores = 0, want_clusters = 0;
  for (size_t i = 0; i < n; ++i) {
    const SimCpu& c = m.cpu[i];
    const Topology::LP& lp = t.lps[i];
    const int16_t self = static_cast<int16_t>(i);
    if (rep_package[c.package] < 0) rep_package[c.package] = self, ++want_packages;
    SIM_CHECK(t.lps[static_cast<size_t>(rep_package[c.package])].package == lp.package, "wrong-topology", "processors %d and %zu are not in the same package",
              rep_package[c.package], i);
    if (rep_core[c.core] < 0) rep_core[c.core] = self, ++want_cores;
    SIM_CHECK(t.lps[static_cast<size_t>(rep_core[c.core])].core == lp.core, "wrong-topology", "processors %d and %zu are not in the same core",
              rep_core[c.core], i);
    const int cluster = have_l3 ? ScopeOf(c, m.index[3].scope) : c.package;
    if (rep_l3[cluster] < 0) rep_l3[cluster] = self, ++want_clusters;
    if (!unclear)
      SIM_CHECK(t.lps[static_cast<size_t>(rep_l3[cluster])].cluster == lp.cluster, "wrong-topology", "processors %d and %zu are not in the same cluster",
                rep_l3[cluster], i);
  }
  SIM_CHECK(t.packages.size() == want_packages && cores == want_cores, "wrong-topology", "%zu packages and %zu cores, expected %zu and %zu",
            t.packages.size(), cores, want_packages, want_cores);
  if (!unclear) SIM_CHECK(clusters == want_clusters, "wrong-topology", "%zu clusters, expected %zu", clusters, want_clusters);
  Probe("topology correct");
}

void CheckCaches(const Cache* caches, bool exact) {
  bool complete = !m.no_sysfs && static_cast<int>(ExpectedLps()) <= m.num_cpus;
  for (size_t i = 0; complete && i < ExpectedLps(); ++i) complete = m.cpu[i].online;
  const CacheIndex* by_level[4] = {nullptr};
  for (int k = 0; k < m.num_index; ++k) {
    const CacheIndex& x = m.index[k];
    if (!strcmp(x.type, "Instruction") || x.level > 3) continue;
    by_level[x.level] = &x;
  }
  // Can this level be described?
  auto known = [&](int level) {
    const CacheIndex* x = by_level[level];
    return !m.no_caches && x && x->has_size && x->has_ways && x->has_sets && x->size_kib;
  };
  if (!caches) {
    // Without the associativity, there may be no result.
    const bool expect = complete && known(1) && known(2) && by_level[1]->ways && by_level[2]->ways;
    SIM_CHECK(!exact || !expect, "lost-caches", "no caches detected although the tree describes them");
    Probe("no caches");
    return;
  }
  SIM_CHECK(!exact || (complete && known(1) && known(2)), "invented-caches", "caches detected although the tree does not describe them");
  for (int level = 1; level <= 3; ++level) {
    const Cache& c = caches[level];
    const CacheIndex* x = by_level[level];
    if (c.size_kib == 0) {
      SIM_CHECK(level == 3, "lost-caches", "L%d has size 0", level);
      // Level 3 is dropped if each core has little of it.
      if (exact && known(3) && x->ways) {
        int sharing = 0;
        for (size_t i = 0; i < ExpectedLps(); ++i) {
          bool first = ScopeOf(m.cpu[i], x->scope) == ScopeOf(m.cpu[0], x->scope);
          for (size_t j = 0; first && j < i; ++j) first = m.cpu[j].core != m.cpu[i].core;
          sharing += first;
        }
        SIM_CHECK((sharing >= 16 && x->size_kib / static_cast<uint32_t>(sharing) <= 512) || x->size_kib < static_cast<uint32_t>(sharing), "lost-caches",
                  "no L3, expected %u KiB shared by %d cores", x->size_kib, sharing);
      }
      SIM_CHECK(c.sets == 0 && c.bytes_per_line == 0 && c.cores_sharing == 0, "wrong-cache", "L%d has size 0 but other values", level);
      continue;
    }
    SIM_CHECK(x && !m.no_sysfs && !m.no_caches, "invented-caches", "L%d does not exist", level);
    // Distinct cores sharing it.
    int sharing = 0;
    for (size_t i = 0; i < ExpectedLps() && static_cast<int>(i) < m.num_cpus; ++i) {
      bool first = m.cpu[i].online && ScopeOf(m.cpu[i], x->scope) == ScopeOf(m.cpu[0], x->scope);
      for (size_t j = 0; first && j < i; ++j) first = m.cpu[j].core != m.cpu[i].core;
      sharing += first;
    }
    if (!x->has_shared_list || sharing == 0) sharing = 1;
    SIM_CHECK(c.cores_sharing >= 1, "wrong-cache", "L%d shared by no core", level);
    SIM_CHECK(c.size_kib <= x->size_kib && c.sets <= x->sets, "wrong-cache", "L%d has %u KiB and %u sets, more than the %u KiB and %u sets in total", level,
              c.size_kib, c.sets, x->size_kib, x->sets);
    if (x->ways) {
      SIM_CHECK(c.bytes_per_line == x->line, "wrong-cache", "L%d has %u bytes per line, expected %u", level, c.bytes_per_line, x->line);
      SIM_CHECK(c.associativity == x->ways, "wrong-cache", "L%d has %u ways, expected %u", level, c.associativity, x->ways);
    }
    if (!exact) continue;
    SIM_CHECK(c.cores_sharing == sharing, "wrong-cache", "L%d shared by %u cores, expected %d", level, c.cores_sharing, sharing);
    const uint32_t u = static_cast<uint32_t>(sharing);
    SIM_CHECK(c.size_kib == x->size_kib / u, "wrong-cache", "L%d: %u KiB per core, expected %u / %u", level, c.size_kib, x->size_kib, u);
    if (x->ways) {
      // Rounding down to whole KiB may lose that many sets.
      const uint32_t most = x->sets / u, loss = (1024 + x->ways * x->line - 1) / (x->ways * x->line);
      SIM_CHECK(c.sets <= most && c.sets + loss >= most, "wrong-cache", "L%d: %u sets per core, expected %u / %u", level, c.sets, x->sets, u);
    }
  }
  Probe("caches correct");
}

struct CacheQuery {
  const Cache* result;
};
void QueryCaches(void* arg) { static_cast<CacheQuery*>(arg)->result = hwy::DataCaches(); }

void Detect() {
  const int ops = 1 + static_cast<int>(Gen(3));
  for (int i = 0; i < ops; ++i) {
    const uint64_t hard = fs.hard;
    fs.eintr = 0;
    if (Gen(2) == 0) {
      const uint64_t mark = HeapMark();
      {
        SIM_CHECK(hwy::TotalLogicalProcessors() == ExpectedLps(), "wrong-total", "TotalLogicalProcessors is %zu, the OS says %ld",
                  hwy::TotalLogicalProcessors(), m.sysconf_answer);
        const Topology t;
        CheckNothingOpen();
        CheckTopology(t, hard == 0 && fs.hard == 0);
      }
      const void* p;
      size_t size;
      SIM_CHECK(HeapLiveSince(mark, &p, &size) == 0, "leak", "%zu bytes at %p are still allocated", size, p);
    } else {
      const int threads = static_cast<int>(Gen(4));
      CacheQuery q[4] = {};
      int tids[3];
      for (int k = 0; k < threads; ++k) tids[k] = Spawn(&QueryCaches, &q[k]);
      QueryCaches(&q[3]);
      for (int k = 0; k < threads; ++k) {
        Join(tids[k]);
        SIM_CHECK(q[k].result == q[3].result, "wrong-cache", "threads see different results");
      }
      CheckNothingOpen();
      static bool detected = false;  // later queries return the same
      if (!detected) CheckCaches(q[3].result, fs.hard == 0);
      detected = true;
    }
  }
}

// -------------------------------------------------------------- affinity
struct Kernel {
  uint64_t permitted[24];  // up to 1536 processors
  uint64_t mask[64][24];   // per thread
  bool set[64];
  size_t mask_bytes;       // of the kernel
  uint64_t get_failed[64], set_failed[64];
};
Kernel k;

uint64_t* MaskOf(int tid) {
  if (!k.set[tid]) {
    memcpy(k.mask[tid], k.permitted, sizeof(k.permitted));
    k.set[tid] = true;
  }
  return k.mask[tid];
}
bool GetAff(int pid, size_t n, void* mask, long* ret, int* err) {
  const int tid = Tid();
  SIM_CHECK(pid == 0 || pid == 1000 + tid, "wrong-thread", "queried affinity of %d", pid);
  *ret = -1;
  if (uint64_t f = Fault(fSchedAffinity, 3)) {
    const int errs[] = {ENOSYS, EPERM, EINVAL};
    *err = errs[f - 1];
    ++k.get_failed[tid];
    return true;
  }
  if (n < k.mask_bytes) {
    *err = EINVAL;
    ++k.get_failed[tid];
    return true;
  }
  memcpy(mask, MaskOf(tid), k.mask_bytes);
  *ret = static_cast<long>(k.mask_bytes);
  return true;
}
bool SetAff(int pid, size_t n, const void* mask, long* ret, int* err) {
  const int tid = Tid();
  SIM_CHECK(pid == 0 || pid == 1000 + tid, "wrong-thread", "changed affinity of %d", pid);
  *ret = -1;
  if (uint64_t f = Fault(fSchedAffinity, 3)) {
    const int errs[] = {EPERM, ENOSYS, EINVAL};
    *err = errs[f - 1];
    ++k.set_failed[tid];
    return true;
  }
  uint64_t want[24] = {0};
  memcpy(want, mask, n < sizeof(want) ? n : sizeof(want));
  uint64_t any = 0;
  for (int i = 0; i < 24; ++i) any |= want[i] &= k.permitted[i];
  if (!any) {
    *err = EINVAL;
    ++k.set_failed[tid];
    return true;
  }
  MaskOf(tid);
  memcpy(k.mask[tid], want, sizeof(want));
  *ret = 0;
  return true;
}

size_t CountMask(const uint64_t* w) {
  size_t n = 0;
  for (int i = 0; i < 24; ++i) n += static_cast<size_t>(__builtin_popcountll(w[i]));
  return n;
}
void CheckSame(const LogicalProcessorSet& lps, const uint64_t* w, const char* what) {
  for (size_t i = 0; i < hwy::kMaxLogicalProcessors; ++i)
    SIM_CHECK(lps.Get(i) == ((w[i / 64] >> (i % 64)) & 1), "wrong-set", "%s: processor %zu is %sin the set", what, i, lps.Get(i) ? "" : "not ");
  SIM_CHECK(lps.Count() == CountMask(w), "wrong-set", "%s: Count is %zu of %zu", what, lps.Count(), CountMask(w));
  SIM_CHECK(lps.Any() == (CountMask(w) != 0), "wrong-set", "%s: Any is %d", what, lps.Any());
  SIM_CHECK(lps.Get64() == w[0], "wrong-set", "%s: Get64 is %016lx, not %016lx", what, static_cast<unsigned long>(lps.Get64()), static_cast<unsigned long>(w[0]));
  size_t visits = 0, prev = 0;
  lps.Foreach([&](size_t i) {
    SIM_CHECK(i < hwy::kMaxLogicalProcessors && ((w[i / 64] >> (i % 64)) & 1) && (visits == 0 || i > prev), "wrong-set", "%s: visited %zu", what, i);
    if (visits == 0) SIM_CHECK(lps.First() == i, "wrong-set", "%s: First is %zu, not %zu", what, lps.First(), i);
    prev = i;
    ++visits;
  });
  SIM_CHECK(visits == CountMask(w), "wrong-set", "%s: visited %zu of %zu", what, visits, CountMask(w));
}

size_t GenCpu(int shape) {
  switch (shape) {
    case 0: return Gen(8);
    case 1: return Gen(1024);
    default: {
      const size_t edges[] = {0, 63, 64, 127, 128, 1023, 960, 511};
      return edges[Gen(8)];
    }
  }
}

void AffinityThread(void*) {
  const int tid = Tid();
  const int ops = 1 + static_cast<int>(Gen(12));
  LogicalProcessorSet reused;
  uint64_t reused_words[24] = {0};
  for (int op = 0; op < ops; ++op) {
    switch (Gen(5)) {
      case 0: {  // query
        const bool fresh = GenBool();
        LogicalProcessorSet mine;
        LogicalProcessorSet& lps = fresh ? mine : reused;
        uint64_t zero[24] = {0};
        const uint64_t failed = k.get_failed[tid];
        const bool ok = hwy::GetThreadAffinity(lps);
        if (!ok) {
          SIM_CHECK(k.get_failed[tid] != failed, "lost-result", "GetThreadAffinity failed although the OS answered");
          CheckSame(lps, fresh ? zero : reused_words, "set after a failed query");
          Probe("query failed");
          break;
        }
        CheckSame(lps, MaskOf(tid), "queried affinity");
        if (!fresh) memcpy(reused_words, MaskOf(tid), sizeof(reused_words));
        break;
      }
      case 1: {  // restrict to any set
        LogicalProcessorSet lps;
        uint64_t words[24] = {0};
        const int shape = static_cast<int>(Gen(3));
        for (int n = static_cast<int>(Gen(6)); n > 0; --n) {
          const size_t i = GenCpu(shape);
          lps.Set(i);
          words[i / 64] |= 1ull << (i % 64);
        }
        if (Gen(3) == 2) {
          const uint64_t pick = Gen(3), bits = pick == 0 ? 0 : pick == 1 ? ~0ull : Gen(1u << 16);
          lps.SetNonzeroBitsFrom64(bits);
          words[0] |= bits;
        }
        if (Gen(4) == 3) {
          const size_t i = GenCpu(shape);
          lps.Clear(i);
          words[i / 64] &= ~(1ull << (i % 64));
        }
        CheckSame(lps, words, "set");
        uint64_t before[24];
        memcpy(before, MaskOf(tid), sizeof(before));
        const uint64_t failed = k.set_failed[tid];
        const bool ok = hwy::SetThreadAffinity(lps);
        SIM_CHECK(ok == (k.set_failed[tid] == failed), "wrong-result", "SetThreadAffinity returned %d, the OS %s", ok,
                  k.set_failed[tid] == failed ? "accepted it" : "refused");
        uint64_t want[24];
        bool any = false;
        for (int i = 0; i < 24; ++i) any |= (want[i] = words[i] & k.permitted[i]) != 0;
        if (!any) SIM_CHECK(!ok, "wrong-result", "SetThreadAffinity accepted an empty set");
        SIM_CHECK(!memcmp(MaskOf(tid), ok ? want : before, sizeof(before)), "wrong-mask", "thread may run on other processors than requested");
        CheckSame(lps, words, "set after SetThreadAffinity");
        break;
      }
      case 2: {  // pin
        const size_t i = GenCpu(static_cast<int>(Gen(3)));
        uint64_t before[24];
        memcpy(before, MaskOf(tid), sizeof(before));
        const uint64_t failed = k.set_failed[tid];
        const bool ok = hwy::PinThreadToLogicalProcessor(i);
        SIM_CHECK(ok == (k.set_failed[tid] == failed), "wrong-result", "PinThreadToLogicalProcessor returned %d", ok);
        if (ok) {
          SIM_CHECK(CountMask(MaskOf(tid)) == 1 && (MaskOf(tid)[i / 64] >> (i % 64) & 1), "wrong-mask", "not confined to %zu", i);
          Probe("pinned");
        } else {
          SIM_CHECK(!memcmp(MaskOf(tid), before, sizeof(before)), "wrong-mask", "failed pinning changed the mask");
        }
        break;
      }
      case 3: {
        const uint64_t failed = k.get_failed[tid];
        const size_t n = hwy::ThreadPool::MaxThreads();
        const size_t hw = static_cast<size_t>(HwThreads());
        const size_t usable = k.get_failed[tid] == failed ? CountMask(MaskOf(tid)) : hw;
        SIM_CHECK(n == (usable ? usable - 1 : 0), "wrong-max-threads", "MaxThreads is %zu, %zu processors are usable", n, usable);
        break;
      }
      default: {
        const size_t n = hwy::TotalLogicalProcessors();
        SIM_CHECK(n == ExpectedLps(), "wrong-total", "TotalLogicalProcessors is %zu, the OS says %ld", n, m.sysconf_answer);
        break;
      }
    }
  }
}

}  // namespace

SIM_SCENARIO(C16, intact, 3) {
  BuildMachine();
  Detect();
}
SIM_SCENARIO(C16, interrupted, 2) {
  BuildMachine();
  EnableFault(fEintrIo, 50000);
  EnableFault(fShortIo, 200000);
  EnableFault(fCustom2, 20000);
  Detect();
}
SIM_SCENARIO(C16, faults, 3) {
  BuildMachine();
  EnableFault(fEintrIo, 20000);
  EnableFault(fShortIo, 50000);
  EnableFault(fCustom2, 10000);
  EnableFault(fSyscallFail, 20000);
  if (Gen(3) == 2) EnableFault(fCustom1, 20000);
  Detect();
}
SIM_SCENARIO(C17, affinity, 1) {
  SetWeakMemory(false);
  SetStepBudget(1000000, 1000000);
  memset(&k, 0, sizeof(k));
  memset(&m, 0, sizeof(m));
  k.mask_bytes = Gen(10) == 9 ? 192 : 8 << Gen(5);
  const size_t cpus = k.mask_bytes * 8;
  switch (Gen(4)) {
    case 0: {
      const size_t n = 1 + Gen(cpus);
      for (size_t i = 0; i < n; ++i) k.permitted[i / 64] |= 1ull << (i % 64);
      break;
    }
    case 1: memset(k.permitted, 255, k.mask_bytes); break;
    case 2: k.permitted[0] = 1 + Gen(255); break;
    default: {
      const uint64_t salt = Gen(1u << 20);
      for (size_t i = 0; i < k.mask_bytes / 8; ++i)
        k.permitted[i] = (static_cast<uint64_t>(Hash32(static_cast<uint32_t>(i), static_cast<uint32_t>(salt))) << 32) | Hash32(static_cast<uint32_t>(salt), static_cast<uint32_t>(i) + 77);
    }
  }
  const long answers[] = {static_cast<long>(CountMask(k.permitted)), 1, 0, -1, 1024, 5000};
  m.sysconf_answer = answers[Gen(6)];
  os.getaffinity = &GetAff;
  os.setaffinity = &SetAff;
  os.sysconf = &Sysconf;
  SetHwThreads(Gen(8) == 7 ? 0 : 1 + static_cast<int>(Gen(300)));
  if (GenBool()) EnableFault(fSchedAffinity, 300000);
  const int threads = static_cast<int>(Gen(4));
  int tids[4];
  for (int i = 0; i < threads; ++i) tids[i] = Spawn(&AffinityThread, nullptr);
  AffinityThread(nullptr);
  for (int i = 0; i < threads; ++i) Join(tids[i]);
}
