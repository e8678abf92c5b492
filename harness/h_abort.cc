// C09: Warn, Abort and their handlers.
#include <stdio.h>
#include <string.h>

#include <new>
#include <string>
#include <utility>
#include <vector>

#include "common.h"
#include "hwy/abort.h"
#include "hwy/base.h"

using namespace sim;
typedef unsigned long long ull;

namespace {

constexpr int kHandlers = 12;
constexpr int kMaxThreads = 8;

// Plain data "belonging" to a handler, written before it is installed.
struct HandlerData {
  uint64_t cookie;
  hwy::WarnFunc prev;
};
HandlerData g_warn_data[kHandlers], g_abort_data[kHandlers];

// What the current thread expects to be delivered. Only touched by its thread.
struct Pending {
  bool active;
  bool is_abort;
  const char* file;
  int line;
  const std::string* full;
  int calls;
  int handler;
};
Pending g_pending[kMaxThreads];
bool g_chain;  // handlers call the previous one
bool g_nested; // abort handlers warn

Pending& Mine() { return g_pending[Tid()]; }

// A message is delivered completely, or its first (at least) 799 characters.
void CheckText(const std::string& full, const char* got, size_t len) {
  SIM_CHECK(len <= full.size() && memcmp(got, full.data(), len) == 0, "wrong-message", "delivered '%.60s...' (%zu chars), expected '%.60s...' (%zu)",
            got, len, full.c_str(), full.size());
  SIM_CHECK(len == full.size() || len >= 799, "wrong-message", "message of %zu chars was cut to %zu", full.size(), len);
  if (len < full.size()) Probe("message truncated");
}

void Delivered(int handler, bool is_abort, const char* file, int line, const char* msg, uint64_t cookie) {
  SIM_CHECK(cookie == static_cast<uint64_t>(handler) * 7 + (is_abort ? 1000 : 0) + 1, "stale-handler-data",
            "handler %d sees data %llu of before its installation", handler, (ull)cookie);
  Pending& p = Mine();
  SIM_CHECK(p.active, "unexpected-message", "handler %d called with '%.40s' although this thread reported nothing", handler, msg);
  SIM_CHECK(p.is_abort == is_abort, "wrong-kind", "%s handler called for %s", is_abort ? "abort" : "warn", p.is_abort ? "Abort" : "Warn");
  SIM_CHECK(strcmp(file, p.file) == 0 && line == p.line, "wrong-location", "handler got %s:%d, expected %s:%d", file, line, p.file, p.line);
  CheckText(*p.full, msg, strlen(msg));
  if (p.calls++ == 0) p.handler = handler;
}

// Warnings from within handlers.
void NestedWarn() {
  Pending& p = Mine();
  const Pending saved = p;
  const std::string text = "nested 7";
  p = Pending{true, false, "n.cc", 3, &text, 0, -1};
  hwy::Warn("n.cc", 3, "nested %d", 7);
  p = saved;
}

template <int I>
void WarnHandler(const char* file, int line, const char* msg) {
  Delivered(I, false, file, line, msg, g_warn_data[I].cookie);
  if (g_chain && g_warn_data[I].prev) g_warn_data[I].prev(file, line, msg);
}
template <int I>
void AbortHandler(const char* file, int line, const char* msg) {
  Delivered(I, true, file, line, msg, g_abort_data[I].cookie);
  if (g_nested) NestedWarn();
  Yield();
  if (g_chain && g_abort_data[I].prev) g_abort_data[I].prev(file, line, msg);
}
template <size_t... Is>
hwy::WarnFunc GetWarn(size_t i, std::index_sequence<Is...>) {
  static const hwy::WarnFunc f[] = {&WarnHandler<static_cast<int>(Is)>...};
  return f[i];
}
template <size_t... Is>
hwy::AbortFunc GetAbort(size_t i, std::index_sequence<Is...>) {
  static const hwy::AbortFunc f[] = {&AbortHandler<static_cast<int>(Is)>...};
  return f[i];
}
hwy::WarnFunc WarnFn(int i) { return i < 0 ? nullptr : GetWarn(static_cast<size_t>(i), std::make_index_sequence<kHandlers>()); }
hwy::AbortFunc AbortFn(int i) { return i < 0 ? nullptr : GetAbort(static_cast<size_t>(i), std::make_index_sequence<kHandlers>()); }
int IdOf(hwy::WarnFunc f, bool is_abort) {
  if (!f) return -1;
  for (int i = 0; i < kHandlers; ++i)
    if (f == (is_abort ? AbortFn(i) : WarnFn(i))) return i;
  Fail("unknown-handler", "a handler that was never installed was returned");
}

struct SetEvent {
  int handler, prev;
  uint64_t start, end;
};
struct WarnEvent {
  int handler;  // -1 = default
  uint64_t start, end;
};
struct Log {
  std::vector<SetEvent> sets;
  std::vector<WarnEvent> warns;
  std::vector<std::string> defaults;  // expected stderr lines (file base, line, text)
};
Log g_log[kMaxThreads];

const char* const kFiles[] = {"a.cc", "dir/b.cc", "/some/very/long/directory/name/which/needs/heap/storage/file_with_name.cc", "dos\\path\\c.cc",
                              "", "trailing/", "mixed/x\\d.h"};

std::string BaseName(const char* f) {
  const char* b = f;
  for (const char* p = f; *p; ++p)
    if (*p == '/' || *p == '\\') b = p + 1;
  return b;
}

// Draws a message and a way of passing it.
struct Message {
  int kind;
  std::string text;  // expected
  std::string arg;
  int num;
  const char* file;
  int line;
};
Message MakeMessage(uint32_t seed) {
  Message m;
  m.kind = static_cast<int>(Hash32(seed, 1) % 4);
  m.num = static_cast<int>(Hash32(seed, 2)) - 1000;
  m.file = kFiles[Hash32(seed, 3) % 7];
  m.line = static_cast<int>(1 + Hash32(seed, 4) % 99999);
  const uint32_t sizes[] = {0, 1, 10, 100, 700, 780, 797, 798, 799, 800, 801, 1000, 5000};
  const uint32_t n = sizes[Hash32(seed, 5) % 13];
  for (uint32_t i = 0; i < n; ++i) {
    const uint32_t h = Hash32(seed, 100 + i) % 40;
    m.arg.push_back(h == 0 ? '%' : h == 1 ? 's' : h == 2 ? '\\' : static_cast<char>('a' + h % 26));
  }
  char num[40];
  snprintf(num, sizeof(num), "%d", m.num);
  switch (m.kind) {
    case 0: m.text = m.arg; break;
    case 1: m.text = std::string("value ") + num + " of " + m.arg + "!"; break;
    case 2: m.text = m.arg + num; break;
    default: m.text = "plain text, 100% literal"; break;
  }
  return m;
}
#pragma clang diagnostic ignored "-Wformat-security"
void SendWarn(const Message& m) {
  switch (m.kind) {
    case 0: hwy::Warn(m.file, m.line, "%s", m.arg.c_str()); break;
    case 1: hwy::Warn(m.file, m.line, "value %d of %s!", m.num, m.arg.c_str()); break;
    case 2: hwy::Warn(m.file, m.line, "%s%d", m.arg.c_str(), m.num); break;
    default: hwy::Warn(m.file, m.line, "plain text, 100%% literal"); break;
  }
}
[[noreturn]] void SendAbort(const Message& m) {
  switch (m.kind) {
    case 0: hwy::Abort(m.file, m.line, "%s", m.arg.c_str());
    case 1: hwy::Abort(m.file, m.line, "value %d of %s!", m.num, m.arg.c_str());
    case 2: hwy::Abort(m.file, m.line, "%s%d", m.arg.c_str(), m.num);
    default: hwy::Abort(m.file, m.line, "plain text, 100%% literal");
  }
}

std::string g_captured;
void ReadStderr() {
  static char buf[400000];
  const size_t n = CapturedStderr(buf, sizeof(buf));
  g_captured.assign(buf, n);
}
// Removes one line "<what> at base:line: <text or prefix>\n" from the capture.
void TakeLine(const char* what, const std::string& base, int line, const std::string& full) {
  const std::string head = std::string(what) + " at " + base + ":" + std::to_string(line) + ": ";
  for (size_t pos = 0; pos < g_captured.size();) {
    size_t end = g_captured.find('\n', pos);
    if (end == std::string::npos) end = g_captured.size();
    const std::string l = g_captured.substr(pos, end - pos);
    if (l.compare(0, head.size(), head) == 0) {
      const std::string text = l.substr(head.size());
      if (text.size() <= full.size() && full.compare(0, text.size(), text) == 0 &&
          (text.size() == full.size() || text.size() >= 799)) {
        g_captured.erase(pos, end - pos + 1);
        return;
      }
    }
    pos = end + 1;
  }
  Fail("message-lost", "no line '%s%.60s' on stderr", head.c_str(), full.c_str());
}

void DoWarn(uint32_t seed, bool alloc_fault) {
  const Message m = MakeMessage(seed);
  Pending& p = Mine();
  p = Pending{true, false, m.file, m.line, &m.text, 0, -1};
  WarnEvent e;
  e.start = Step();
  if (alloc_fault) AllocFaults(true);
  bool threw = false;
  try {
    SendWarn(m);
  } catch (const std::bad_alloc&) {
    threw = true;
  }
  if (alloc_fault) AllocFaults(false);
  SIM_CHECK(!threw, "message-lost", "Warn threw std::bad_alloc instead of delivering its message (file '%s')", m.file);
  e.end = Step();
  e.handler = p.handler;
  SIM_CHECK(g_chain || p.calls <= 1, "duplicate-message", "one Warn was delivered %d times", p.calls);
  p.active = false;
  Log& log = g_log[Tid()];
  log.warns.push_back(e);
  if (p.calls == 0) {
    log.defaults.push_back(BaseName(m.file));
    log.defaults.push_back(std::to_string(m.line));
    log.defaults.push_back(m.text);
  }
}

int DoSet(int handler, bool is_abort) {
  SetEvent e;
  e.handler = handler;
  if (handler >= 0) {
    uint64_t& cookie = (is_abort ? g_abort_data : g_warn_data)[handler].cookie;
    const uint64_t value = static_cast<uint64_t>(handler) * 7 + (is_abort ? 1000 : 0) + 1;
    if (cookie != value) cookie = value;
  }
  e.start = Step();
  const hwy::WarnFunc prev = is_abort ? hwy::SetAbortFunc(AbortFn(handler)) : hwy::SetWarnFunc(WarnFn(handler));
  e.end = Step();
  e.prev = IdOf(prev, is_abort);
  g_log[Tid()].sets.push_back(e);
  return e.prev;
}

struct Client {
  uint32_t seed;
  int ops;
  int first_handler, num_handlers;  // own handlers, each installed at most once
  bool alloc_fault;
};
void ClientMain(void* arg) {
  const Client* c = static_cast<const Client*>(arg);
  int next = 0;
  for (int i = 0; i < c->ops; ++i) {
    if (next < c->num_handlers && Hash32(c->seed, static_cast<uint32_t>(i)) % 3 == 0) {
      DoSet(c->first_handler + next++, false);
    } else {
      DoWarn(Hash32(c->seed, 1000 + static_cast<uint32_t>(i)), c->alloc_fault);
    }
  }
}

// The installed handlers must form one chain, consistent with real time, and
// each warning must have met a handler installed during the call.
void CheckHistory(int threads, int initial) {
  std::vector<SetEvent> sets;
  for (int t = 0; t < threads; ++t)
    for (const SetEvent& e : g_log[t].sets) sets.push_back(e);
  // Chain: starting at `initial`, follow "who replaced it".
  std::vector<SetEvent> order;
  int cur = initial;
  std::vector<bool> used(sets.size());
  for (;;) {
    int found = -1;
    for (size_t i = 0; i < sets.size(); ++i) {
      if (used[i] || sets[i].prev != cur) continue;
      SIM_CHECK(found < 0, "handler-lost", "two installations returned the same previous handler %d", cur);
      found = static_cast<int>(i);
    }
    if (found < 0) break;
    used[static_cast<size_t>(found)] = true;
    order.push_back(sets[static_cast<size_t>(found)]);
    cur = order.back().handler;
  }
  SIM_CHECK(order.size() == sets.size(), "handler-lost", "%zu installations, but only %zu form a chain of previous handlers", sets.size(),
            order.size());
  for (size_t i = 0; i < order.size(); ++i)
    for (size_t j = i + 1; j < order.size(); ++j)
      SIM_CHECK(order[j].end > order[i].start, "wrong-order", "installation of %d finished before that of %d began but came later in the chain",
                order[j].handler, order[i].handler);
  for (int t = 0; t < threads; ++t) {
    for (const WarnEvent& w : g_log[t].warns) {
      bool ok = w.handler == initial && (order.empty() || order[0].end >= w.start);
      for (size_t i = 0; i < order.size() && !ok; ++i)
        ok = order[i].handler == w.handler && order[i].start <= w.end && (i + 1 == order.size() || order[i + 1].end >= w.start);
      SIM_CHECK(ok, "wrong-handler", "a warning was delivered to handler %d, which was not installed at that time", w.handler);
    }
  }
  ReadStderr();
  for (int t = 0; t < threads; ++t)
    for (size_t i = 0; i + 2 < g_log[t].defaults.size(); i += 3)
      TakeLine("Warn", g_log[t].defaults[i], atoi(g_log[t].defaults[i + 1].c_str()), g_log[t].defaults[i + 2]);
  SIM_CHECK(g_captured.find("Warn at ") == std::string::npos, "duplicate-message", "extra output: %.100s", g_captured.c_str());
  SIM_CHECK(hwy::GetWarnFunc() == WarnFn(cur), "wrong-handler", "GetWarnFunc does not return the installed handler");
}

void Setup() {
  EnableFault(fLateStart, 400000);
  EnableFault(fStall, 800000);
  EnableFault(fAllocFail, 500000);
  SetStepBudget(20000, 200000);
  // The histories below are ordered by time, whereas C++ only orders what
  // happens-before; hence no stale values. A missing release or acquire is
  // found as a race on the data of the handlers.
  SetWeakMemory(false);
}

}  // namespace

SIM_SCENARIO(C09, warn_history, 4) {
  Setup();
  int initial = -1;
  const int threads = static_cast<int>(1 + Gen(4));
  if (Gen(3) == 2) {
    initial = kHandlers - 1;
    const int prev = DoSet(initial, false);
    SIM_CHECK(prev == -1, "wrong-handler", "first SetWarnFunc returned a handler");
    g_log[0].sets.clear();
  }
  std::vector<Client> clients(static_cast<size_t>(threads));
  std::vector<int> tids;
  const bool alloc = GenBool();
  int next = 0;
  for (int t = 0; t < threads; ++t) {
    Client& c = clients[static_cast<size_t>(t)];
    c.seed = static_cast<uint32_t>(Gen(1u << 20));
    c.ops = 1 + static_cast<int>(Gen(6));
    c.first_handler = next;
    c.num_handlers = static_cast<int>(Gen(3));
    c.alloc_fault = alloc;
    next += c.num_handlers;
  }
  for (int t = 1; t < threads; ++t) tids.push_back(Spawn(&ClientMain, &clients[static_cast<size_t>(t)]));
  ClientMain(&clients[0]);
  for (int t : tids) Join(t);
  CheckHistory(threads, initial);
}

// Handlers that call their predecessor; null in between; sequential.
SIM_SCENARIO(C09, warn_chain, 1) {
  Setup();
  g_chain = true;
  int installed = -1;
  std::vector<int> depth(kHandlers, 0);
  const int n = 1 + static_cast<int>(Gen(kHandlers));
  for (int i = 0; i < n; ++i) {
    if (Gen(6) == 5) {
      const hwy::WarnFunc prev = hwy::SetWarnFunc(nullptr);
      SIM_CHECK(IdOf(prev, false) == installed, "wrong-handler", "SetWarnFunc(nullptr) returned %d, expected %d", IdOf(prev, false), installed);
      installed = -1;
    }
    const int prev = DoSet(i, false);
    SIM_CHECK(prev == installed, "wrong-handler", "SetWarnFunc returned %d, expected %d", prev, installed);
    g_warn_data[i].prev = WarnFn(prev);
    depth[static_cast<size_t>(i)] = prev < 0 ? 1 : depth[static_cast<size_t>(prev)] + 1;
    installed = i;
    const Message m = MakeMessage(static_cast<uint32_t>(Gen(1u << 20)));
    Mine() = Pending{true, false, m.file, m.line, &m.text, 0, -1};
    SendWarn(m);
    SIM_CHECK(Mine().calls == depth[static_cast<size_t>(i)], "duplicate-message", "chain of %d handlers was called %d times",
              depth[static_cast<size_t>(i)], Mine().calls);
    Mine().active = false;
    SIM_CHECK(hwy::GetWarnFunc() == WarnFn(i), "wrong-handler", "GetWarnFunc differs from the installed handler");
  }
}

// One thread installs, removes and reinstalls handlers while others warn.
namespace {
struct Toggler {
  uint32_t seed;
  int ops;
  int choices;  // handlers used
};
void ToggleMain(void* arg) {
  const Toggler* t = static_cast<const Toggler*>(arg);
  int cur = -1;
  for (int i = 0; i < t->ops; ++i) {
    const uint32_t h = Hash32(t->seed, static_cast<uint32_t>(i));
    const int next = h % 2 ? -1 : static_cast<int>((h >> 8) % static_cast<uint32_t>(t->choices));
    const int prev = DoSet(next, false);
    SIM_CHECK(prev == cur, "wrong-handler", "SetWarnFunc returned %d, expected %d", prev, cur);
    cur = next;
    if ((h >> 16) % 3 == 0) Yield();
  }
}
}  // namespace

SIM_SCENARIO(C09, warn_toggle, 3) {
  Setup();
  for (int i = 0; i < kHandlers; ++i) g_warn_data[i].cookie = static_cast<uint64_t>(i) * 7 + 1;
  Toggler tg;
  tg.seed = static_cast<uint32_t>(Gen(1u << 20));
  tg.ops = 1 + static_cast<int>(Gen(12));
  tg.choices = 1 + static_cast<int>(Gen(3));
  const int threads = 1 + static_cast<int>(Gen(3));
  std::vector<Client> clients(static_cast<size_t>(threads));
  std::vector<int> tids;
  for (Client& c : clients) {
    c.seed = static_cast<uint32_t>(Gen(1u << 20));
    c.ops = 1 + static_cast<int>(Gen(6));
    c.first_handler = 0;
    c.num_handlers = 0;
    c.alloc_fault = false;
  }
  for (int t = 0; t < threads; ++t) tids.push_back(Spawn(&ClientMain, &clients[static_cast<size_t>(t)]));
  ToggleMain(&tg);
  for (int t : tids) Join(t);
  const std::vector<SetEvent>& sets = g_log[Tid()].sets;  // in the order made
  for (int t : tids) {
    for (const WarnEvent& w : g_log[t].warns) {
      bool ok = w.handler == -1 && sets[0].end >= w.start;
      for (size_t i = 0; i < sets.size() && !ok; ++i)
        ok = sets[i].handler == w.handler && sets[i].start <= w.end && (i + 1 == sets.size() || sets[i + 1].end >= w.start);
      SIM_CHECK(ok, "wrong-handler", "a warning was delivered to handler %d, which was not installed at that time", w.handler);
    }
  }
  ReadStderr();
  for (int t : tids)
    for (size_t i = 0; i + 2 < g_log[t].defaults.size(); i += 3)
      TakeLine("Warn", g_log[t].defaults[i], atoi(g_log[t].defaults[i + 1].c_str()), g_log[t].defaults[i + 2]);
  SIM_CHECK(g_captured.find("Warn at ") == std::string::npos, "duplicate-message", "extra output: %.100s", g_captured.c_str());
}

// ---------------------------------------------------------------- Abort
namespace {
struct Aborter {
  uint32_t seed;
  bool alloc_fault;
  bool via_assert;
};
int g_abort_installed = -1;
int g_depth = 1;
bool g_abort_toggle;  // another thread keeps replacing the handler

// The process ends: this thread's message must have been delivered once.
void OnProcessEnd() {
  NoPreempt(true);
  AllocFaults(false);
  Pending& p = Mine();
  SIM_CHECK(p.active && p.is_abort, "unexpected-abort", "the process was aborted by a thread that did not call Abort");
  if (g_abort_toggle && p.calls > 0) {
    SIM_CHECK(p.calls == 1, "duplicate-message", "abort handlers were called %d times", p.calls);
  } else if (g_abort_installed >= 0 && !g_abort_toggle) {
    SIM_CHECK(p.calls == g_depth, p.calls < g_depth ? "message-lost" : "duplicate-message", "abort handler was called %d times, expected %d",
              p.calls, g_depth);
    SIM_CHECK(p.handler == g_abort_installed, "wrong-handler", "abort handler %d ran, installed is %d", p.handler, g_abort_installed);
  } else {
    SIM_CHECK(p.calls == 0, "wrong-handler", "abort handler %d ran, but none is installed", p.handler);
    ReadStderr();
    TakeLine("Abort", BaseName(p.file), p.line, *p.full);
    SIM_CHECK(g_captured.find("Abort at ") == std::string::npos || NumThreadsCreated() > 1, "duplicate-message", "extra output: %.100s",
              g_captured.c_str());
  }
  Probe("aborted as required");
  FinishOk();
}

void AborterMain(void* arg) {
  const Aborter* a = static_cast<const Aborter*>(arg);
  Message m = MakeMessage(a->seed);
  const int zero = static_cast<int>(a->seed & 0);
  Pending& p = Mine();
  int evaluated = 0;
  // Asserts that hold have no effect and evaluate their condition once.
  HWY_ASSERT(++evaluated == 1);
  HWY_ASSERT_M(++evaluated == 2, "m");
  SIM_CHECK(evaluated == 2, "assert-effect", "HWY_ASSERT evaluated its condition %d times", evaluated);
  HWY_DASSERT(++evaluated != 0);
  SIM_CHECK(evaluated == (HWY_IS_DEBUG_BUILD ? 3 : 2), "assert-effect", "HWY_DASSERT evaluated its condition %d times", evaluated - 2);
  SIM_CHECK(p.calls == 0, "assert-effect", "an assertion that holds reported something");
  if (a->via_assert) {
    m.text = "Assert zero == 1: text %d";
    m.file = __FILE__;
    m.line = __LINE__ + 5;
  }
  p = Pending{true, true, m.file, m.line, &m.text, 0, -1};
  if (a->alloc_fault) AllocFaults(true);
  try {
    if (a->via_assert) { HWY_ASSERT_M(zero == 1, "text %d"); }
    SendAbort(m);
  } catch (const std::bad_alloc&) {
    AllocFaults(false);
    Fail("abort-returned", "Abort threw std::bad_alloc (file '%s') instead of ending the process", m.file);
  }
  Fail("abort-returned", "Abort returned");
}
}  // namespace

SIM_SCENARIO(C09, abort, 3) {
  Setup();
  SetAbortHook(&OnProcessEnd);
  const int handlers = static_cast<int>(Gen(4));
  g_chain = GenBool();
  g_nested = Gen(4) == 3;
  g_depth = 1;
  for (int i = 0; i < handlers; ++i) {
    const int prev = DoSet(i, true);
    SIM_CHECK(prev == g_abort_installed, "wrong-handler", "SetAbortFunc returned %d, expected %d", prev, g_abort_installed);
    g_abort_data[i].prev = AbortFn(prev);
    g_abort_installed = i;
    if (GenBool()) SIM_CHECK(hwy::GetAbortFunc() == AbortFn(i), "wrong-handler", "GetAbortFunc differs from the installed handler");
  }
  if (handlers && g_chain) g_depth = handlers;
  if (handlers && Gen(5) == 4) {
    const hwy::AbortFunc prev = hwy::SetAbortFunc(nullptr);
    SIM_CHECK(IdOf(prev, true) == g_abort_installed, "wrong-handler", "SetAbortFunc(nullptr) did not return the installed handler");
    g_abort_installed = -1;
    SIM_CHECK(hwy::GetAbortFunc() == nullptr, "wrong-handler", "GetAbortFunc differs from the installed handler");
  }
  const int threads = 1 + static_cast<int>(Gen(3));
  std::vector<Aborter> as(static_cast<size_t>(threads));
  std::vector<int> tids;
  const bool alloc = GenBool();
  for (Aborter& a : as) {
    a.seed = static_cast<uint32_t>(Gen(1u << 20));
    a.alloc_fault = alloc;
    a.via_assert = Gen(3) == 2;
  }
  for (int t = 1; t < threads; ++t) tids.push_back(Spawn(&AborterMain, &as[static_cast<size_t>(t)]));
  AborterMain(&as[0]);
}

// Aborts while another thread replaces and removes the handler.
namespace {
void ToggleAbortMain(void* arg) {
  const Toggler* t = static_cast<const Toggler*>(arg);
  for (int i = 0; i < t->ops; ++i) {
    const uint32_t h = Hash32(t->seed, static_cast<uint32_t>(i));
    DoSet(h % 2 ? -1 : static_cast<int>((h >> 8) % static_cast<uint32_t>(t->choices)), true);
  }
}
}  // namespace

SIM_SCENARIO(C09, abort_toggle, 1) {
  Setup();
  SetAbortHook(&OnProcessEnd);
  g_abort_toggle = true;
  for (int i = 0; i < kHandlers; ++i) g_abort_data[i].cookie = static_cast<uint64_t>(i) * 7 + 1001;
  Toggler tg;
  tg.seed = static_cast<uint32_t>(Gen(1u << 20));
  tg.ops = 1 + static_cast<int>(Gen(20));
  tg.choices = 1 + static_cast<int>(Gen(3));
  Aborter a;
  a.seed = static_cast<uint32_t>(Gen(1u << 20));
  a.alloc_fault = false;
  a.via_assert = Gen(3) == 2;
  if (GenBool()) DoSet(0, true);
  Spawn(&ToggleAbortMain, &tg);
  AborterMain(&a);
}
