// Monitors under refused resources (P22).
//   mode oom    : histories of multiplications in a child process, one system
//                 memory request (or all from one on) refused
//   mode thread : the same with the creation of worker threads refused
//   mode scratch: the scratch allocator against a model with refused requests
// and under misuse (P23).
//   mode misuse : calls that break a documented requirement, each in a child
//                 process of a build with assertions
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <new>

#include "ctxutil.h"
#include "problem.h"
#include "ruy/allocator.h"
#include "sysalloc.h"
#include "vf.h"
#include "wrap.h"

using namespace vf;

static std::atomic<int> g_thread_requests{0}, g_thread_fault{0};
static std::atomic<bool> g_thread_sticky{false};

#ifndef VF_ASAN  // the sanitizer needs its own
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  static auto* real = reinterpret_cast<decltype(&pthread_create)>(dlsym(RTLD_NEXT, "pthread_create"));
  const int n = ++g_thread_requests;
  const int fault = g_thread_fault.load();
  if (fault && (n == fault || (g_thread_sticky.load() && n > fault))) return EAGAIN;
  return real(t, a, f, arg);
}
#endif

// Refusals of operator new, while a multiplication is running.
static std::atomic<std::int64_t> g_new_requests{0}, g_new_fault{0};
static std::atomic<bool> g_new_armed{false};
static bool RefuseNew() {
  if (!g_new_armed.load(std::memory_order_relaxed)) return false;
  const std::int64_t n = ++g_new_requests, fault = g_new_fault.load();
  return fault && (n == fault || (g_thread_sticky.load() && n > fault));
}
void* operator new(std::size_t n) {
  void* p = RefuseNew() ? nullptr : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return RefuseNew() ? nullptr : malloc(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }

// Refusals below the library's allocation function (attached with --wrap).
static std::atomic<std::int64_t> g_inner_requests{0}, g_inner_fault{0};
static bool RefuseInner() {
  const std::int64_t n = ++g_inner_requests, fault = g_inner_fault.load();
  return fault && (n == fault || (g_thread_sticky.load() && n > fault));
}
extern "C" {
int __real_posix_memalign(void**, std::size_t, std::size_t);
int __wrap_posix_memalign(void** p, std::size_t a, std::size_t n);
int __wrap_posix_memalign(void** p, std::size_t a, std::size_t n) { return RefuseInner() ? ENOMEM : __real_posix_memalign(p, a, n); }
void* __real_aligned_alloc(std::size_t, std::size_t);
void* __wrap_aligned_alloc(std::size_t a, std::size_t n);
void* __wrap_aligned_alloc(std::size_t a, std::size_t n) { return RefuseInner() ? nullptr : __real_aligned_alloc(a, n); }
}

namespace {

const int kMaxSteps = 6;

int g_err = -1;  // collects what a child writes to its standard error
void OpenErr() {
  g_err = memfd_create("stderr", 0);
  if (g_err < 0) HarnessError("memfd_create failed");
}
std::string ReadErr() {
  char text[4000];
  const ssize_t got = pread(g_err, text, sizeof text, 0);
  return std::string(text, got < 0 ? 0 : got);
}

// What a child tells its parent.
struct Shared {
  std::atomic<int> completed;  // multiplications that returned
  std::uint64_t digest[kMaxSteps];
  std::atomic<int> intact[kMaxSteps];  // inputs and surroundings unchanged
  std::int64_t requests, refusals, inner_requests, new_requests;
  int thread_requests;
  std::atomic<int> returned;   // the context was destroyed as well
  std::atomic<std::uintptr_t> fault_addr;
};
Shared* g_shared;

void ChildFault(int sig, siginfo_t* si, void*) {
  g_shared->fault_addr.store(reinterpret_cast<std::uintptr_t>(si->si_addr));
  signal(sig, SIG_DFL);
  raise(sig);
}

struct Step {
  Prob prob;
  Config cfg;
  int local = 0, last = 0;
  bool clear_cache = false;
};

struct History {
  std::vector<std::unique_ptr<Step>> steps;
  AllocMode mode = AllocMode::kPoison;
  bool inner = false;  // memory refused by the C library
  bool by_new = false;  // memory refused by operator new
};

std::string Describe(const History& h, std::size_t i) {
  const Step& s = *h.steps[std::min(i, h.steps.size() - 1)];
  return s.prob.Describe() + " " + vf::Describe(s.cfg);
}

void MakeHistory(Rng& rng, bool threads, History* h) {
  const int n = rng.range(1, 4);
  h->mode = rng.chance(1, 2) ? AllocMode::kGuard : AllocMode::kPoison;
  if (!threads && rng.chance(1, 3)) {
    h->inner = true;
    h->mode = AllocMode::kPass;
  } else if (!threads && rng.chance(1, 3)) {
    h->by_new = true;
    h->mode = AllocMode::kPass;  // the monitor itself allocates
  }
  auto paths = UsablePaths();
  for (int i = 0; i < n; i++) {
    if (i && rng.chance(1, 3)) {  // the same operands again (cached or not)
      std::unique_ptr<Step> s(new Step);
      const Step& old = *h->steps[rng.range(0, i - 1)];
      s->prob.call = old.prob.call;
      s->cfg = old.cfg;
      s->local = old.local;
      s->last = old.last;
      h->steps.push_back(std::move(s));
      continue;
    }
    std::unique_ptr<Step> s(new Step);
    GenOpts o;
    o.max_macs = rng.chance(1, 4) ? 120000 : 15000;
    o.max_dim = 160;
    o.cache_policies = rng.chance(2, 3);
    Generate(rng, o, &s->prob);
    if (rng.chance(1, 2)) s->cfg.path = paths[rng.range(0, paths.size() - 1)];
    s->cfg.threads = threads ? rng.range(2, 6) : rng.pick({1, 1, 2, 4});
    s->cfg.force_max = threads || rng.chance(1, 2);
    s->cfg.tuning = rng.range(0, 3);
    s->cfg.spin_ms = rng.pick({-1, 0, 1});
    s->local = 1 << rng.range(9, 16);
    s->last = s->local << rng.range(0, 4);
    s->clear_cache = rng.chance(1, 8);
    h->steps.push_back(std::move(s));
  }
}

std::uint64_t InputHash(const Call& c, const Prob& owner) {
  std::uint64_t h = 1;
  for (const MatSpec* m : {&c.lhs, &c.rhs}) h = HashBytes(m->data, m->Extent() * SizeOf(m->type), h);
  (void)owner;
  return h;
}

// In the child: the whole history on one context.
void Execute(const History& h) {
  {
    ruy::Context ctx;
    for (std::size_t i = 0; i < h.steps.size(); i++) {
      const Step& s = *h.steps[i];
      Apply(s.cfg, &ctx);
      SetCaches(&ctx, s.local, s.last);
      if (s.clear_cache) ctx.ClearPrepackedCache();
      const Call& c = s.prob.call;
      const std::uint64_t in = InputHash(c, s.prob);
      memset(c.dst.data, 0x5C, c.dst.Extent() * SizeOf(c.dst.type));
      g_new_armed = h.by_new;
      RunMul(c, &ctx, 1);
      g_new_armed = false;
      const std::vector<std::uint8_t> e = Entries(c.dst);
      g_shared->digest[i] = HashBytes(e.data(), e.size());
      g_shared->intact[i] = InputHash(c, s.prob) == in;
      g_shared->completed = static_cast<int>(i) + 1;
      g_shared->requests = AllocRequests();
      g_shared->inner_requests = g_inner_requests.load();
      g_shared->new_requests = g_new_requests.load();
      g_shared->refusals = AllocRefusals();
      g_shared->thread_requests = g_thread_requests.load();
    }
  }
  g_shared->requests = AllocRequests();
  g_shared->inner_requests = g_inner_requests.load();
  g_shared->refusals = AllocRefusals();
  g_shared->thread_requests = g_thread_requests.load();
  g_shared->returned = 1;
}

struct Outcome {
  bool timed_out = false;
  int status = 0;
};

Outcome InChild(const History& h, std::int64_t mem_fault, int thread_fault, bool sticky, int limit_ms = 40000) {
  memset(static_cast<void*>(g_shared), 0, sizeof *g_shared);
  fflush(stdout);
  const pid_t pid = fork();
  if (pid < 0) HarnessError("fork failed");
  if (pid == 0) {
    struct rlimit no_core = {0, 0};
    setrlimit(RLIMIT_CORE, &no_core);
    if (ftruncate(g_err, 0)) _exit(3);
    lseek(g_err, 0, SEEK_SET);
    dup2(g_err, 2);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = ChildFault;
    sa.sa_flags = SA_SIGINFO;
    for (int s : {SIGSEGV, SIGBUS}) sigaction(s, &sa, nullptr);
    for (int s : {SIGABRT, SIGILL, SIGFPE}) signal(s, SIG_DFL);
    SetAllocMode(h.mode, 0xC3);
    SetAllocFault(h.inner || h.by_new ? 0 : mem_fault, sticky);
    g_new_requests = 0;
    g_new_fault = h.by_new ? mem_fault : 0;
    g_inner_requests = 0;
    g_inner_fault = h.inner ? mem_fault : 0;
    g_thread_requests = 0;
    g_thread_fault = thread_fault;
    g_thread_sticky = sticky;
    Execute(h);
    fflush(stdout);  // reports of the allocation monitor
    _exit(0);
  }
  Outcome o;
  for (int ms = 0;; ms++) {
    const pid_t r = waitpid(pid, &o.status, WNOHANG);
    if (r == pid) break;
    if (r < 0) HarnessError("waitpid failed");
    if (ms > limit_ms) {
      kill(pid, SIGKILL);
      waitpid(pid, &o.status, 0);
      o.timed_out = true;
      break;
    }
    timespec ts{0, ms < 50 ? 100000 : 1000000};
    nanosleep(&ts, nullptr);
  }
  Tick();
  return o;
}

bool g_hung = false;

void Faults(long index, Rng& rng, bool threads) {
  if (g_hung) return;
  if (!g_shared) {
    void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) HarnessError("mmap failed");
    g_shared = static_cast<Shared*>(m);
    OpenErr();
  }
  History h;
  MakeHistory(rng, threads, &h);
  const int n = static_cast<int>(h.steps.size());
  SetContext("%s", Describe(h, 0).c_str());
  const Outcome clean = InChild(h, 0, 0, false);
  if (clean.timed_out || !WIFEXITED(clean.status) || WEXITSTATUS(clean.status) || g_shared->completed != n) {
    Violation("without-fault", "history did not complete without any fault (status %x, %d of %d)", clean.status, g_shared->completed.load(), n);
    return;
  }
  std::uint64_t want[kMaxSteps];
  for (int i = 0; i < n; i++) want[i] = g_shared->digest[i];
  const std::int64_t total = threads ? g_shared->thread_requests : h.inner ? g_shared->inner_requests : h.by_new ? g_shared->new_requests : g_shared->requests;
  Count("histories");
  Count("requests_without_fault", total);
  std::vector<std::int64_t> points;
  for (std::int64_t i = 1; i <= total; i++) points.push_back(i);
  while (points.size() > 24) points.erase(points.begin() + rng.range(0, points.size() - 1));
  for (std::int64_t k : points) {
    const bool sticky = rng.chance(1, 4);
    Outcome o;
    for (int attempt = 0; attempt < 2; attempt++) {
      o = InChild(h, threads ? 0 : k, threads ? static_cast<int>(k) : 0, sticky, attempt ? 40000 : 15000);
      if (!o.timed_out) break;
    }
    const int done = g_shared->completed;
    const std::string where = "request " + std::to_string(k) + " of " + std::to_string(total) + (sticky ? " and all later ones" : "") +
                              " refused, " + std::to_string(done) + " of " + std::to_string(n) + " multiplications returned; " + Describe(h, done);
    Count("faults");
    if (h.inner) Count("faults_below_the_allocation_function");
    if (h.by_new) Count("faults_in_operator_new");
    if (o.timed_out) {
      Violation("fault-hang", "no end; %s", where.c_str());
      g_hung = true;  // further ones would take too long
      return;
    }
    for (int i = 0; i < done; i++) {
      if (g_shared->digest[i] != want[i]) {
        Violation("fault-wrong-result", "multiplication %d returned a wrong result; %s", i, where.c_str());
        return;
      }
      if (!g_shared->intact[i]) {
        Violation("fault-input-modified", "multiplication %d modified an operand; %s", i, where.c_str());
        return;
      }
    }
    Count("results_compared_after_fault", done);
    int kind;
    if (WIFEXITED(o.status)) {
      const std::string err = ReadErr();
      if (WEXITSTATUS(o.status) == 77 && err.find("null pointer") != std::string::npos) {
        kind = 1;  // the undefined-behaviour sanitizer stopped at the null address
        Count("stopped_at_null");
      } else if (WEXITSTATUS(o.status) != 0 || !g_shared->returned) {
        Violation("fault-exit", "exit status %d; %s; %s", WEXITSTATUS(o.status), err.substr(0, 300).c_str(), where.c_str());
        return;
      } else {
        kind = 0;
        Count("completed_despite_fault");
      }
    } else {
      const int sig = WTERMSIG(o.status);
      kind = sig;
      const std::string err = ReadErr();
      if (sig == SIGABRT && (err.find("free()") != std::string::npos || err.find("malloc") != std::string::npos || err.find("corrupted") != std::string::npos)) {
        Violation("fault-heap", "%s; %s", err.substr(0, 200).c_str(), where.c_str());  // the C library found its heap damaged
        return;
      } else if (sig == SIGABRT) {
        Count("stopped_with_diagnosis");
      } else if (sig == SIGSEGV) {
        // Only the null page and what is reached from it by an offset.
        if (g_shared->fault_addr.load() >= (std::uintptr_t(1) << 31)) {
          Violation("fault-wild-access", "access to %p; %s", reinterpret_cast<void*>(g_shared->fault_addr.load()), where.c_str());
          return;
        }
        Count("stopped_at_null");
      } else {
        Violation("fault-signal", "died from signal %d; %s", sig, where.c_str());
        return;
      }
    }
    Distinct(threads ? "thread_faults" : "memory_faults",
             Mix(Mix(h.steps[std::min(done, n - 1)]->prob.ShapeHash(), k * 2 + sticky), Mix(kind, h.steps[std::min(done, n - 1)]->cfg.path)));
    if (rng.chance(1, 400)) Sample(where + " -> " + (kind == 0 ? "completed" : "signal " + std::to_string(kind)));
  }
}

// -------------------------------------------------------------------- misuse
const std::size_t kSharedDst = 1 << 21;
std::uint8_t* g_dst;

enum { kFloatZp, kShortZp, kLowestZp, kTailBias, kTailMult, kTailExp, kMixed, kConstDst, kRounding, kNumMisuse };
const char* const kMisuseName[] = {"float_zero_point", "int16_zero_point", "both_zero_points_lowest", "nonzero_bias_tail",
                                   "nonzero_multiplier_tail", "nonzero_exponent_tail", "mixed_multipliers",
                                   "constant_destination", "capacity_rounding"};

// Changes the call so that it breaks the requirement; false if the call has no
// room for it.
bool Break(Rng& rng, int kind, Prob* p, Call* c) {
  const bool is_float = FloatCombo(*c);
  const bool has16 = c->lhs.type == T::i16 || c->rhs.type == T::i16;
  MatSpec* mats[] = {&c->lhs, &c->rhs, &c->dst};
  const int tail = p->Capacity() - p->Channels();
  const int at = tail > 0 ? p->Channels() + static_cast<int>(rng.range(0, tail - 1)) : 0;
  switch (kind) {
    case kFloatZp:
      if (!is_float) return false;
      mats[rng.range(0, 2)]->zp = rng.pick({1, -1, 100});
      return true;
    case kShortZp: {
      if (!has16) return false;
      MatSpec* m = mats[rng.range(0, 2)];
      m->zp = m->type == T::u8 ? rng.pick({1, 128, 255}) : rng.pick({1, -1, 100, -128, 127});
      return true;
    }
    case kLowestZp:
      if (is_float || has16 || (c->lhs.type == T::u8 && c->rhs.type == T::u8)) return false;
      c->lhs.zp = static_cast<int>(Lowest(c->lhs.type));
      c->rhs.zp = static_cast<int>(Lowest(c->rhs.type));
      return true;
    case kTailBias: {
      if (!c->mp.bias || tail <= 0) return false;
      void* b = p->bias_buf.data();
      switch (ComboOf(*c).acc) {
        case T::f32: static_cast<float*>(b)[at] = rng.pick({1.0f, -0.5f, 1e-30f}); break;
        case T::f64: static_cast<double*>(b)[at] = rng.pick({1.0, -0.5, 1e-30}); break;
        default: static_cast<std::int32_t*>(b)[at] = rng.pick({1, -1, 70000}); break;
      }
      return true;
    }
    case kTailMult:
      if (!c->mp.mult_pc || tail <= 0) return false;
      p->mult_buf.as<std::int32_t>()[at] = rng.pick({1, 1 << 30});
      return true;
    case kTailExp:
      if (!c->mp.exp_pc || tail <= 0) return false;
      p->exp_buf.as<int>()[at] = rng.pick({1, -3});
      return true;
    case kMixed:
      if (!Quantized(*c)) return false;
      c->mp.mix = static_cast<int>(rng.range(1, 4));
      c->mp.set_multiplier = false;
      return true;
    case kConstDst:
      c->dst_const = true;
      return true;
    case kRounding:
      c->mp.cap_rounding = rng.pick({3, 5, 6, 12, 24, 100});
      return true;
  }
  return false;
}

int RunAlone(const Call& c, const Config& cfg) {
  fflush(stdout);
  if (ftruncate(g_err, 0)) HarnessError("ftruncate failed");
  const pid_t pid = fork();
  if (pid < 0) HarnessError("fork failed");
  if (pid == 0) {
    struct rlimit no_core = {0, 0};
    setrlimit(RLIMIT_CORE, &no_core);
    alarm(60);
    lseek(g_err, 0, SEEK_SET);
    dup2(g_err, 2);
    for (int s : {SIGABRT, SIGILL, SIGFPE, SIGSEGV, SIGBUS, SIGALRM}) signal(s, SIG_DFL);
    ruy::Context* ctx = new ruy::Context;
    Apply(cfg, ctx);
    RunMul(c, ctx, 1);
    delete ctx;
    _exit(0);
  }
  int status;
  if (waitpid(pid, &status, 0) != pid) HarnessError("waitpid failed");
  Tick();
  return status;
}

void Misuse(long index, Rng& rng) {
  if (!g_dst) {
    void* m = mmap(nullptr, kSharedDst, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) HarnessError("mmap failed");
    g_dst = static_cast<std::uint8_t*>(m);
    OpenErr();
  }
  const int kind = static_cast<int>(index % kNumMisuse);
  Prob p;
  Call c;
  Call good;
  for (int attempt = 0;; attempt++) {
    if (attempt == 400) HarnessError("no problem allows %s", kMisuseName[kind]);
    p = Prob();
    GenOpts o;
    o.max_macs = rng.chance(1, 6) ? 120000 : 8000;
    o.max_dim = 100;
    o.cache_policies = rng.chance(1, 3);
    Generate(rng, o, &p);
    good = p.call;
    if (static_cast<std::size_t>(good.dst.Extent()) * SizeOf(good.dst.type) > kSharedDst) continue;
    good.dst.data = p.call.dst.data = g_dst;
    c = good;
    // The well-formed call is made first, so judge only whether there is room.
    Rng look(rng.s);
    Call trial = good;
    const bool tail_kind = kind == kTailBias || kind == kTailMult || kind == kTailExp;
    if (tail_kind) {
      const bool room = p.Capacity() > p.Channels() &&
                        (kind == kTailBias ? good.mp.bias != nullptr : kind == kTailMult ? good.mp.mult_pc != nullptr : good.mp.exp_pc != nullptr);
      if (!room) continue;
    } else if (!Break(look, kind, &p, &trial)) {
      continue;
    }
    break;
  }
  Config cfg;
  auto paths = UsablePaths();
  if (rng.chance(2, 3)) cfg.path = paths[rng.range(0, paths.size() - 1)];
  cfg.threads = rng.pick({1, 1, 2, 4});
  cfg.force_max = rng.chance(1, 2);
  cfg.tuning = rng.range(0, 3);
  const std::size_t bytes = good.dst.Extent() * SizeOf(good.dst.type);
  const std::string what = std::string(kMisuseName[kind]) + ": " + p.Describe() + " " + vf::Describe(cfg);
  SetContext("%s", what.c_str());

  memset(g_dst, 0x5C, bytes);
  int status = RunAlone(good, cfg);
  Count("well_formed_calls");
  if (!WIFEXITED(status) || WEXITSTATUS(status)) {
    Violation("stopped-valid-call", "status %x for the well-formed call; %s", status, what.c_str());
    return;
  }
  Ref ref;
  ComputeRef(p, &ref);
  const std::string bad = CheckDst(p, ref, 1);
  if (!bad.empty()) {
    Violation("valid-call-result", "%s; %s", bad.c_str(), what.c_str());
    return;
  }

  if (!Break(rng, kind, &p, &c)) HarnessError("%s", what.c_str());
  memset(g_dst, 0x5C, bytes);
  status = RunAlone(c, cfg);
  Count(std::string("misuse_") + kMisuseName[kind]);
  Count("misuses");
  if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) {
    Violation("misuse-hang", "no end; %s", what.c_str());
    return;
  }
  if (!WIFSIGNALED(status)) {
    Violation("misuse-accepted", "the call returned; %s", what.c_str());
    return;
  }
  if (WTERMSIG(status) != SIGABRT) {
    Violation("misuse-crash", "died from signal %d instead of stopping; %s", WTERMSIG(status), what.c_str());
    return;
  }
  for (std::size_t i = 0; i < bytes; i++) {
    if (g_dst[i] != 0x5C) {
      Violation("misuse-written", "destination byte %zu was written before the call was stopped; %s", i, what.c_str());
      return;
    }
  }
  const std::string text = ReadErr();
  if (text.size() <= 1) {
    Violation("misuse-silent", "stopped without a message; %s", what.c_str());
    return;
  }
  Count("diagnoses");
  Distinct("misuse_cases", Mix(Mix(p.ShapeHash(), kind), Mix(cfg.path, cfg.threads)));
  Distinct("diagnosis_texts", HashBytes(text.data(), text.size()));
  if (rng.chance(1, 150)) Sample(what + " -> " + text.substr(0, 160));
}

// ------------------------------------------------------------------- scratch
struct Blk {
  std::uint8_t* p;
  std::int64_t n;
  std::uint8_t pat;
};

void Scratch(long index, Rng& rng) {
  SetAllocMode(rng.chance(1, 2) ? AllocMode::kGuard : AllocMode::kPoison, static_cast<std::uint8_t>(rng.u64()));
  SetAllocFault(0, false);
  const AllocStats base = GetAllocStats();
  std::uint64_t hist = 1;
  {
    ruy::Allocator a;
    const int rounds = rng.range(2, 8);
    const std::int64_t scale = rng.pick({64, 300, 5000, 100000});
    for (int r = 0; r < rounds; r++) {
      std::vector<Blk> live;
      const int n = rng.range(1, 10);
      if (rng.chance(2, 3)) SetAllocFault(rng.range(1, 5), rng.chance(1, 3));
      else SetAllocFault(0, false);
      for (int i = 0; i < n; i++) {
        const std::int64_t bytes = rng.chance(1, 3) ? 64 * rng.range(1, 20) + rng.range(-1, 1) : rng.range(1, scale);
        const std::int64_t refused = AllocRefusals();
        SetContext("round %d request %d of %lld bytes", r, i, (long long)bytes);
        char hint;
        void* p = rng.chance(1, 3) ? a.AllocateBytesAvoidingAliasingWith(bytes, &hint) : a.AllocateBytes(bytes);
        Count("scratch_requests");
        const bool was_refused = AllocRefusals() != refused;
        hist = Mix(hist, bytes * 2 + was_refused);
        if (!p) {
          if (!was_refused) { Violation("scratch-null", "null for %lld bytes although no system request was refused (round %d)", (long long)bytes, r); return; }
          Count("scratch_refused");
          continue;
        }
        std::uint8_t* b = static_cast<std::uint8_t*>(p);
        const void* start;
        std::int64_t size;
        if (reinterpret_cast<std::uintptr_t>(p) % 64) Violation("scratch-alignment", "block at %p is not 64-byte aligned (round %d)", p, r);
        if (!LiveBlockAt(p, &start, &size) || b + bytes > static_cast<const std::uint8_t*>(start) + size) {
          Violation("scratch-invalid", "block of %lld bytes at %p does not lie in memory obtained from the system (round %d, %lld requests refused in it)",
                    (long long)bytes, p, r, (long long)AllocRefusals());
          return;
        }
        for (const Blk& o : live)
          if (b < o.p + o.n && o.p < b + bytes) { Violation("scratch-overlap", "block of %lld bytes overlaps a live block (round %d)", (long long)bytes, r); return; }
        Blk k{b, bytes, static_cast<std::uint8_t>(rng.u64())};
        memset(b, k.pat, k.n);
        live.push_back(k);
        Count("scratch_blocks_checked");
      }
      for (const Blk& k : live)
        for (std::int64_t i = 0; i < k.n; i++)
          if (k.p[i] != k.pat) { Violation("scratch-overwritten", "a live block was overwritten (round %d)", r); i = k.n; }
      if (r == rounds - 1 && rng.chance(1, 2)) {  // destroyed with blocks in use
        Count("scratch_destroyed_in_use");
        break;
      }
      const std::int64_t refused = AllocRefusals();
      if (rng.chance(1, 3)) SetAllocFault(1, false);  // the request made by the reset
      const bool armed = AllocRequests() == 0;
      a.FreeAll();
      if (AllocRefusals() && (armed || AllocRefusals() != refused)) Count("scratch_resets_refused");
      hist = Mix(hist, 77 + AllocRefusals());
    }
    SetAllocFault(0, false);
  }
  if (GetAllocStats().live_blocks != base.live_blocks) Violation("scratch-leak", "%lld blocks still held", (long long)(GetAllocStats().live_blocks - base.live_blocks));
  Distinct("scratch_histories", hist);
  SetAllocMode(AllocMode::kPass);
  Tick();
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, [](const std::string& m) { if (m == "scratch") StartWatchdog(); },
              [](long index, Rng& rng) {
                if (args.mode == "oom") Faults(index, rng, false);
                else if (args.mode == "thread") Faults(index, rng, true);
                else if (args.mode == "scratch") Scratch(index, rng);
                else if (args.mode == "misuse") Misuse(index, rng);
                else HarnessError("mode %s", args.mode.c_str());
              });
}
