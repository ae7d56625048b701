// Monitors under CPU information that differs from this machine's (P25).
//   mode cpu: each case in a child process in which the functions of the CPU
//             information library answer for an invented machine: instruction
//             sets left out, caches missing, shared, unequal or unusable,
//             detection failing altogether
#include <cpuinfo.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <deque>

#include "ctxutil.h"
#include "problem.h"
#include "vf.h"
#include "wrap.h"

using namespace vf;

namespace {

// An invented machine.
struct Machine {
  bool fails = false;     // detection fails
  bool real_topology = false;
  std::vector<cpuinfo_processor> processors;
  std::deque<cpuinfo_core> cores;
  std::deque<cpuinfo_cache> caches;
  unsigned features = 0;  // bits in the order of kFeatures
  std::vector<cpuinfo_uarch_info> kinds;  // kinds of cores; thread t runs on kind t % (size + unknown)
  bool unknown_kind = false;              // some threads on cores of unknown kind
  std::string text;
};
Machine* g_machine = nullptr;
std::atomic<unsigned> g_moved{0};  // threads have moved to other kinds of cores
std::atomic<int> g_initializations{0};

enum { kAvx = 1, kFma3 = 2, kAvx2 = 4, k512f = 8, k512cd = 16, k512dq = 32, k512bw = 64, k512vl = 128 };
const char* const kFeatureNames[] = {"avx", "fma3", "avx2", "avx512f", "avx512cd", "avx512dq", "avx512bw", "avx512vl"};
const unsigned k512 = k512f | k512cd | k512dq | k512bw | k512vl;

// Index of the kind of core a thread is on; the size of `kinds` if unknown.
unsigned KindOf(const Machine& m, int thread) {
  return (thread + g_moved.load()) % (m.kinds.size() + (m.unknown_kind ? 1 : 0));
}
// Tuning for that kind of core.
int TuningFor(const Machine& m, int thread) {
  if (m.kinds.empty()) return static_cast<int>(ruy::Tuning::kGeneric);
  const unsigned k = KindOf(m, thread);
  if (k >= m.kinds.size()) return static_cast<int>(ruy::Tuning::kGeneric);
  switch (m.kinds[k].uarch) {
    case cpuinfo_uarch_cortex_a53: case cpuinfo_uarch_cortex_a55r0: case cpuinfo_uarch_cortex_a55: return static_cast<int>(ruy::Tuning::kA55ish);
    case cpuinfo_uarch_cortex_x1: return static_cast<int>(ruy::Tuning::kX1);
    default: return static_cast<int>(ruy::Tuning::kGeneric);
  }
}

}  // namespace

extern "C" {
bool __real_cpuinfo_initialize(void);
uint32_t __real_cpuinfo_get_processors_count(void);
const cpuinfo_processor* __real_cpuinfo_get_processor(uint32_t);
const cpuinfo_processor* __real_cpuinfo_get_processors(void);

bool __wrap_cpuinfo_initialize(void);
bool __wrap_cpuinfo_initialize(void) {
  if (!g_machine) return __real_cpuinfo_initialize();
  g_initializations++;
  return !g_machine->fails;
}
uint32_t __wrap_cpuinfo_get_processors_count(void);
uint32_t __wrap_cpuinfo_get_processors_count(void) {
  if (!g_machine || g_machine->real_topology) return __real_cpuinfo_get_processors_count();
  return g_machine->processors.size();
}
const cpuinfo_processor* __wrap_cpuinfo_get_processor(uint32_t i);
const cpuinfo_processor* __wrap_cpuinfo_get_processor(uint32_t i) {
  if (!g_machine || g_machine->real_topology) return __real_cpuinfo_get_processor(i);
  return i < g_machine->processors.size() ? &g_machine->processors[i] : nullptr;
}
const cpuinfo_processor* __wrap_cpuinfo_get_processors(void);
const cpuinfo_processor* __wrap_cpuinfo_get_processors(void) {
  if (!g_machine || g_machine->real_topology) return __real_cpuinfo_get_processors();
  return g_machine->processors.data();
}
uint32_t __real_cpuinfo_get_current_uarch_index(void);
uint32_t __wrap_cpuinfo_get_current_uarch_index(void);
uint32_t __wrap_cpuinfo_get_current_uarch_index(void) {
  if (!g_machine || g_machine->kinds.empty()) return __real_cpuinfo_get_current_uarch_index();
  return KindOf(*g_machine, ThreadNumber());
}
const cpuinfo_uarch_info* __real_cpuinfo_get_uarch(uint32_t);
const cpuinfo_uarch_info* __wrap_cpuinfo_get_uarch(uint32_t i);
const cpuinfo_uarch_info* __wrap_cpuinfo_get_uarch(uint32_t i) {
  if (!g_machine || g_machine->kinds.empty()) return __real_cpuinfo_get_uarch(i);
  return i < g_machine->kinds.size() ? &g_machine->kinds[i] : nullptr;
}
}

namespace {

// Paths all of whose instruction set extensions are reported.
int Allowed(const Machine& m) {
  if (m.fails) return 0;
  int r = 0;
  if (m.features & kAvx) r |= 0x10;
  if ((m.features & kAvx2) && (m.features & kFma3)) r |= 0x20;
  if ((m.features & k512) == k512) r |= 0x40;
  return r;
}
// Whether processors with exactly these extensions make sense.
bool Plausible(unsigned f) {
  if ((f & ~unsigned(kAvx)) && !(f & kAvx)) return false;
  if ((f & k512) && (!(f & kAvx2) || !(f & kFma3))) return false;
  if ((f & k512) && !(f & k512f)) return false;
  return true;
}

bool Usable(const Machine& m, const cpuinfo_cache* c) {
  return c && c->size && c->processor_count && std::uint64_t(c->processor_start) + c->processor_count <= m.processors.size();
}
bool Local(const Machine& m, const cpuinfo_cache* c) {
  return m.processors[c->processor_start].core == m.processors[c->processor_start + c->processor_count - 1].core;
}

struct Bounds {
  bool complete = true;  // every processor has a cache that is fully described
  std::int64_t local = 1ll << 40, last = 1ll << 40;
};
Bounds BoundsOf(const Machine& m) {
  Bounds b;
  for (const cpuinfo_processor& p : m.processors) {
    std::int64_t local = 0, any = 0;
    bool usable = false;
    for (const cpuinfo_cache* c : {p.cache.l1d, p.cache.l2, p.cache.l3, p.cache.l4}) {
      if (!c) continue;
      any = std::max<std::int64_t>(any, c->size);
      if (!Usable(m, c)) continue;
      if (c != p.cache.l4) usable = true;
      if (Local(m, c)) local = std::max<std::int64_t>(local, c->size);
    }
    if (!usable) b.complete = false;
    b.local = std::min(b.local, local ? local : any);
    b.last = std::min(b.last, any);
  }
  return b;
}

void Invent(Rng& rng, long index, Machine* m) {
  char t[120];
  // Instruction sets: every subset in turn, or the steps real processors took.
  if (index % 2) m->features = (index / 2) % 256;
  else m->features = rng.pick<unsigned>({0, kAvx, kAvx | kFma3, kAvx | kAvx2, kAvx | kFma3 | kAvx2, kAvx | kFma3 | kAvx2 | k512f,
                                         kAvx | kFma3 | kAvx2 | k512f | k512cd, kAvx | kFma3 | kAvx2 | (k512 & ~unsigned(k512dq)),
                                         kAvx | kFma3 | kAvx2 | (k512 & ~unsigned(k512bw)), kAvx | kFma3 | kAvx2 | (k512 & ~unsigned(k512vl)),
                                         kAvx | kFma3 | kAvx2 | (k512 & ~unsigned(k512cd)), kAvx | kFma3 | kAvx2 | k512, kAvx | kFma3 | kAvx2 | k512});
  m->fails = rng.chance(1, 8);
  m->real_topology = rng.chance(1, 4);
  m->text = m->fails ? "detection fails;" : "";
  for (int i = 0; i < 8; i++) if (m->features >> i & 1) m->text += std::string(" ") + kFeatureNames[i];
  if (rng.chance(2, 3)) {
    const int n = rng.range(1, 3);
    for (int i = 0; i < n; i++) {
      cpuinfo_uarch_info u;
      memset(&u, 0, sizeof u);
      u.uarch = rng.pick({cpuinfo_uarch_cortex_a53, cpuinfo_uarch_cortex_a55r0, cpuinfo_uarch_cortex_a55, cpuinfo_uarch_cortex_x1, cpuinfo_uarch_cortex_x1,
                          cpuinfo_uarch_cortex_a57, cpuinfo_uarch_cortex_a75, cpuinfo_uarch_cortex_a76, cpuinfo_uarch_cortex_a78, cpuinfo_uarch_sky_lake, cpuinfo_uarch_unknown});
      m->kinds.push_back(u);
      snprintf(t, sizeof t, " kind %x", u.uarch);
      m->text += t;
    }
    m->unknown_kind = rng.chance(1, 3);
    if (m->unknown_kind) m->text += " kind ?";
  }
  if (m->real_topology) {
    const cpuinfo_processor* p = __real_cpuinfo_get_processors();
    m->processors.assign(p, p + __real_cpuinfo_get_processors_count());
    return;
  }
  const int clusters = rng.range(1, 3);
  struct Range { int start, count; };
  std::vector<Range> cluster_range;
  struct Sizes { unsigned l1, l2, l3; bool l2_shared, l3_all; };
  std::vector<Sizes> sizes;
  for (int c = 0; c < clusters; c++) {
    const int n = rng.range(1, 4), smt = rng.range(1, 2);
    const int start = m->processors.size();
    Sizes s;
    s.l1 = rng.chance(1, 8) ? rng.range(1, 8) * 256 : rng.pick({4, 8, 16, 24, 32, 48, 64, 128}) * 1024u;
    s.l2 = s.l1 * rng.pick({1, 2, 4, 8, 16, 20, 40});
    s.l3 = s.l2 * rng.pick({1, 2, 3, 4, 12, 32});
    s.l2_shared = rng.chance(1, 3);
    s.l3_all = rng.chance(1, 2);
    const int have = rng.chance(1, 2) ? 7 : rng.range(0, 7);
    if (!(have & 1)) s.l1 = 0;
    if (!(have & 2)) s.l2 = 0;
    if (!(have & 4)) s.l3 = 0;
    for (int i = 0; i < n; i++) {
      m->cores.emplace_back();
      memset(&m->cores.back(), 0, sizeof(cpuinfo_core));
      m->cores.back().processor_start = m->processors.size();
      m->cores.back().processor_count = smt;
      for (int k = 0; k < smt; k++) {
        cpuinfo_processor p;
        memset(&p, 0, sizeof p);
        p.smt_id = k;
        p.core = &m->cores.back();
        p.linux_id = p.apic_id = m->processors.size();
        m->processors.push_back(p);
      }
    }
    cluster_range.push_back({start, int(m->processors.size()) - start});
    sizes.push_back(s);
    snprintf(t, sizeof t, "; %dx%d processors with %u/%u%s/%u%s", n, smt, s.l1, s.l2, s.l2_shared ? " shared" : "", s.l3, s.l3_all ? " global" : "");
    m->text += t;
  }
  auto add = [&](unsigned size, int start, int count) -> const cpuinfo_cache* {
    if (!size) return nullptr;
    m->caches.emplace_back();
    cpuinfo_cache& c = m->caches.back();
    memset(&c, 0, sizeof c);
    c.size = size;
    c.line_size = 64;
    c.processor_start = start;
    c.processor_count = count;
    if (rng.chance(1, 25)) {  // what restricted processes get to see
      if (rng.chance(1, 2)) c.processor_count = 0;
      else if (rng.chance(1, 2)) c.processor_start = m->processors.size() + rng.range(0, 3);
      else c.processor_count = m->processors.size() - start + rng.range(1, 9);
      snprintf(t, sizeof t, "; cache of %u bytes at %u+%u", size, c.processor_start, c.processor_count);
      m->text += t;
    }
    return &c;
  };
  const int all = m->processors.size();
  const cpuinfo_cache* l3_of_all = nullptr;
  bool any_all = false;
  for (int c = 0; c < clusters; c++) {
    const Range r = cluster_range[c];
    const Sizes& s = sizes[c];
    const cpuinfo_cache* l2 = s.l2_shared ? add(s.l2, r.start, r.count) : nullptr;
    const cpuinfo_cache* l3 = nullptr;
    if (s.l3 && s.l3_all && !any_all) {
      // one cache for the whole machine, at least as large as all others
      unsigned big = 0;
      for (const Sizes& o : sizes) big = std::max(big, std::max(o.l3, std::max(o.l2, o.l1)));
      l3_of_all = add(big, 0, all);
      any_all = true;
    }
    if (s.l3) l3 = s.l3_all ? l3_of_all : add(s.l3, r.start, r.count);
    for (int i = r.start; i < r.start + r.count;) {
      const cpuinfo_core* core = m->processors[i].core;
      const cpuinfo_cache* l1 = add(s.l1, core->processor_start, core->processor_count);
      const cpuinfo_cache* own = s.l2_shared ? l2 : add(s.l2, core->processor_start, core->processor_count);
      for (unsigned k = 0; k < core->processor_count; k++, i++) {
        m->processors[i].cache.l1d = l1;
        m->processors[i].cache.l2 = own;
        m->processors[i].cache.l3 = l3;
      }
    }
  }
}

// What a child tells its parent.
struct Shared {
  std::atomic<int> stage;
  int path[2], enabled[2];
  void* kernel[2];
  int steps;
  int local, last, initializations;
  bool reports[5];  // Sse42, Avx, Avx2Fma, Avx512, AvxVnni
  char error[400];
  int tuned_steps, other_steps, mistuned, mistuned_thread, mistuned_expected, moved;
  std::uintptr_t kernels[32][4];  // code of (combo, portable/avx/avx2/avx512)
};
Shared* g_shared;
int g_err = -1;

std::string ErrText() {
  char text[600];
  const ssize_t got = pread(g_err, text, sizeof text, 0);
  std::string s(text, got < 0 ? 0 : got);
  std::replace(s.begin(), s.end(), '\n', ' ');
  return s;
}

template <typename F>
int InChild(const F& f, bool* timed_out) {
  g_shared->stage = 0;
  fflush(stdout);
  const pid_t pid = fork();
  if (pid < 0) HarnessError("fork failed");
  if (pid == 0) {
    struct rlimit no_core = {0, 0};
    setrlimit(RLIMIT_CORE, &no_core);
    if (ftruncate(g_err, 0)) _exit(3);
    lseek(g_err, 0, SEEK_SET);
    dup2(g_err, 2);
    for (int s : {SIGABRT, SIGILL, SIGFPE, SIGSEGV, SIGBUS}) signal(s, SIG_DFL);
    f();
    _exit(0);
  }
  int status = 0;
  *timed_out = false;
  for (int ms = 0;; ms++) {
    const pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) break;
    if (r < 0) HarnessError("waitpid failed");
    if (ms > 60000) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      *timed_out = true;
      break;
    }
    timespec ts{0, ms < 50 ? 100000 : 1000000};
    nanosleep(&ts, nullptr);
  }
  Tick();
  return status;
}

void SetFeatures(Rng& rng, const Machine& m) {
  auto has = [&](unsigned f) { return (m.features & f) != 0; };
  cpuinfo_isa.avx = has(kAvx);
  cpuinfo_isa.fma3 = has(kFma3);
  cpuinfo_isa.avx2 = has(kAvx2);
  cpuinfo_isa.avx512f = has(k512f);
  cpuinfo_isa.avx512cd = has(k512cd);
  cpuinfo_isa.avx512dq = has(k512dq);
  cpuinfo_isa.avx512bw = has(k512bw);
  cpuinfo_isa.avx512vl = has(k512vl);
  // Extensions that no code path of the library is built with.
  cpuinfo_isa.fma4 = rng.chance(1, 2);
  cpuinfo_isa.xop = rng.chance(1, 2);
  cpuinfo_isa.f16c = rng.chance(1, 2);
  cpuinfo_isa.sse4a = rng.chance(1, 2);
  cpuinfo_isa.sse4_2 = rng.chance(1, 2);
  cpuinfo_isa.avx512pf = rng.chance(1, 2);
  cpuinfo_isa.avx512er = rng.chance(1, 2);
  cpuinfo_isa.avx512ifma = rng.chance(1, 2);
  cpuinfo_isa.avx512vbmi = rng.chance(1, 2);
  cpuinfo_isa.avx512vnni = rng.chance(1, 2);
}

const int kArch[4] = {1, 0x10, 0x20, 0x40};

void Setup() {
  if (!__real_cpuinfo_initialize()) HarnessError("CPU information is not available on this machine");
  void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) HarnessError("mmap failed");
  g_shared = static_cast<Shared*>(m);
  g_err = memfd_create("stderr", 0);
  if (g_err < 0) HarnessError("memfd_create failed");
  unsetenv("RUY_PATHS");
  // Code executed for every combination and explicitly chosen path.
  const int usable = UsableMask();
  bool timed_out;
  const int status = InChild([&] {
    Rng rng(3);
    for (int c = 0; c < kNumCombos && c < 32; c++)
      for (int i = 0; i < 4; i++) {
        if (!(usable & kArch[i])) continue;
        GenOpts o;
        o.combos = {c};
        o.max_macs = 2000;
        o.max_dim = 20;
        Prob p;
        Generate(rng, o, &p);
        ruy::Context ctx;
        ctx.set_runtime_enabled_paths(static_cast<ruy::Path>(kArch[i]));
        Plan plan;
        InstallPlan(&plan);
        RunMul(p.call, &ctx, 0);
        InstallPlan(nullptr);
        g_shared->kernels[c][i] = reinterpret_cast<std::uintptr_t>(plan.orig_kernel);
      }
    g_shared->stage = 1;
  }, &timed_out);
  if (timed_out || status || g_shared->stage != 1) HarnessError("could not learn the code of the paths (status %x): %s", status, ErrText().c_str());
}

void CpuMode(long index, Rng& rng) {
  if (!g_shared) Setup();
  Machine machine;
  Invent(rng, index, &machine);
  const int usable = UsableMask();
  // Never let the library see an extension this machine does not have.
  if (!(usable & 0x10)) machine.features &= ~unsigned(kAvx);
  if (!(usable & 0x20)) machine.features &= ~unsigned(kAvx2 | kFma3);
  if (!(usable & 0x40)) machine.features &= ~k512;
  GenOpts o;
  o.max_macs = rng.chance(1, 5) ? 400000 : 40000;
  o.max_dim = 200;
  Prob p;
  Ref ref;
  for (int tries = 0;; tries++) {
    Prob q;
    Generate(rng, o, &q);
    Ref r;
    ComputeRef(q, &r);
    bool ok = true;
    if (!FloatCombo(q.call)) for (auto a : r.acc) if (a > 2147483647ll || a < -2147483648ll) ok = false;
    if (Quantized(q.call)) for (auto a : r.q) if (a > 2147483647ll - 70000 || a < -2147483648ll + 70000) ok = false;
    if (!ok && tries < 20) continue;
    if (!ok) { Count("skipped_out_of_domain"); return; }
    p = std::move(q);
    ref = std::move(r);
    break;
  }
  Config cfg;
  cfg.threads = rng.pick({1, 1, 2, 4});
  cfg.force_max = rng.chance(1, 2);
  // A choice by the user overrides detection.
  const bool moves = machine.kinds.size() > 1 && rng.chance(1, 150);
  const bool informed = !machine.fails && BoundsOf(machine).complete;
  const int explicit_path = rng.chance(1, 6) ? rng.pick({1, 0x10, 0x20, 0x40}) & usable : 0;
  cfg.path = explicit_path;
  SetContext("machine:%s; %s %s", machine.text.c_str(), p.Describe().c_str(), Describe(cfg).c_str());
  int status = 0;
  bool timed_out = false;
  for (int attempt = 0; attempt < 2; attempt++) {
    status = InChild([&] {
      Rng child_rng = rng;
      SetFeatures(child_rng, machine);
      g_machine = &machine;
      Shared& s = *g_shared;
      s.error[0] = 0;
      s.steps = 0;
      s.tuned_steps = s.other_steps = s.mistuned = s.moved = 0;
      auto judge_tuning = [&](const Plan& plan) {
        for (const Event& e : plan.Events()) {
          const int want = TuningFor(machine, e.thread);
          if (want == static_cast<int>(ruy::Tuning::kGeneric)) s.other_steps++; else s.tuned_steps++;
          // Without usable information the general code is as good.
          if (e.tuning == want || (!informed && e.tuning == static_cast<int>(ruy::Tuning::kGeneric))) continue;
          if (s.mistuned) continue;
          s.mistuned = e.tuning ? e.tuning : -1;
          s.mistuned_thread = e.thread;
          s.mistuned_expected = want;
        }
      };
      s.path[0] = s.path[1] = s.enabled[0] = s.enabled[1] = -1;
      {
        ruy::CpuInfo info;
        const ruy::CpuCacheParams& c = info.CacheParams();
        s.local = c.local_cache_size;
        s.last = c.last_level_cache_size;
        s.reports[0] = info.Sse42(); s.reports[1] = info.Avx(); s.reports[2] = info.Avx2Fma();
        s.reports[3] = info.Avx512(); s.reports[4] = info.AvxVnni();
      }
      s.stage = 1;
      for (int k = 0; k < 2; k++) {  // two contexts, one after the other
        ruy::Context ctx;
        Apply(cfg, &ctx);
        FillDst(child_rng, &p);
        Plan plan;
        InstallPlan(&plan);
        RunMul(p.call, &ctx, 0);
        InstallPlan(nullptr);
        s.path[k] = static_cast<int>(ctx.last_used_path());
        s.enabled[k] = static_cast<int>(ctx.get_runtime_enabled_paths());
        s.kernel[k] = plan.orig_kernel;
        s.steps += plan.steps.load();
        judge_tuning(plan);
        if (k == 1 && moves) {
          // All threads move to other kinds of cores; a while later that has been noticed.
          g_moved++;
          timespec pause{1, 500000000};
          nanosleep(&pause, nullptr);
          plan.Reset();
          InstallPlan(&plan);
          RunMul(p.call, &ctx, 0);
          InstallPlan(nullptr);
          judge_tuning(plan);
          s.moved = 1;
        }
        std::string err = CheckDst(p, ref, s.path[k] >= 0x10 ? 1 : 0);
        if (!err.empty() && !s.error[0]) snprintf(s.error, sizeof s.error, "%s", err.c_str());
        s.stage = 2 + k;
      }
      s.initializations = g_initializations.load();
    }, &timed_out);
    if (!timed_out) break;
  }
  const Shared& s = *g_shared;
  const std::string where = "machine:" + machine.text + "; " + p.Describe() + " " + Describe(cfg);
  Count("machines");
  if (timed_out || status || s.stage != 3) {
    Violation(timed_out ? "cpu-hang" : "cpu-died", "%s: %s %s (status %x, stage %d) %s", where.c_str(), s.stage < 1 ? "detection" : "a multiplication",
              timed_out ? "did not finish" : "did not complete", status, s.stage.load(), ErrText().c_str());
    return;
  }
  const int allowed = Allowed(machine);
  const Bounds b = BoundsOf(machine);
  Count("muls", 2);
  Count("steps_observed", s.steps);
  if (machine.fails) Count("detection_failures");
  if (!b.complete) Count("incomplete_cache_information");
  else if (!machine.real_topology && !machine.fails) Count("complete_cache_information");
  if (explicit_path) Count("explicit_choices");
  Distinct("machines", HashBytes(machine.text.data(), machine.text.size()));
  Distinct("machine_problems", Mix(HashBytes(machine.text.data(), machine.text.size()), p.ShapeHash()));
  if (rng.chance(1, 60)) Sample(where + " -> " + PathName(s.path[0]) + ", caches " + std::to_string(s.local) + "/" + std::to_string(s.last));
  if (s.error[0]) Violation("cpu-result", "%s; %s", s.error, where.c_str());
  // What is reported of the processor.
  const int reported = (s.reports[1] ? 0x10 : 0) | (s.reports[2] ? 0x20 : 0) | (s.reports[3] ? 0x40 : 0);
  const bool exact = !machine.fails && Plausible(machine.features) && b.complete;
  if (reported & ~allowed) Violation("cpu-report", "paths 0x%x reported as supported, only 0x%x are; %s", reported, allowed, where.c_str());
  if (exact && reported != allowed) Violation("cpu-report", "paths 0x%x reported as supported instead of 0x%x; %s", reported, allowed, where.c_str());
  // Cache sizes.
  Count("cache_sizes_checked");
  if (s.local <= 0 || s.last < s.local || s.last > (1 << 30)) Violation("cpu-cache-size", "cache sizes %d and %d; %s", s.local, s.last, where.c_str());
  else if (!machine.fails && b.complete && (s.local > b.local || s.last > b.last))
    Violation("cpu-cache-size", "cache sizes %d and %d planned for, some processor has only %lld and %lld; %s", s.local, s.last, (long long)b.local,
              (long long)b.last, where.c_str());
  Count("tuned_steps", s.tuned_steps);
  Count("generally_tuned_steps", s.other_steps);
  if (s.moved) Count("moves_between_kinds");
  if (s.mistuned)
    Violation("cpu-tuning", "a step on thread %d used tuning %d, for its kind of core it is %d%s; %s", s.mistuned_thread, s.mistuned, s.mistuned_expected,
              s.moved ? " (some after a move)" : "", where.c_str());
  // What the multiplications used.
  for (int k = 0; k < 2; k++) {
    if (explicit_path) {
      if (s.path[k] != explicit_path) Violation("cpu-explicit", "path 0x%x used although 0x%x was chosen; %s", s.path[k], explicit_path, where.c_str());
      continue;
    }
    Count(std::string("used_") + PathName(s.path[k]));
    if ((s.enabled[k] & 0x70 & ~allowed) || (s.path[k] & 0x70 & ~allowed))
      Violation("cpu-unsupported-path", "paths 0x%x enabled and 0x%x used, the processor only supports 0x%x; %s", s.enabled[k], s.path[k], allowed, where.c_str());
    int best = 1;
    for (int a : kArch) if (a & allowed) best = a;
    if (exact && s.path[k] != best) Violation("cpu-missed-path", "path 0x%x used instead of 0x%x; %s", s.path[k], best, where.c_str());
    // The code that ran, whatever was reported.
    bool known = false, fine = false;
    for (int i = 0; i < 4; i++) {
      if (g_shared->kernels[p.call.combo][i] != reinterpret_cast<std::uintptr_t>(s.kernel[k])) continue;
      known = true;
      if (i == 0 || (kArch[i] & allowed)) fine = true;
    }
    if (known) Count("code_identified");
    if (known && !fine) Violation("cpu-unsupported-code", "ran code for a path the processor does not support (0x%x supported); %s", allowed, where.c_str());
  }
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, [](const std::string&) { StartWatchdog(); }, [](long index, Rng& rng) { CpuMode(index, rng); });
}
