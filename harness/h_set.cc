// Monitors over settings, floating-point environment and independence of
// contexts.
//   mode path  : executed and reported code path under sequences of settings,
//                environment values and compiled sets (P14)
//   mode tune  : tuning seen by every step, settings read back (P14)
//   mode fpenv : control registers before and after (P15)
//   mode denorm: results on denormal data independent of flags and threads (P15)
//   mode indep : several contexts driven concurrently versus alone (P16)
#include <pthread.h>
#include <unistd.h>
#include <xmmintrin.h>

#include <cmath>
#include <tuple>
#include <thread>

#include "ctxutil.h"
#include "problem.h"
#include "ruy/performance_advisory.h"
#include "ruy/prepacked_cache.h"
#include "sets.h"
#include "vf.h"
#include "wrap.h"

using namespace vf;

namespace {

// Paths the processor supports, by CPUID.
int CpuArchMask() {
  int m = 0;
  __builtin_cpu_init();
  if (__builtin_cpu_supports("avx")) m |= 0x10;
  if (__builtin_cpu_supports("avx2") && __builtin_cpu_supports("fma")) m |= 0x20;
  if (__builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512dq") && __builtin_cpu_supports("avx512cd") &&
      __builtin_cpu_supports("avx512bw") && __builtin_cpu_supports("avx512vl"))
    m |= 0x40;
  return m;
}
int Msb(int m) {
  int b = 0;
  for (int i = 1; i < 0x100; i <<= 1) if (m & i) b = i;
  return b;
}

struct Seen {
  void* kernel = nullptr;
  void* pack[2] = {nullptr, nullptr};
  int dims[2] = {0, 0};
  bool operator==(const Seen& o) const {
    return kernel == o.kernel && pack[0] == o.pack[0] && pack[1] == o.pack[1] && dims[0] == o.dims[0] && dims[1] == o.dims[1];
  }
};

struct SmallMul {
  int type, rows, depth, cols;
  std::vector<float> lf, rf, df;
  std::vector<std::int8_t> li, ri;
  std::vector<std::int32_t> di;
  void Make(Rng& rng) {
    type = rng.range(0, 1);
    rows = rng.range(1, 40); depth = rng.range(1, 30); cols = rng.range(1, 40);
    lf.resize(rows * depth); rf.resize(depth * cols); df.resize(rows * cols);
    li.resize(rows * depth); ri.resize(depth * cols); di.resize(rows * cols);
    for (std::size_t i = 0; i < lf.size(); i++) { li[i] = rng.range(-50, 50); lf[i] = li[i]; }
    for (std::size_t i = 0; i < rf.size(); i++) { ri[i] = rng.range(-50, 50); rf[i] = ri[i]; }
  }
  Seen Run(const SetInfo& s, ruy::Context* ctx, Plan* plan) {
    std::fill(df.begin(), df.end(), -1e9f);
    std::fill(di.begin(), di.end(), -123456789);
    plan->Reset();
    InstallPlan(plan);
    if (type == 0) s.run(0, lf.data(), rf.data(), df.data(), rows, depth, cols, ctx);
    else s.run(1, li.data(), ri.data(), di.data(), rows, depth, cols, ctx);
    InstallPlan(nullptr);
    Tick();
    if (!plan->intercepted) HarnessError("the multiplication was not intercepted");
    Seen r;
    r.kernel = plan->orig_kernel;
    for (int i = 0; i < 2; i++) { r.pack[i] = plan->orig_pack[i]; r.dims[i] = plan->kernel_dims[i]; }
    return r;
  }
  bool Correct() const {
    for (int c = 0; c < cols; c++)
      for (int r = 0; r < rows; r++) {
        int acc = 0;
        for (int k = 0; k < depth; k++) acc += li[r + k * rows] * ri[k + c * depth];
        if (type == 0 ? df[r + c * rows] != acc : di[r + c * rows] != acc) return false;
      }
    return true;
  }
};

// Code executed for (compiled set, type, path), learnt from contexts in which
// that path alone is enabled.
std::map<std::tuple<int, int, int>, Seen> g_code;

void LearnCode() {
  Rng rng(7);
  Plan plan;
  for (int s = 0; s < kNumSets; s++)
    for (int type = 0; type < 2; type++)
      for (int p = 1; p < 0x80; p <<= 1) {
        if (!(kSets[s].mask & p)) continue;
        if (p >= 0x10 && !(CpuArchMask() & p)) continue;
        SmallMul m;
        do m.Make(rng); while (m.type != type);
        ruy::Context ctx;
        ctx.set_runtime_enabled_paths(static_cast<ruy::Path>(p));
        g_code[{s, type, p}] = m.Run(kSets[s], &ctx, &plan);
      }
}

void PathMode(long index, Rng& rng) {
  const int cpu = CpuArchMask();
  if (g_code.empty()) {
    unsetenv("RUY_PATHS");
    LearnCode();
  }
  if (index % 1000 == 0) {
    // Different paths are different code for types with dedicated kernels.
    for (auto& a : g_code)
      for (auto& b : g_code)
        if (std::get<0>(a.first) == std::get<0>(b.first) && std::get<1>(a.first) == std::get<1>(b.first) && a.first != b.first) {
          Count("code_pairs");
          const int pa = std::get<2>(a.first), pb = std::get<2>(b.first);
          if (pa >= 0x10 && pb < pa && a.second.kernel == b.second.kernel)
            Violation("path-same-code", "paths %s and %s of set 0x%x run the same kernel", PathName(pa), PathName(pb), kSets[std::get<0>(a.first)].mask);
        }
  }
  static Plan plan;
  std::uint64_t hist = 3;
  unsetenv("RUY_PATHS");
  std::string trail;
  ruy::Context* ctx = new ruy::Context;
  int enabled = -1;  // -1: default (environment or detection), decided at first use
  int env = 0;       // value of the environment variable, 0 = unset
  int resolved = -1; // what default resolved to at first use
  const int steps = rng.range(2, 10);
  for (int st = 0; st < steps; st++) {
    char b[80];
    switch (rng.range(0, 7)) {
      case 0: case 1: {  // enable a set
        int m = rng.chance(1, 2) ? 1 << rng.range(0, 6) : rng.range(1, 0x7f);
        m &= 0x0f | cpu;
        if (!m) m = 1;
        ctx->set_runtime_enabled_paths(static_cast<ruy::Path>(m));
        enabled = m | 1;
        snprintf(b, sizeof b, " set(0x%x)", m); trail += b;
        break;
      }
      case 2:  // revert to the default
        ctx->set_runtime_enabled_paths(ruy::Path::kNone);
        enabled = -1; resolved = -1;
        trail += " revert";
        break;
      case 3:  // fresh context
        delete ctx;
        ctx = new ruy::Context;
        enabled = -1; resolved = -1;
        trail += " fresh";
        break;
      case 4:  // environment
        if (rng.chance(1, 3)) { unsetenv("RUY_PATHS"); env = 0; trail += " unsetenv"; }
        else {
          env = (rng.chance(1, 2) ? 1 << rng.range(0, 6) : rng.range(1, 0x7f)) & (0x0f | cpu);
          if (!env) env = 4;
          snprintf(b, sizeof b, rng.chance(1, 2) ? "%x" : rng.chance(1, 2) ? "0x%X" : "%03x", env);
          setenv("RUY_PATHS", b, 1);
          trail += std::string(" env(") + b + ")";
        }
        // Only contexts that have not resolved their default yet are affected;
        // what happens to others is not specified.
        break;
      default: break;
    }
    const int s = rng.range(0, kNumSets - 1), compiled = kSets[s].mask;
    int expect_enabled;
    bool detected = false;
    if (enabled >= 0) expect_enabled = enabled;
    else if (resolved >= 0) { expect_enabled = resolved & 0xff; detected = resolved & 0x100; }
    else if (env) expect_enabled = resolved = env | 1;
    else { expect_enabled = cpu | 1; detected = true; resolved = expect_enabled | 0x100; }
    // The internal variants count as enabled under detection; sets whose best
    // path would be one of those say nothing about the default then.
    const int expect = Msb(compiled & expect_enabled);
    const bool skip = detected && expect < 0x10 && compiled != 1;
    SmallMul m;
    m.Make(rng);
    if (rng.chance(1, 3)) { ctx->set_max_num_threads(rng.range(2, 4)); ctx->set_num_threads_strategy(ruy::NumThreadsStrategy::kForceMaxNumThreads); }
    snprintf(b, sizeof b, " mul(compiled 0x%x)", compiled); trail += b;
    SetContext("%s", trail.c_str());
    const Seen seen = m.Run(kSets[s], ctx, &plan);
    const int reported = static_cast<int>(ctx->last_used_path());
    const int get = static_cast<int>(ctx->get_runtime_enabled_paths());
    hist = Mix(hist, HashBytes(trail.data(), trail.size()));
    Count("muls");
    if (!m.Correct()) Violation("path-result", "wrong result after%s", trail.c_str());
    if (!skip) {
      Count("paths_compared");
      if (reported != expect) Violation("path-reported", "reports path 0x%x, expected 0x%x after%s", reported, expect, trail.c_str());
      auto it = g_code.find(std::make_tuple(s, m.type, expect));
      if (it == g_code.end()) Count("path_not_learnt");
      else if (!(it->second == seen)) Violation("path-executed", "code executed is not that of path 0x%x (kernel %dx%d) after%s", expect, seen.dims[0], seen.dims[1], trail.c_str());
      Count(std::string("executed_") + PathName(expect));
    }
    if (detected) {
      Count("detections");
      if ((get & 0x70) != cpu || !(get & 1)) Violation("path-detection", "detected paths 0x%x, processor supports 0x%x, after%s", get, cpu, trail.c_str());
    } else if (get != (expect_enabled & 0x71)) {  // internal variants are hidden
      Violation("path-readback", "enabled paths read back as 0x%x, expected 0x%x, after%s", get, expect_enabled, trail.c_str());
    }
    Distinct("setting_histories", hist);
  }
  if (rng.chance(1, 300)) Sample(trail);
  delete ctx;
  unsetenv("RUY_PATHS");
}

// ------------------------------------------------------------------- tune
void Tune(long index, Rng& rng) {
  std::unique_ptr<ruy::Context> ctx(new ruy::Context);
  static Plan plan;
  std::uint64_t hist = 11;
  int tuning = 0, threads = 1, strat = 0, spin = -1;
  const int steps = rng.range(2, 7);
  std::string trail;
  std::unique_ptr<Prob> keep;
  // What the automatic choice is on this machine, whose cores are alike: that
  // of a context on which no tuning was ever set.
  static int automatic = 0;
  if (!automatic) {
    Rng r(5);
    GenOpts o;
    o.max_macs = 1000;
    o.max_dim = 20;
    Prob p;
    Generate(r, o, &p);
    ruy::Context fresh;
    plan.Reset();
    InstallPlan(&plan);
    RunMul(p.call, &fresh, 1);
    InstallPlan(nullptr);
    for (const Event& e : plan.Events()) automatic = e.tuning;
    if (!automatic) { Violation("tuning-unresolved", "a step used the automatic tuning unresolved in a new context"); return; }
  }
  for (int st = 0; st < steps; st++) {
    if (rng.chance(2, 3)) ctx->set_explicit_tuning(static_cast<ruy::Tuning>(tuning = rng.range(0, 3)));
    if (rng.chance(2, 3)) ctx->set_max_num_threads(threads = rng.range(1, 6));
    if (rng.chance(1, 2)) ctx->set_num_threads_strategy(static_cast<ruy::NumThreadsStrategy>(strat = rng.chance(3, 4)));
    if (rng.chance(1, 3)) ctx->mutable_thread_pool()->set_spin_milliseconds(spin = rng.pick({0, 1, 2, 7}));
    if (rng.chance(1, 8)) ctx->ClearPrepackedCache();
    auto paths = UsablePaths();
    ctx->set_runtime_enabled_paths(static_cast<ruy::Path>(paths[rng.range(0, paths.size() - 1)]));
    RandomCaches(rng, ctx.get());
    if (!keep || rng.chance(2, 3)) {
      GenOpts o;
      o.max_macs = 40000;
      o.max_dim = 160;
      o.cache_policies = rng.chance(1, 2);
      keep.reset(new Prob);
      Generate(rng, o, keep.get());
    }
    char b[100];
    snprintf(b, sizeof b, " tuning=%d threads=%d strategy=%d;", tuning, threads, strat);
    trail += b;
    SetContext("%s", trail.c_str());
    plan.Reset();
    InstallPlan(&plan);
    RunMul(keep->call, ctx.get(), 1);
    InstallPlan(nullptr);
    Tick();
    std::set<int> th;
    for (const Event& e : plan.Events()) {
      th.insert(e.thread);
      Count("steps_observed");
      if (tuning != 0 && e.tuning != tuning) {
        Violation("tuning-used", "a %s step on thread %d used tuning %d, set %d, after%s", e.kind <= kPackEnd ? "pack" : "compute", e.thread, e.tuning, tuning, trail.c_str());
        break;
      }
      if (tuning == 0 && e.tuning == 0) { Violation("tuning-unresolved", "a step used the automatic tuning unresolved after%s", trail.c_str()); break; }
      if (tuning == 0 && e.tuning != automatic) {
        Violation("tuning-automatic", "a %s step on thread %d used tuning %d instead of the automatic %d after%s", e.kind <= kPackEnd ? "pack" : "compute", e.thread, e.tuning, automatic, trail.c_str());
        break;
      }
      if (tuning == 0) Count("automatic_steps");
    }
    if (th.size() > 1) Count("multi_thread_muls");
    if (static_cast<int>(ctx->explicit_tuning()) != tuning || ctx->max_num_threads() != threads || static_cast<int>(ctx->num_threads_strategy()) != strat ||
        (spin >= 0 && std::abs(ctx->thread_pool().spin_milliseconds() - spin) > 0.01f))
      Violation("settings-readback", "settings read back tuning=%d threads=%d strategy=%d spin=%f after%s", static_cast<int>(ctx->explicit_tuning()),
                ctx->max_num_threads(), static_cast<int>(ctx->num_threads_strategy()), ctx->thread_pool().spin_milliseconds(), trail.c_str());
    hist = Mix(hist, tuning * 100 + threads * 10 + strat);
    hist = Mix(hist, th.size());
    Distinct("tuning_histories", hist);
    Count("tuned_muls");
  }
  if (rng.chance(1, 200)) Sample(trail);
}

// ------------------------------------------------------------------- fpenv
std::uint16_t GetX87() {
  std::uint16_t w;
  __asm__ volatile("fnstcw %0" : "=m"(w));
  return w;
}
void SetX87(std::uint16_t w) { __asm__ volatile("fldcw %0" ::"m"(w)); }

void FpEnv(long index, Rng& rng) {
  GenOpts o;
  o.max_macs = rng.chance(1, 3) ? 200000 : 30000;
  o.max_dim = 200;
  o.dyadic = true;  // no inexact or invalid operation with exceptions unmasked
  o.cache_policies = rng.chance(1, 3);
  static std::unique_ptr<ruy::Context> kept;
  static Plan plan;
  Prob p;
  Generate(rng, o, &p);
  for (int rep = 0; rep < 3; rep++) {
    std::unique_ptr<ruy::Context> fresh;
    if (!kept) kept.reset(new ruy::Context);
    ruy::Context* ctx = kept.get();
    if (rng.chance(1, 4)) { fresh.reset(new ruy::Context); ctx = fresh.get(); }
    Config cfg;
    auto paths = UsablePaths();
    cfg.path = paths[rng.range(0, paths.size() - 1)];
    cfg.threads = rng.range(1, 5);
    cfg.force_max = rng.chance(2, 3);
    cfg.spin_ms = rng.pick({0, 1});
    cfg.tuning = rng.range(0, 3);
    Apply(cfg, ctx);
    if (rng.chance(2, 3)) RandomCaches(rng, ctx);
    const unsigned saved = _mm_getcsr();
    const std::uint16_t saved87 = GetX87();
    unsigned want = 0x1f80;                                       // all masked
    want |= static_cast<unsigned>(rng.range(0, 3)) << 13;         // rounding
    if (rng.chance(1, 2)) want |= 0x8000;                         // FTZ
    if (rng.chance(1, 2)) want |= 0x0040;                         // DAZ
    if (FloatCombo(p.call) && rng.chance(1, 3)) want &= ~(rng.chance(1, 2) ? 0x0200u : 0x0400u);  // divide by zero / overflow unmasked
    if (rng.chance(1, 3)) want |= static_cast<unsigned>(rng.range(0, 0x3f));  // sticky flags already raised
    std::uint16_t want87 = 0x037f;
    want87 = static_cast<std::uint16_t>((want87 & ~0x0f00) | (rng.range(0, 3) << 10) | (rng.pick({0, 2, 3}) << 8));
    SetContext("%s %s mxcsr=%04x x87=%04x", p.Describe().c_str(), Describe(cfg).c_str(), want, want87);
    plan.Reset();
    plan.delay_seed = rng.chance(1, 2) ? rng.u64() | 1 : 0;
    plan.delay_style = rng.range(0, 5);
    InstallPlan(&plan);
    _mm_setcsr(want);
    SetX87(want87);
    RunMul(p.call, ctx, 1);
    const unsigned got = _mm_getcsr();
    const std::uint16_t got87 = GetX87();
    SetX87(saved87);
    _mm_setcsr(saved);
    InstallPlan(nullptr);
    Tick();
    Count("muls");
    if ((got & ~0x3fu) != (want & ~0x3fu))
      Violation("mxcsr", "control register %04x before, %04x after; %s %s", want, got, p.Describe().c_str(), Describe(cfg).c_str());
    if (got87 != want87)
      Violation("x87", "x87 control word %04x before, %04x after; %s", want87, got87, p.Describe().c_str());
    // Denormals treated alike by every compute step.
    std::set<unsigned> flags;
    std::set<int> th;
    for (const Event& e : plan.Events())
      if (e.kind == kKernStart) { flags.insert(e.mxcsr & 0x8040); th.insert(e.thread); Count("compute_steps"); }
    if (flags.size() > 1)
      Violation("denormal-mode-mixed", "compute steps ran with %zu different denormal settings; %s %s", flags.size(), p.Describe().c_str(), Describe(cfg).c_str());
    if (th.size() > 1) Count("multi_thread_muls");
    Max("threads_in_one_multiplication", th.size());
    Distinct("environments", Mix(Mix(want & ~0x3fu, want87), Mix(p.ShapeHash(), cfg.path * 100 + th.size())));
    if (rng.chance(1, 800)) Sample(p.Describe() + " " + Describe(cfg) + " mxcsr=" + std::to_string(want));
  }
}

// ------------------------------------------------------------------- denorm
void Denorm(long index, Rng& rng) {
  GenOpts o;
  o.combos = {0, 0, 0, 1, 2, 3};
  o.max_macs = rng.chance(1, 3) ? 150000 : 20000;
  o.max_dim = 200;
  Prob p;
  Generate(rng, o, &p);
  // Denormal operands, and operands whose products or sums are denormal.
  auto fill = [&](const MatSpec& m) {
    const bool f32 = m.type == T::f32;
    const int emin = f32 ? -149 : -1074, enorm = f32 ? -126 : -1022;
    const int style = rng.range(0, 3);
    for (int r = 0; r < m.rows; r++)
      for (int c = 0; c < m.cols; c++) {
        double mant = 1 + rng.unit();
        if (rng.chance(1, 2)) mant = -mant;
        int e;
        if (style == 0) e = rng.range(emin, enorm + 3);
        else if (style == 1) e = rng.range(enorm / 2 - 12, enorm / 2 + 4);
        else if (style == 2) e = rng.chance(1, 2) ? rng.range(emin, enorm) : rng.range(-3, 20);
        else e = rng.range(-4, 4);
        if (f32) static_cast<float*>(m.data)[m.Off(r, c)] = static_cast<float>(std::ldexp(mant, e));
        else static_cast<double*>(m.data)[m.Off(r, c)] = std::ldexp(mant, e);
      }
  };
  fill(p.call.lhs);
  fill(p.call.rhs);
  if (p.call.mp.bias && rng.chance(1, 2)) {
    const T a = ComboOf(p.call).acc;
    for (int i = 0; i < p.Channels(); i++) {
      if (a == T::f32) const_cast<float*>(static_cast<const float*>(p.call.mp.bias))[i] = static_cast<float>(std::ldexp(1 + rng.unit(), rng.range(-149, -120)));
      else const_cast<double*>(static_cast<const double*>(p.call.mp.bias))[i] = std::ldexp(1 + rng.unit(), rng.range(-1074, -1018));
    }
  }
  p.call.mp.has_clamp = false;
  static Plan plan;
  auto paths = UsablePaths();
  Config cfg;
  cfg.path = paths[rng.range(0, paths.size() - 1)];
  std::vector<std::uint8_t> ref;
  std::string ref_desc;
  bool any_denormal = false;
  static std::unique_ptr<ruy::Context> kept;
  for (int rep = 0; rep < 6; rep++) {
    std::unique_ptr<ruy::Context> fresh;
    if (!kept) kept.reset(new ruy::Context);
    ruy::Context* ctx = kept.get();
    if (rng.chance(1, 3)) { fresh.reset(new ruy::Context); ctx = fresh.get(); }
    cfg.threads = rep == 0 ? 1 : rng.range(1, 6);
    cfg.force_max = rng.chance(3, 4);
    cfg.spin_ms = rng.pick({0, 1});
    Apply(cfg, ctx);
    RandomCaches(rng, ctx);
    const unsigned saved = _mm_getcsr();
    const unsigned want = 0x1f80 | (rng.chance(1, 2) ? 0x8000 : 0) | (rng.chance(1, 2) ? 0x40 : 0);
    char d[64];
    snprintf(d, sizeof d, " mxcsr=%04x", want);
    const std::string desc = Describe(cfg) + d;
    SetContext("%s %s", p.Describe().c_str(), desc.c_str());
    plan.Reset();
    plan.delay_seed = rng.chance(1, 2) ? rng.u64() | 1 : 0;
    plan.delay_style = rng.range(0, 5);
    InstallPlan(&plan);
    _mm_setcsr(want);
    RunMul(p.call, ctx, 1);
    _mm_setcsr(saved);
    InstallPlan(nullptr);
    Tick();
    std::set<int> th;
    for (const Event& e : plan.Events()) if (e.kind == kKernStart) th.insert(e.thread);
    if (th.size() > 1) Count("denormal_multi_thread_muls");
    Count("denormal_muls");
    std::vector<std::uint8_t> out = Entries(p.call.dst);
    if (ref.empty()) {
      ref = out;
      ref_desc = desc;
      for (int r = 0; r < p.call.dst.rows; r++)
        for (int c = 0; c < p.call.dst.cols; c++) {
          double exact = 0;
          for (int k = 0; k < p.call.lhs.cols; k++) exact += p.call.lhs.GetF(r, k) * p.call.rhs.GetF(k, c);
          const double lim = p.call.dst.type == T::f32 ? 1.1754943508222875e-38 : 2.2250738585072014e-308;
          if (exact != 0 && std::fabs(exact) < lim) any_denormal = true;
        }
      if (any_denormal) Count("problems_with_denormal_results");
    } else if (out != ref) {
      std::size_t i = 0;
      while (out[i] == ref[i]) i++;
      Violation("denormal-result", "entry %zu differs between (%s) and (%s); %s", i / SizeOf(p.call.dst.type), ref_desc.c_str(), desc.c_str(), p.Describe().c_str());
    }
  }
  Distinct("denormal_problems", Mix(p.ShapeHash(), cfg.path));
  if (rng.chance(1, 300)) Sample("denormal data: " + p.Describe() + " " + Describe(cfg));
}

// ------------------------------------------------------------------- indep
struct StepRecord {
  std::uint64_t result = 0;
  int path = 0, enabled = 0, threads = 0, strategy = 0, tuning = 0;
  bool advisory = false;
  float spin = 0;
  int pool_threads = 0;
  bool cache_used[2] = {false, false};  // operand taken from the cache
  bool operator==(const StepRecord& o) const {
    return result == o.result && path == o.path && enabled == o.enabled && threads == o.threads && strategy == o.strategy && tuning == o.tuning &&
           advisory == o.advisory && spin == o.spin && cache_used[0] == o.cache_used[0] && cache_used[1] == o.cache_used[1];
  }
};
struct ScriptStep {
  int prob = 0;
  Config cfg;
  bool fresh = false, clear = false, set_tuning = false, set_paths = false, set_threads = false;
  int caches_local = 0, caches_last = 0;
};
struct Script {
  std::vector<std::unique_ptr<Prob>> own;
  std::vector<ScriptStep> steps;
};

struct Actor {
  std::unique_ptr<ruy::Context> ctx;
  Plan plan;
};

StepRecord Play(const ScriptStep& s, const std::vector<Prob*>& probs, Actor* a) {
  if (s.fresh || !a->ctx) a->ctx.reset(new ruy::Context);
  ruy::Context* ctx = a->ctx.get();
  if (s.clear) ctx->ClearPrepackedCache();
  if (s.set_paths) ctx->set_runtime_enabled_paths(static_cast<ruy::Path>(s.cfg.path));
  if (s.set_tuning) ctx->set_explicit_tuning(static_cast<ruy::Tuning>(s.cfg.tuning));
  if (s.set_threads) {
    ctx->set_max_num_threads(s.cfg.threads);
    ctx->set_num_threads_strategy(static_cast<ruy::NumThreadsStrategy>(s.cfg.force_max));
    ctx->mutable_thread_pool()->set_spin_milliseconds(s.cfg.spin_ms);
  }
  SetCaches(ctx, s.caches_local, s.caches_last);
  Call c = probs[s.prob]->call;
  std::vector<std::uint8_t> out(c.dst.Extent() * SizeOf(c.dst.type), 0x5a);
  c.dst.data = out.data();
  a->plan.Reset();
  InstallPlan(&a->plan);
  RunMul(c, ctx, 1);
  InstallPlan(nullptr);
  Tick();
  StepRecord r;
  r.result = HashBytes(out.data(), out.size());
  r.path = static_cast<int>(ctx->last_used_path());
  r.enabled = static_cast<int>(ctx->get_runtime_enabled_paths());
  r.threads = ctx->max_num_threads();
  r.strategy = static_cast<int>(ctx->num_threads_strategy());
  r.tuning = static_cast<int>(ctx->explicit_tuning());
  r.advisory = ctx->performance_advisory(ruy::PerformanceAdvisory::kReallocatedPerChannelBuffer);
  r.spin = ctx->thread_pool().spin_milliseconds();
  bool packed[2] = {false, false};
  for (const Event& e : a->plan.Events()) if (e.kind == kPackStart) packed[e.side] = true;
  for (int i = 0; i < 2; i++) r.cache_used[i] = !packed[i];
  return r;
}

void Indep(long index, Rng& rng) {
  const int n = rng.range(2, 4);
  std::vector<Prob> shared(2);
  for (Prob& p : shared) {
    GenOpts o;
    o.max_macs = 40000;
    o.max_dim = 160;
    o.cache_policies = rng.chance(1, 2);
    Generate(rng, o, &p);
  }
  std::vector<Script> scripts(n);
  std::vector<std::vector<Prob*>> probs(n);
  const int steps = rng.range(2, 8);
  for (int i = 0; i < n; i++) {
    for (auto& s : shared) probs[i].push_back(&s);
    for (int k = 0; k < 2; k++) {
      GenOpts o;
      o.max_macs = 40000;
      o.max_dim = 160;
      o.cache_policies = rng.chance(1, 2);
      scripts[i].own.emplace_back(new Prob);
      Generate(rng, o, scripts[i].own.back().get());
      probs[i].push_back(scripts[i].own.back().get());
    }
    auto paths = UsablePaths();
    for (int s = 0; s < steps; s++) {
      ScriptStep st;
      st.prob = rng.range(0, probs[i].size() - 1);
      st.cfg.path = rng.chance(1, 5) ? 0 : paths[rng.range(0, paths.size() - 1)];
      st.cfg.threads = rng.range(1, 4);
      st.cfg.force_max = rng.chance(3, 4);
      st.cfg.spin_ms = rng.pick({0, 1, 2});
      st.cfg.tuning = rng.range(0, 3);
      st.fresh = s && rng.chance(1, 8);
      st.clear = rng.chance(1, 8);
      st.set_paths = rng.chance(1, 2);
      st.set_tuning = rng.chance(1, 2);
      st.set_threads = s == 0 || rng.chance(1, 2);
      st.caches_local = 1 << rng.range(10, 20);
      st.caches_last = st.caches_local << rng.range(0, 4);
      scripts[i].steps.push_back(st);
    }
  }
  // Alone, one after the other.
  std::vector<std::vector<StepRecord>> alone(n, std::vector<StepRecord>(steps)), together = alone;
  SetContext("%d contexts alone", n);
  for (int i = 0; i < n; i++) {
    Actor a;
    for (int s = 0; s < steps; s++) alone[i][s] = Play(scripts[i].steps[s], probs[i], &a);
  }
  // Concurrently; in hand-over style, context i is driven by thread (i+s)%n in
  // step s and passes through a barrier between steps.
  const bool handover = rng.chance(1, 2);
  const bool lazy = rng.chance(1, 2);  // contexts created in the threads or before
  std::vector<std::unique_ptr<Actor>> actors(n);
  for (auto& a : actors) {
    a.reset(new Actor);
    if (!lazy) a->ctx.reset(new ruy::Context);
    a->plan.delay_seed = rng.chance(1, 2) ? rng.u64() | 1 : 0;
    a->plan.delay_style = rng.range(0, 5);
  }
  SetContext("%d contexts %s", n, handover ? "handed between threads" : "concurrently");
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, nullptr, n);
  std::vector<std::thread> ts;
  for (int t = 0; t < n; t++)
    ts.emplace_back([&, t] {
      for (int s = 0; s < steps; s++) {
        const int i = handover ? (t + s) % n : t;
        if (handover || s == 0) pthread_barrier_wait(&bar);
        together[i][s] = Play(scripts[i].steps[s], probs[i], actors[i].get());
      }
      if (!handover) actors[t].reset();  // destroyed while the others go on
    });
  for (auto& t : ts) t.join();
  pthread_barrier_destroy(&bar);
  actors.clear();
  std::uint64_t h = Mix(n, handover);
  for (int i = 0; i < n; i++)
    for (int s = 0; s < steps; s++) {
      Count("compared_muls");
      const StepRecord &a = alone[i][s], &b = together[i][s];
      h = Mix(h, a.result);
      if (a.cache_used[0] || a.cache_used[1]) Count("cache_hits");
      if (a.advisory) Count("advisories");
      if (!(a == b))
        Violation(a.result != b.result ? "indep-result" : "indep-state",
                  "context %d of %d, step %d (%s, %s): alone path=%x enabled=%x threads=%d tuning=%d advisory=%d cached=%d%d, together path=%x enabled=%x threads=%d tuning=%d "
                  "advisory=%d cached=%d%d, results %s",
                  i, n, s, probs[i][scripts[i].steps[s].prob]->Describe().c_str(), handover ? "handed over" : "own thread", a.path, a.enabled, a.threads, a.tuning, a.advisory,
                  a.cache_used[0], a.cache_used[1], b.path, b.enabled, b.threads, b.tuning, b.advisory, b.cache_used[0], b.cache_used[1], a.result == b.result ? "equal" : "differ");
    }
  Distinct("groups", h);
  Count(handover ? "handover_groups" : "concurrent_groups");
  if (rng.chance(1, 100)) Sample(std::to_string(n) + " contexts, " + std::to_string(steps) + " steps each, " + (handover ? "handed over" : "own threads"));
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, [](const std::string&) { StartWatchdog(); },
              [](long index, Rng& rng) {
                if (args.mode == "path") PathMode(index, rng);
                else if (args.mode == "tune") Tune(index, rng);
                else if (args.mode == "fpenv") FpEnv(index, rng);
                else if (args.mode == "denorm") Denorm(index, rng);
                else if (args.mode == "indep") Indep(index, rng);
                else HarnessError("mode %s", args.mode.c_str());
              });
}
