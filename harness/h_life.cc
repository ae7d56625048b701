// Monitors over memory and thread lifetimes.
//   mode alloc  : scratch allocator against a model (P12)
//   mode steady : contexts repeating the same work stop asking for memory (P12)
//   mode life   : destruction and cache clearing release everything (P17)
//   mode prompt : destruction while workers spin or sleep returns promptly (P17)
#include <dirent.h>
#include <malloc.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <new>

#include "ctxutil.h"
#include "problem.h"
#include "ruy/allocator.h"
#include "ruy/prepacked_cache.h"
#include "sysalloc.h"
#include "vf.h"
#include "wrap.h"

using namespace vf;

// Every C++ allocation of the process is counted.
static std::atomic<std::int64_t> g_objects{0}, g_object_bytes{0};
#ifndef VF_SANITIZED
static void* CountedNew(std::size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  g_objects.fetch_add(1, std::memory_order_relaxed);
  g_object_bytes.fetch_add(malloc_usable_size(p), std::memory_order_relaxed);
  return p;
}
static void CountedDelete(void* p) {
  if (!p) return;
  g_objects.fetch_sub(1, std::memory_order_relaxed);
  g_object_bytes.fetch_sub(malloc_usable_size(p), std::memory_order_relaxed);
  free(p);
}
void* operator new(std::size_t n) { return CountedNew(n); }
void* operator new[](std::size_t n) { return CountedNew(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return CountedNew(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return CountedNew(n); }
void operator delete(void* p) noexcept { CountedDelete(p); }
void operator delete[](void* p) noexcept { CountedDelete(p); }
void operator delete(void* p, std::size_t) noexcept { CountedDelete(p); }
void operator delete[](void* p, std::size_t) noexcept { CountedDelete(p); }
#endif

namespace {

// ------------------------------------------------------------------- alloc
struct Blk {
  std::uint8_t* p;
  std::int64_t n;
  std::uint8_t pat;
};

void AllocModel(long index, Rng& rng) {
  SetAllocMode(rng.chance(1, 2) ? AllocMode::kGuard : AllocMode::kPoison, static_cast<std::uint8_t>(rng.u64()));
  const AllocStats base = GetAllocStats();
  {
    ruy::Allocator a;
    const int rounds = rng.range(2, 10);
    std::int64_t largest_round = 0;
    std::vector<std::vector<std::pair<std::int64_t, int>>> served;  // request sequences
    std::vector<char> hints(8192);
    std::uint64_t hist = 1;
    const std::int64_t scale = rng.pick({64, 300, 5000, 100000});
    for (int r = 0; r < rounds; r++) {
      std::vector<std::pair<std::int64_t, int>> req;
      bool repeat = false;
      if (!served.empty() && rng.chance(1, 2)) {
        // repeat an earlier sequence, or one that is smaller
        req = served[rng.range(0, served.size() - 1)];
        repeat = true;
        const int how = rng.range(0, 2);
        if (how == 1) for (auto& q : req) q.first = rng.range(0, q.first);
        if (how == 2) req.resize(rng.range(0, req.size()));
      } else {
        const int n = rng.chance(1, 8) ? 0 : rng.range(1, 14);
        for (int i = 0; i < n; i++) {
          std::int64_t b = rng.chance(1, 12) ? 0 : rng.chance(1, 3) ? 64 * rng.range(1, 20) + rng.range(-1, 1) : rng.range(1, scale);
          req.emplace_back(b, rng.chance(1, 3) ? static_cast<int>(rng.range(0, 8191)) : -1);
        }
        served.push_back(req);
      }
      std::vector<Blk> live;
      const AllocStats s0 = GetAllocStats();
      std::int64_t round_bytes = 0;
      for (auto& q : req) {
        SetContext("round %d request %lld", r, (long long)q.first);
        void* p;
        if (q.second >= 0) p = a.AllocateBytesAvoidingAliasingWith(q.first, hints.data() + q.second);
        else if (q.first % 4 == 0 && rng.chance(1, 3)) p = a.Allocate<std::int32_t>(q.first / 4);
        else p = a.AllocateBytes(q.first);
        Count("allocations");
        if (q.first == 0) {
          if (p) Count("nonnull_empty_blocks");
          continue;
        }
        round_bytes += (q.first + 63) / 64 * 64 + (q.second >= 0 ? 1024 : 0);
        if (!p) { Violation("null", "null for %lld bytes", (long long)q.first); return; }
        if (reinterpret_cast<std::uintptr_t>(p) % 64) Violation("alignment", "block at %p is not 64-byte aligned (round %d, %lld bytes)", p, r, (long long)q.first);
        const void* start;
        std::int64_t size;
        std::uint8_t* b = static_cast<std::uint8_t*>(p);
        if (!LiveBlockAt(p, &start, &size) || b + q.first > static_cast<const std::uint8_t*>(start) + size) {
          Violation("not-usable", "block of %lld bytes does not lie in memory obtained from the system (round %d)", (long long)q.first, r);
          return;
        }
        for (const Blk& o : live)
          if (b < o.p + o.n && o.p < b + q.first) {
            Violation("overlap", "block of %lld bytes overlaps a live block of %lld bytes (round %d)", (long long)q.first, (long long)o.n, r);
            return;
          }
        Blk k{b, q.first, static_cast<std::uint8_t>(rng.u64())};
        memset(b, k.pat, k.n);
        live.push_back(k);
        if (q.second >= 0) Count("aliasing_hints");
      }
      for (const Blk& k : live)
        for (std::int64_t i = 0; i < k.n; i++)
          if (k.p[i] != k.pat) { Violation("overwritten", "a live block was overwritten or moved (round %d)", r); i = k.n; }
      largest_round = std::max(largest_round, round_bytes);
      const AllocStats s1 = GetAllocStats();
      if (repeat) {
        Count("repeated_rounds");
        if (s1.total_allocs != s0.total_allocs)
          Violation("not-reused", "%lld system allocations although no more than in an earlier round was requested (round %d)",
                    (long long)(s1.total_allocs - s0.total_allocs), r);
      }
      auto bound = [&](const char* when) {
        const std::int64_t held = GetAllocStats().live_bytes - base.live_bytes;
        if (held > 2 * largest_round) Violation("hoarding", "%lld bytes held %s, largest round %lld", (long long)held, when, (long long)largest_round);
      };
      bound("during a round");
      if (r == rounds - 1 && rng.chance(1, 3)) {  // destroyed with blocks in use
        Count("destroyed_in_use");
        break;
      }
      a.FreeAll();
      bound("after a reset");
      const AllocStats s2 = GetAllocStats();
      hist = Mix(hist, Mix(round_bytes, s2.total_allocs - s0.total_allocs));
      Distinct("allocator_histories", hist);
      Count("rounds");
      if (TooManyViolations()) return;
    }
  }
  if (GetAllocStats().live_blocks != base.live_blocks) Violation("leak", "%lld blocks kept", (long long)(GetAllocStats().live_blocks - base.live_blocks));
  SetAllocMode(AllocMode::kPass);
  Tick();
}

// ------------------------------------------------------------------- helpers
int PickPath(Rng& rng) {
  auto v = UsablePaths();
  return v[rng.range(0, v.size() - 1)];
}

// ------------------------------------------------------------------- steady
void Steady(long index, Rng& rng) {
  ruy::Context ctx;
  const int n = rng.range(1, 5);
  std::vector<std::unique_ptr<Prob>> probs;
  std::vector<Config> cfgs;
  const bool caching = rng.chance(1, 2);
  for (int i = 0; i < n; i++) {
    GenOpts o;
    o.max_macs = rng.chance(1, 3) ? 400000 : 30000;
    o.max_dim = 300;
    o.cache_policies = caching;
    probs.emplace_back(new Prob);
    Generate(rng, o, probs.back().get());
    Config c;
    c.path = PickPath(rng);
    c.threads = rng.range(1, 5);
    c.force_max = rng.chance(1, 2);
    cfgs.push_back(c);
  }
  if (rng.chance(1, 2)) RandomCaches(rng, &ctx);
  std::int64_t before = 0, held = 0;
  for (int pass = 0; pass < 4; pass++) {
    std::vector<int> order(n);
    for (int i = 0; i < n; i++) order[i] = i;
    if (pass) for (int i = n - 1; i > 0; i--) std::swap(order[i], order[rng.range(0, i)]);
    if (pass == 1) { before = GetAllocStats().total_allocs; held = GetAllocStats().live_bytes; }
    for (int i : order) {
      Apply(cfgs[i], &ctx);
      SetContext("%s %s", probs[i]->Describe().c_str(), Describe(cfgs[i]).c_str());
      RunMul(probs[i]->call, &ctx, 1);
      Count("muls");
      Tick();
    }
    if (pass >= 1) {
      if (GetAllocStats().total_allocs != before) {
        Violation("no-steady-state", "%lld new system allocations when repeating the same %d multiplications (pass %d); last %s", (long long)(GetAllocStats().total_allocs - before), n,
                  pass, probs[0]->Describe().c_str());
        break;
      }
      if (GetAllocStats().live_bytes != held) Violation("steady-size", "memory held changed");
      Count("repeated_passes");
    }
  }
  std::uint64_t h = n;
  for (auto& p : probs) h = Mix(h, p->ShapeHash());
  Distinct("workloads", h);
  if (rng.chance(1, 60)) Sample(std::to_string(n) + " multiplications, " + std::to_string(held) + " bytes held");
}

// ------------------------------------------------------------------- life
int TaskCount() {
  DIR* d = opendir("/proc/self/task");
  int n = 0;
  while (dirent* e = readdir(d)) if (e->d_name[0] != '.') n++;
  closedir(d);
  return n;
}
double Now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

struct LifeStep {
  Prob p;
  Config c;
  int clear, sleep_us;
};

void Life(long index, Rng& rng) {
  std::vector<std::unique_ptr<LifeStep>> steps;
  const int n = rng.range(0, 5);
  std::uint64_t h = n;
  for (int i = 0; i < n; i++) {
    steps.emplace_back(new LifeStep);
    LifeStep& s = *steps.back();
    GenOpts o;
    o.max_macs = rng.chance(1, 3) ? 300000 : 20000;
    o.max_dim = 250;
    o.cache_policies = rng.chance(2, 3);
    Generate(rng, o, &s.p);
    s.c.path = PickPath(rng);
    s.c.threads = rng.range(1, 7);
    s.c.force_max = rng.chance(2, 3);
    s.c.spin_ms = rng.pick({-1, 0, 0, 1, 3, 20});
    s.clear = rng.chance(1, 3);
    s.sleep_us = rng.pick({0, 0, 0, 50, 500, 1900, 2100, 4000});
    h = Mix(h, Mix(s.p.ShapeHash(), Mix(s.c.threads, Mix(s.c.spin_ms + 1, s.sleep_us))));
  }
  const int end_sleep = rng.pick({0, 0, 0, 20, 200, 1000, 1990, 2010, 3000});
  const bool no_use = n == 0;
  static bool warm = false;
  static int base_threads = 0;
  if (!warm) {  // lazy process-wide initialisation
    ruy::Context c;
    Prob p;
    GenOpts o;
    o.combos = {0};
    Generate(rng, o, &p);
    c.set_max_num_threads(4);
    RunMul(p.call, &c, 1);
    warm = true;
  }
  if (!base_threads) { usleep(200000); base_threads = TaskCount(); }
  SetContext("history of %d multiplications", n);
  const AllocStats a0 = GetAllocStats();
  const std::int64_t o0 = g_objects.load(), b0 = g_object_bytes.load();
  std::int64_t cleared_wrong = 0, cleared = 0, peak_threads = 0, cached_bytes = 0;
  double took;
  {
    std::aligned_storage<sizeof(ruy::Context), alignof(ruy::Context)>::type mem;
    ruy::Context* ctx = new (&mem) ruy::Context;
    for (auto& s : steps) {
      Apply(s->c, ctx);
      RunMul(s->p.call, ctx, 1);
      if (s->clear) {
        const std::int64_t have = ruy::get_ctx(ctx)->GetPrepackedCache()->BuffersBytes();
        const std::int64_t live = GetAllocStats().live_bytes;
        ctx->ClearPrepackedCache();
        if (live - GetAllocStats().live_bytes != have) cleared_wrong++;
        if (ruy::get_ctx(ctx)->GetPrepackedCache()->BuffersBytes() != 0) cleared_wrong++;
        cached_bytes += have;
        cleared++;
      }
      if (s->sleep_us) usleep(s->sleep_us);
    }
    peak_threads = TaskCount() - base_threads;
    if (end_sleep) usleep(end_sleep);
    const double t0 = Now();
    ctx->~Context();
    took = Now() - t0;
  }
  const AllocStats a1 = GetAllocStats();
  const std::int64_t o1 = g_objects.load(), b1 = g_object_bytes.load();
  if (a1.live_blocks != a0.live_blocks || a1.live_bytes != a0.live_bytes)
    Violation("memory-kept", "%lld blocks with %lld bytes not released by destruction", (long long)(a1.live_blocks - a0.live_blocks), (long long)(a1.live_bytes - a0.live_bytes));
  if (o1 != o0) Violation("objects-kept", "%lld objects with %lld bytes not released by destruction", (long long)(o1 - o0), (long long)(b1 - b0));
  if (cleared_wrong) Violation("clear-kept", "clearing the cache did not release all cached memory");
  int left = 0;
  for (int i = 0; i < 400; i++) {
    left = TaskCount() - base_threads;
    if (left <= 0) break;
    usleep(5000);
  }
  if (left > 0) Violation("threads-kept", "%d threads still running after destruction", left);
  Count("contexts");
  Count("workers_ended", peak_threads);
  Count("cache_clears", cleared);
  Count("cached_bytes_cleared", cached_bytes);
  Count("blocks_released", a1.total_frees - a0.total_frees);
  Max("destruction_microseconds", static_cast<std::uint64_t>(took * 1e6));
  Distinct("histories", h);
  if (no_use) Count("unused_contexts");
  if (rng.chance(1, 100)) Sample(std::to_string(n) + " multiplications, " + std::to_string(peak_threads) + " workers ended");
  Tick();
}

// ------------------------------------------------------------------- prompt
void Prompt(long index, Rng& rng) {
  // Destruction must not wait for workers to finish spinning.
  const int threads = rng.range(2, 6);
  const int spin_ms = rng.pick({4000, 6000});
  double best = 1e9;
  GenOpts o;
  o.combos = {0};
  Prob p;
  Generate(rng, o, &p);
  const int sleep_us = rng.pick({0, 100, 2000, 30000});
  for (int rep = 0; rep < 3 && best > 1.5; rep++) {
    ruy::Context* ctx = new ruy::Context;
    Config c;
    c.threads = threads;
    c.force_max = true;
    c.spin_ms = spin_ms;
    Apply(c, ctx);
    RunMul(p.call, ctx, 1);
    if (sleep_us) usleep(sleep_us);
    const double t0 = Now();
    delete ctx;
    best = std::min(best, Now() - t0);
    Tick();
  }
  if (best > 1.5) Violation("slow-destruction", "destruction took %.1f s (three times) with workers spinning for %d ms", best, spin_ms);
  Count("prompt_destructions");
  Max("destruction_microseconds", static_cast<std::uint64_t>(best * 1e6));
  Distinct("prompt_configs", Mix(Mix(threads, spin_ms), sleep_us));
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, [](const std::string&) { StartWatchdog(); },
              [](long index, Rng& rng) {
                if (args.mode == "alloc") AllocModel(index, rng);
                else if (args.mode == "steady") Steady(index, rng);
                else if (args.mode == "life") Life(index, rng);
                else if (args.mode == "prompt") Prompt(index, rng);
                else HarnessError("mode %s", args.mode.c_str());
              });
}
