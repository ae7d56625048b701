// Workload for the race detector (P07).
//   mode race : sequences of multi-threaded multiplications, pool growth,
//               setting changes, cache use and destruction, on one or several
//               contexts at the same time
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

#include <thread>

#include "ctxutil.h"
#include "problem.h"
#include "vf.h"
#include "wrap.h"

using namespace vf;

namespace {

std::atomic<std::uint64_t> g_muls{0}, g_multi{0}, g_events{0};

struct Obs {
  std::vector<std::uint64_t> hashes;
  int max_threads = 0;
};

void Drive(std::uint64_t seed, int steps, const std::vector<Prob>* shared, Obs* obs) {
  Rng rng(seed);
  Plan plan;
  plan.shadow = true;
  std::unique_ptr<ruy::Context> ctx(new ruy::Context);
  std::vector<std::unique_ptr<Prob>> keep;
  for (int st = 0; st < steps; st++) {
    if (rng.chance(1, 8)) ctx.reset(new ruy::Context);  // destruction and a new pool
    if (rng.chance(1, 10)) ctx->ClearPrepackedCache();
    Prob* p;
    std::vector<std::uint8_t> out;
    Call c;
    if (!shared->empty() && rng.chance(1, 2)) {
      c = (*shared)[rng.range(0, shared->size() - 1)].call;  // operands shared between contexts
      out.resize(c.dst.Extent() * SizeOf(c.dst.type));
      c.dst.data = out.data();
    } else {
      GenOpts o;
      o.max_macs = rng.chance(1, 4) ? 120000 : 20000;
      o.max_dim = 200;
      o.cache_policies = rng.chance(1, 2);
      keep.emplace_back(new Prob);
      p = keep.back().get();
      Generate(rng, o, p);
      c = p->call;
    }
    Config cfg;
    auto paths = UsablePaths();
    cfg.path = paths[rng.range(0, paths.size() - 1)];
    cfg.threads = rng.range(1, 6);
    cfg.force_max = rng.chance(4, 5);
    cfg.spin_ms = rng.pick({-1, 0, 0, 1});
    cfg.tuning = rng.range(0, 3);
    Apply(cfg, ctx.get());
    if (rng.chance(2, 3)) RandomCaches(rng, ctx.get());
    plan.delay_seed = rng.chance(2, 3) ? rng.u64() | 1 : 0;
    plan.delay_style = rng.range(0, 5);
    if (rng.chance(1, 150)) plan.Stall(rng.u64(), rng.range(50, 300));
    const int times = rng.range(1, 3);
    for (int t = 0; t < times; t++) {
      plan.Reset();
      InstallPlan(&plan);
      RunMul(c, ctx.get(), 1);
      InstallPlan(nullptr);
      Tick();
      int threads = 0;
      const std::uint64_t h = InterleavingHash(plan, &threads);
      g_muls.fetch_add(1, std::memory_order_relaxed);
      g_events.fetch_add(plan.Events().size(), std::memory_order_relaxed);
      if (threads > 1) { g_multi.fetch_add(1, std::memory_order_relaxed); obs->hashes.push_back(h); }
      obs->max_threads = std::max(obs->max_threads, threads);
      // Written by the workers, read here without further synchronisation.
      volatile std::uint8_t sink = 0;
      const std::uint8_t* d = static_cast<const std::uint8_t*>(c.dst.data);
      for (std::int64_t i = 0; i < c.dst.Extent() * SizeOf(c.dst.type); i += 8) sink = sink + d[i];
    }
    if (rng.chance(1, 6)) usleep(rng.range(0, 3000));
  }
}

void Race(long index, Rng& rng) {
  const int drivers = rng.chance(1, 2) ? 1 : rng.range(2, 3);
  std::vector<Prob> shared(drivers > 1 ? 2 : 0);
  for (Prob& p : shared) {
    GenOpts o;
    o.max_macs = 60000;
    o.max_dim = 150;
    o.cache_policies = rng.chance(1, 2);
    Generate(rng, o, &p);
  }
  const int steps = rng.range(2, 8);
  const std::uint64_t m0 = g_muls.load(), t0 = g_multi.load(), e0 = g_events.load();
  std::vector<Obs> obs(drivers);
  SetContext("%d drivers, %d steps", drivers, steps);
  if (drivers == 1) {
    Drive(rng.u64(), steps, &shared, &obs[0]);
  } else {
    std::vector<std::thread> ts;
    for (int i = 0; i < drivers; i++) {
      const std::uint64_t s = rng.u64();
      ts.emplace_back([&, i, s] { Drive(s, steps, &shared, &obs[i]); });
    }
    for (auto& t : ts) t.join();
    Count("concurrent_context_groups");
  }
  Count("muls", g_muls.load() - m0);
  Count("multi_thread_muls", g_multi.load() - t0);
  Count("pack_and_compute_events", g_events.load() - e0);
  for (auto& o : obs) {
    for (auto h : o.hashes) Distinct("interleavings", h);
    Max("threads_in_one_multiplication", o.max_threads);
  }
  if (rng.chance(1, 30)) Sample(std::to_string(drivers) + " contexts, " + std::to_string(steps) + " steps each, " + std::to_string(g_events.load() - e0) + " events");
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, [](const std::string&) { StartWatchdog(20, 300); },
              [](long index, Rng& rng) {
                if (args.mode == "race") Race(index, rng);
                else HarnessError("mode %s", args.mode.c_str());
              });
}
