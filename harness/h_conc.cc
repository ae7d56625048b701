// Monitors over multi-threaded multiplications.
//   mode disc   : event log of pack/compute steps checked against the tiling
//                 and packing discipline (P09)
//   mode bmap   : work-splitting plans checked to be partitions (P09)
//   mode repro  : results compared bit for bit across schedules, thread
//                 counts, histories, policies (P06)
//   mode limit  : threads used never exceed the maximum (P21)
//   mode idle   : idle workers do not consume CPU (P21)
#include <dirent.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <set>

#include "ctxutil.h"
#include "problem.h"
#include "ruy/block_map.h"
#include "vf.h"
#include "wrap.h"

using namespace vf;

namespace {

std::vector<std::unique_ptr<ruy::Context>> g_pool;

ruy::Context* PickContext(Rng& rng, std::unique_ptr<ruy::Context>* fresh) {
  if (rng.chance(1, 6)) {
    fresh->reset(new ruy::Context);
    return fresh->get();
  }
  if (g_pool.empty()) for (int i = 0; i < 2; i++) g_pool.emplace_back(new ruy::Context);
  return g_pool[rng.range(0, 1)].get();
}

int PickPath(Rng& rng) {
  auto v = UsablePaths();
  // favour SIMD paths
  if (rng.chance(1, 2)) return v[rng.range(0, v.size() - 1)];
  return v[v.size() - 1 - rng.range(0, std::min<int>(2, v.size() - 1))];
}

void DoMul(const Prob& p, ruy::Context* ctx, Plan* plan, int compiled = 1) {
  plan->Reset();
  InstallPlan(plan);
  RunMul(p.call, ctx, compiled);
  InstallPlan(nullptr);
  Tick();
  if (!plan->intercepted) HarnessError("the multiplication was not intercepted");
}

// ------------------------------------------------------------------- disc
void Disc(long index, Rng& rng) {
  GenOpts o;
  o.max_macs = rng.chance(1, 4) ? 400000 : 60000;
  o.max_dim = 260;
  o.cache_policies = rng.chance(1, 3);
  Prob p;
  Generate(rng, o, &p);
  static Plan plan;
  for (int rep = 0; rep < 3; rep++) {
    std::unique_ptr<ruy::Context> fresh;
    ruy::Context* ctx = PickContext(rng, &fresh);
    Config cfg;
    cfg.path = PickPath(rng);
    cfg.threads = rng.chance(1, 40) ? rng.range(17, 72) : rng.range(1, 9);
    cfg.force_max = rng.chance(5, 6);
    cfg.spin_ms = rng.pick({0, 0, 1, 2});
    Apply(cfg, ctx);
    RandomCaches(rng, ctx);
    plan.delay_seed = rng.chance(3, 4) ? rng.u64() | 1 : 0;
    plan.delay_style = rng.range(0, 5);
    const bool stall = cfg.threads > 1 && rng.chance(1, 100);
    if (stall) plan.Stall(rng.u64(), rng.chance(1, 8) ? 1000 : rng.range(100, 400));
    SetContext("%s %s", p.Describe().c_str(), Describe(cfg).c_str());
    DoMul(p, ctx, &plan);
    if (stall) { Count("long_stalls", plan.stalled.exchange(0)); }
    ctx->ClearPrepackedCache();
    if (plan.overflowed()) { Count("log_overflow"); continue; }
    std::string err = CheckDiscipline(plan);
    if (!err.empty()) Violation("discipline", "%s; %s; %s", err.c_str(), p.Describe().c_str(), Describe(cfg).c_str());
    int threads = 0;
    std::uint64_t h = InterleavingHash(plan, &threads);
    Count("muls");
    std::size_t n = plan.Events().size();
    Count("events", n);
    Max("threads_in_one_multiplication", threads);
    Max("events_in_one_multiplication", n);
    if (threads > 1) { Distinct("interleavings", h); Count("multi_thread_muls"); }
    else Distinct("single_thread_plans", h);
    if (threads > 2 && rng.chance(1, 60)) Sample(p.Describe() + " " + Describe(cfg) + " events=" + std::to_string(n) + " threads=" + std::to_string(threads));
  }
}

// ------------------------------------------------------------------- bmap
void BMap(long index, Rng& rng) {
  const int kr = 1 << rng.range(0, 4), kc = 1 << rng.range(0, 4);
  auto dim = [&](int k) {
    int v = rng.chance(1, 3) ? rng.range(1, 40) : rng.chance(1, 2) ? rng.range(1, 400) : rng.range(1, 5000);
    return (v + k - 1) / k * k;
  };
  int rows = dim(kr), cols = dim(kc);
  if (rng.chance(1, 4)) rows = kr; else if (rng.chance(1, 4)) cols = kc;
  const int depth = rng.chance(1, 2) ? rng.range(1, 300) : rng.range(1, 100000);
  ruy::CpuCacheParams cp;
  cp.local_cache_size = 1 << rng.range(8, 24);
  cp.last_level_cache_size = cp.local_cache_size << rng.range(0, 6);
  const int ls = rng.pick({1, 2, 4, 8}), rs = rng.pick({1, 2, 4, 8});
  const int threads = rng.chance(1, 3) ? 1 : rng.range(1, 64);
  ruy::BlockMap bm;
  SetContext("plan %dx%dx%d kernel %dx%d threads %d", rows, depth, cols, kr, kc, threads);
  ruy::MakeBlockMap(rows, cols, depth, kr, kc, ls, rs, threads, cp, &bm);
  const int n = ruy::NumBlocks(bm);
  if (bm.thread_count < 1 || bm.thread_count > threads)
    Violation("plan-threads", "plan uses %d threads of %d", bm.thread_count, threads);
  int per_side[2] = {ruy::NumBlocksPerSide(ruy::Side::kLhs, bm), ruy::NumBlocksPerSide(ruy::Side::kRhs, bm)};
  if (n > 1 << 20) { Count("skipped_large"); return; }
  if (std::int64_t(per_side[0]) * per_side[1] != n)
    Violation("plan-count", "%d blocks but %d x %d", n, per_side[0], per_side[1]);
  std::vector<std::uint8_t> seen(n, 0);
  std::set<std::pair<int, int>> ranges[2];
  for (int i = 0; i < n; i++) {
    ruy::SidePair<int> b, s, e;
    ruy::GetBlockByIndex(bm, i, &b);
    const int bl = b[ruy::Side::kLhs], br = b[ruy::Side::kRhs];
    if (bl < 0 || br < 0 || bl >= per_side[0] || br >= per_side[1]) {
      Violation("plan-range", "block %d decodes to (%d,%d) of %dx%d; %dx%dx%d kernel %dx%d threads %d order %d", i, bl, br, per_side[0],
                per_side[1], rows, depth, cols, kr, kc, threads, static_cast<int>(bm.traversal_order));
      return;
    }
    if (++seen[std::size_t(br) * per_side[0] + bl] > 1) {
      Violation("plan-duplicate", "block (%d,%d) appears twice; %dx%dx%d kernel %dx%d threads %d order %d", bl, br, rows, depth, cols, kr, kc,
                threads, static_cast<int>(bm.traversal_order));
      return;
    }
    ruy::GetBlockMatrixCoords(bm, b, &s, &e);
    for (int side = 0; side < 2; side++) {
      ruy::Side sd = static_cast<ruy::Side>(side);
      int s2, e2;
      ruy::GetBlockMatrixCoords(sd, bm, b[sd], &s2, &e2);
      if (s2 != s[sd] || e2 != e[sd]) Violation("plan-coords", "inconsistent coordinates of block %d", i);
      if (s[sd] >= e[sd]) Violation("plan-empty", "empty block %d side %d", i, side);
      ranges[side].insert({s[sd], e[sd]});
    }
    if (TooManyViolations()) return;
  }
  for (int side = 0; side < 2; side++) {
    int at = 0;
    bool ok = static_cast<int>(ranges[side].size()) == per_side[side];
    for (auto& r : ranges[side]) { if (r.first != at) ok = false; at = r.second; }
    if (at != (side ? cols : rows)) ok = false;
    if (!ok) Violation("plan-partition", "side %d is not partitioned; %dx%dx%d kernel %dx%d threads %d", side, rows, depth, cols, kr, kc, threads);
  }
  Count("plans");
  Count("plan_blocks", n);
  Count("plans_order_" + std::to_string(static_cast<int>(bm.traversal_order)));
  Distinct("plan_shapes", Mix(Mix(Mix(rows, cols), Mix(kr, kc)), Mix(n, static_cast<int>(bm.traversal_order))));
  if (index % 64 == 0) Tick();
}

// ------------------------------------------------------------------- repro
void Dirty(Rng& rng, ruy::Context* ctx) {
  // arbitrary prior use of the context
  const int n = rng.range(0, 3);
  for (int i = 0; i < n; i++) {
    GenOpts o;
    o.max_macs = 20000;
    o.max_dim = 100;
    o.cache_policies = rng.chance(1, 2);
    Prob q;
    Generate(rng, o, &q);
    Config c;
    c.path = PickPath(rng);
    c.threads = rng.range(1, 8);
    c.force_max = rng.chance(1, 2);
    Apply(c, ctx);
    RunMul(q.call, ctx, 1);
    // q's buffers die here: entries cached for them must go too
    if (o.cache_policies) ctx->ClearPrepackedCache();
    Count("history_muls");
  }
}

void Repro(long index, Rng& rng) {
  GenOpts o;
  o.max_macs = rng.chance(1, 5) ? 1500000 : 200000;
  o.max_dim = 400;
  if (rng.chance(1, 2)) o.combos = {0};  // float is where order of summation matters
  Prob p;
  Generate(rng, o, &p);
  const int path = PickPath(rng);
  std::vector<std::uint8_t> base;
  {
    ruy::Context ctx;
    Config c;
    c.path = path;
    Apply(c, &ctx);
    FillDst(rng, &p);
    RunMul(p.call, &ctx, 1);
    base = Entries(p.call.dst);
    Tick();
  }
  static Plan plan;
  std::unique_ptr<ruy::Context> own(new ruy::Context);
  if (index % 499 == 11) {  // a context that has been used very often before
    GenOpts small;
    small.max_macs = 40;
    small.max_dim = 6;
    Prob q;
    Generate(rng, small, &q);
    const int uses = rng.range(66000, 72000);
    SetContext("%d uses in a row", uses);
    for (int i = 0; i < uses; i++) {
      RunMul(q.call, own.get(), 1);
      if (i % 512 == 0) Tick();
    }
    Count("long_runs_of_uses");
  }
  for (int rep = 0; rep < 6; rep++) {
    std::unique_ptr<ruy::Context> fresh;
    ruy::Context* ctx = rng.chance(1, 2) ? own.get() : PickContext(rng, &fresh);
    if (rng.chance(1, 3)) Dirty(rng, ctx);
    Config c;
    c.path = path;
    c.threads = rng.chance(1, 40) ? rng.range(17, 72) : rng.range(1, 9);
    c.force_max = rng.chance(3, 4);
    c.tuning = rng.range(0, 3);
    c.spin_ms = rng.pick({-1, 0, 0, 1, 5});
    Apply(c, ctx);
    const int pl = p.call.lhs.cache_policy, pr = p.call.rhs.cache_policy;
    if (rng.chance(1, 3)) { p.call.lhs.cache_policy = rng.range(0, 3); p.call.rhs.cache_policy = rng.range(0, 3); }
    if (rng.chance(1, 2)) RandomCaches(rng, ctx);
    plan.delay_seed = rng.chance(3, 4) ? rng.u64() | 1 : 0;
    plan.delay_style = rng.range(0, 5);
    const bool stall = c.threads > 1 && rng.chance(1, 200);
    if (stall) plan.Stall(rng.u64(), rng.range(100, 400));
    const int times = rng.chance(1, 4) ? 2 : 1;
    for (int t = 0; t < times; t++) {
      FillDst(rng, &p);
      SetContext("%s %s", p.Describe().c_str(), Describe(c).c_str());
      DoMul(p, ctx, &plan);
      std::vector<std::uint8_t> got = Entries(p.call.dst);
      int threads = 0;
      std::uint64_t h = InterleavingHash(plan, &threads);
      Distinct("executions", Mix(h, p.ShapeHash()));
      Count("compared_muls");
      Count("compared_bytes", got.size());
      if (threads > 1) Count("multi_thread_muls");
      if (got != base) {
        std::size_t i = 0;
        while (got[i] == base[i]) i++;
        i /= SizeOf(p.call.dst.type);
        Violation("not-reproducible", "entry (%d,%d) differs from the single-threaded result; %s; %s repetition %d", int(i / p.call.dst.cols),
                  int(i % p.call.dst.cols), p.Describe().c_str(), Describe(c).c_str(), t);
      }
    }
    if (stall) Count("long_stalls", plan.stalled.exchange(0));
    ctx->ClearPrepackedCache();  // p's buffers do not outlive this case
    p.call.lhs.cache_policy = pl;
    p.call.rhs.cache_policy = pr;
  }
  Distinct("problems", p.ShapeHash());
  if (rng.chance(1, 80)) Sample(p.Describe() + " path " + PathName(path));
}

// ------------------------------------------------------------------- limit
int TaskCount() {
  DIR* d = opendir("/proc/self/task");
  int n = 0;
  while (dirent* e = readdir(d)) if (e->d_name[0] != '.') n++;
  closedir(d);
  return n;
}

void Limit(long index, Rng& rng) {
  // A thread that has exited may still be listed for a moment: wait for the
  // count to settle before taking the base line.
  static int quiet = 0;
  for (int i = 0; i < 200; i++) {
    int n = TaskCount();
    if (quiet == 0 || n <= quiet) { quiet = n; break; }
    usleep(5000);
  }
  const int base = TaskCount();
  {
    ruy::Context ctx;
    int largest = 1;
    static Plan plan;
    const int steps = rng.range(1, 8);
    std::string hist;
    for (int i = 0; i < steps; i++) {
      GenOpts o;
      o.max_macs = rng.chance(1, 3) ? 1500000 : rng.chance(1, 2) ? 200000 : 3000;
      o.max_dim = 400;
      Prob p;
      Generate(rng, o, &p);
      Config c;
      c.path = PickPath(rng);
      c.threads = rng.chance(1, 4) ? 1 : rng.chance(1, 40) ? rng.range(17, 72) : rng.range(1, 12);
      c.force_max = rng.chance(1, 2);
      c.spin_ms = rng.pick({-1, 0, 1});
      Apply(c, &ctx);
      if (rng.chance(1, 3)) RandomCaches(rng, &ctx);
      largest = std::max(largest, c.threads);
      hist += " " + std::to_string(c.threads) + (c.force_max ? "!" : "");
      plan.delay_seed = rng.chance(1, 2) ? rng.u64() | 1 : 0;
      plan.delay_style = rng.range(0, 5);
      SetContext("%s %s", p.Describe().c_str(), Describe(c).c_str());
      DoMul(p, &ctx, &plan);
      std::set<int> used;
      for (const Event& e : plan.Events()) used.insert(e.thread);
      used.insert(ThreadNumber());
      Count("muls");
      if (static_cast<int>(used.size()) > c.threads)
        Violation("thread-limit", "%d threads executed steps of one multiplication with a maximum of %d; %s", int(used.size()), c.threads, p.Describe().c_str());
      const int workers = TaskCount() - base;
      if (workers > largest - 1)
        Violation("pool-size", "%d worker threads exist although the largest maximum used so far is %d; history%s", workers, largest, hist.c_str());
      if (c.threads == 1 && used.size() != 1) Violation("single-thread", "other threads took part although the maximum is one");
      Distinct("thread_histories", Mix(HashBytes(hist.data(), hist.size()), used.size()));
      Max("threads_used", used.size());
      Count("threads_used_" + std::to_string(used.size()));
    }
    if (rng.chance(1, 20)) Sample("maxima" + hist);
  }
}

// ------------------------------------------------------------------- idle
double ThreadCpu(long tid) {
  // CPU time of another thread of this process, from its scheduler statistics
  char path[64], buf[128];
  snprintf(path, sizeof path, "/proc/self/task/%ld/schedstat", tid);
  FILE* f = fopen(path, "r");
  if (!f) return -1;
  unsigned long long ns = 0;
  int k = fscanf(f, "%llu", &ns);
  fclose(f);
  (void)buf;
  return k == 1 ? ns * 1e-9 : -1;
}
std::set<long> Tids() {
  std::set<long> s;
  DIR* d = opendir("/proc/self/task");
  while (dirent* e = readdir(d)) if (e->d_name[0] != '.') s.insert(atol(e->d_name));
  closedir(d);
  return s;
}

// Times a thread went to sleep by itself.
long ThreadSwitches(long tid) {
  char path[64], line[256];
  snprintf(path, sizeof path, "/proc/self/task/%ld/status", tid);
  FILE* f = fopen(path, "r");
  if (!f) HarnessError("cannot read %s", path);
  long n = -1;
  while (fgets(line, sizeof line, f))
    if (!strncmp(line, "voluntary_ctxt_switches:", 24)) n = atol(line + 24);
  fclose(f);
  if (n < 0) HarnessError("no switch count in %s", path);
  return n;
}

void Idle(long index, Rng& rng) {
  std::set<long> before = Tids();
  ruy::Context ctx;
  Config c;
  c.path = PickPath(rng);
  c.threads = rng.range(2, 8);
  c.force_max = true;
  c.spin_ms = rng.pick({-1, 0, 1, 2, 5});
  Apply(c, &ctx);
  Prob p;
  GenOpts o;
  o.force_rows = rng.range(64, 200);
  o.force_cols = rng.range(64, 200);
  o.force_depth = rng.range(16, 100);
  Generate(rng, o, &p);
  const int muls = rng.range(1, 4);
  for (int i = 0; i < muls; i++) {
    RunMul(p.call, &ctx, 1);
    if (rng.chance(1, 3)) { c.threads = rng.range(2, 8); ctx.set_max_num_threads(c.threads); }
  }
  Tick();
  std::vector<long> workers;
  for (long t : Tids()) if (!before.count(t)) workers.push_back(t);
  Count("idle_workers", workers.size());
  bool bad = true;
  double worst = 0;
  long most = 0;
  for (int attempt = 0; attempt < 4 && bad; attempt++) {
    usleep(60000);  // well beyond every spin time used
    std::vector<double> a;
    std::vector<long> sw;
    for (long t : workers) { a.push_back(ThreadCpu(t)); sw.push_back(ThreadSwitches(t)); }
    usleep(100000);
    bad = false;
    worst = 0;
    most = 0;
    for (std::size_t i = 0; i < workers.size(); i++) {
      double d = ThreadCpu(workers[i]) - a[i];
      worst = std::max(worst, d);
      // Each wake-up costs CPU time, even when too short for the clock.
      const long w = ThreadSwitches(workers[i]) - sw[i];
      most = std::max(most, w);
      if (d > 0.001 || w > 2) bad = true;
    }
    Tick();
  }
  if (bad) Violation("idle-busy", "an idle worker consumed %.1f ms of CPU in %ld wake-ups, in each of four 100 ms windows; spin %d ms, %d workers", worst * 1e3, most, c.spin_ms, int(workers.size()));
  Count("idle_periods");
  Distinct("idle_configs", Mix(c.threads, Mix(c.spin_ms + 1, muls)));
  // and they wake up again
  RunMul(p.call, &ctx, 1);
  Tick();
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, [](const std::string&) { ThreadNumber(); StartWatchdog(); },
              [](long index, Rng& rng) {
                if (args.mode == "disc") Disc(index, rng);
                else if (args.mode == "bmap") BMap(index, rng);
                else if (args.mode == "repro") Repro(index, rng);
                else if (args.mode == "limit") Limit(index, rng);
                else if (args.mode == "idle") Idle(index, rng);
                else HarnessError("mode %s", args.mode.c_str());
              },
              [] { g_pool.clear(); });
}
