// Monitor over the thread pool itself (P08).
//   mode pool : histories of Execute calls; every task records how often and
//               where it ran, its effect is read without synchronisation
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

#include <memory>
#include <set>

#include "ruy/thread_pool.h"
#include "vf.h"
#include "wrap.h"
#ifdef VF_DELAYS
#include "delay.h"
#endif

using namespace vf;

namespace {

struct Record {
  std::atomic<int> started{0}, finished{0};
  int thread = -1;               // plain: visible through the pool's ordering only
  std::uint64_t effect = 0;      // plain
  std::uint64_t input = 0;       // plain, written by the caller before
};

template <int kPad>
struct PoolTask final : ruy::Task {
  Record* rec = nullptr;
  int style = 0;
  std::int64_t ns = 0;
  char pad[kPad];
  void Run() override {
    rec->started.fetch_add(1, std::memory_order_relaxed);
    rec->thread = ThreadNumber();
    switch (style) {
      case 1: SpinFor(ns); break;
      case 2: usleep(ns / 1000); break;
      case 3: sched_yield(); break;
      default: break;
    }
    rec->effect = Mix(rec->input, 99);
    rec->finished.fetch_add(1, std::memory_order_relaxed);
  }
};

void Expect(const std::vector<std::unique_ptr<Record>>& all, std::size_t from, int n, const char* when) {
  for (int i = 0; i < n; i++) {
    const Record& r = *all[from + i];
    if (r.started.load(std::memory_order_relaxed) != 1 || r.finished.load(std::memory_order_relaxed) != 1)
      Violation("not-once", "task %d of %d was started %d and finished %d times (%s)", i, n, r.started.load(), r.finished.load(), when);
  }
}

template <int kPad>
void ExecuteTasks(ruy::ThreadPool* pool, int n, std::vector<std::unique_ptr<Record>>* all, Rng& rng, std::uint64_t* hist) {
  std::unique_ptr<PoolTask<kPad>[]> tasks(new PoolTask<kPad>[n]);
  const std::size_t from = all->size();
  const int plan = rng.range(0, 4);
  const int slow = rng.range(0, n - 1);
  for (int i = 0; i < n; i++) {
    all->emplace_back(new Record);
    Record* r = all->back().get();
    r->input = rng.u64();
    tasks[i].rec = r;
    switch (plan) {
      case 0: break;                                                             // immediate
      case 1: tasks[i].style = 1; tasks[i].ns = rng.range(0, 40000); break;      // short, random
      case 2: if (i == slow) { tasks[i].style = 1; tasks[i].ns = 150000; } break;  // one slow
      case 3: if (i == 0) { tasks[i].style = 2; tasks[i].ns = rng.range(100, 3000) * 1000; } break;  // caller slow
      default: if (i != 0 && i == slow) { tasks[i].style = 2; tasks[i].ns = rng.range(100, 3000) * 1000; } break;  // caller waits
    }
  }
  if (rng.chance(1, 3000)) {  // much longer than anything that spins
    tasks[slow].style = 2;
    tasks[slow].ns = rng.range(300, 2500) * 1000000LL;
    Count("long_tasks");
  }
  *hist = Mix(*hist, n * 8 + plan);
  pool->Execute(n, tasks.get());
  Tick();
  Count("executions");
  Count("tasks", n);
  std::set<int> threads;
  for (int i = 0; i < n; i++) {
    const Record& r = *(*all)[from + i];
    if (r.effect != Mix(r.input, 99)) Violation("effect-lost", "effect of task %d of %d not visible after the call", i, n);
    threads.insert(r.thread);
    if ((r.thread == ThreadNumber()) != (i == 0)) Violation("wrong-thread", "task %d of %d ran on %s", i, n, i ? "the calling thread" : "a worker");
  }
  Expect(*all, from, n, "when the call returned");
  if (static_cast<int>(threads.size()) != n) Violation("thread-shared", "%d tasks ran on %d threads", n, int(threads.size()));
  Max("tasks_in_one_call", n);
}

void Pool(long index, Rng& rng) {
  std::vector<std::unique_ptr<Record>> all;
#ifdef VF_DELAYS
  const std::uint64_t w0 = sync_waits.load(), d0 = sync_delays.load(), s0 = sync_spurious.load();
  sync_delay_seed = rng.chance(4, 5) ? rng.u64() | 1 : 0;
  sync_delay_style = rng.range(0, 6);
#endif
  std::uint64_t hist = 3;
  {
    ruy::ThreadPool pool;
    const bool large = rng.chance(1, 40);
    const int steps = large ? rng.range(1, 5) : rng.range(1, 25);
    const int max_n = large ? rng.range(17, 140) : rng.pick({2, 3, 4, 8, 12});
    if (large) Count("large_pools");
    float spin = rng.pick({0.0f, 0.0f, 0.0f, 0.05f, 0.5f, 2.0f});
    pool.set_spin_milliseconds(spin);
    if (pool.spin_milliseconds() < spin * 0.99f || pool.spin_milliseconds() > spin * 1.01f) Violation("spin-setting", "spin of %f ms reads back as %f", spin, pool.spin_milliseconds());
    // A few pools have been used very often before.
    if (index % 997 == 7) {
#ifdef VF_DELAYS
      const std::uint64_t delays = sync_delay_seed;
      sync_delay_seed = 0;
#endif
      pool.set_spin_milliseconds(2.0f);
      PoolTask<1> pair[2];
      Record rec[2];
      pair[0].rec = &rec[0];
      pair[1].rec = &rec[1];
      const int uses = rng.range(66000, 72000);
      SetContext("%d uses in a row", uses);
      for (int i = 0; i < uses; i++) {
        for (Record& r : rec) { r.input = i; r.effect = 0; }
        pool.Execute(2, pair);
        if (rec[0].effect != Mix(i, 99) || rec[1].effect != Mix(i, 99) || rec[0].finished != i + 1 || rec[1].finished != i + 1) {
          Violation("not-once", "use %d of a pool in a row: tasks finished %d and %d times", i, rec[0].finished.load(), rec[1].finished.load());
          break;
        }
        if (i % 512 == 0) Tick();
      }
      Count("long_runs_of_uses");
      Count("executions", uses);
      Count("tasks", 2 * uses);
      pool.set_spin_milliseconds(spin);
#ifdef VF_DELAYS
      sync_delay_seed = delays;
#endif
    }
    for (int st = 0; st < steps && !TooManyViolations(); st++) {
      const int n = rng.chance(1, 6) ? 1 : rng.chance(1, 3) ? max_n : rng.range(1, max_n);
      SetContext("pool step %d tasks %d spin %f", st, n, spin);
      switch (rng.range(0, 2)) {
        case 0: ExecuteTasks<1>(&pool, n, &all, rng, &hist); break;
        case 1: ExecuteTasks<100>(&pool, n, &all, rng, &hist); break;
        default: ExecuteTasks<24>(&pool, n, &all, rng, &hist); break;
      }
      switch (rng.range(0, 5)) {  // idle gap
        case 0: usleep(rng.range(0, 300)); break;
        case 1: SpinFor(rng.range(0, 60000)); break;
        case 2: SpinFor(static_cast<std::int64_t>(spin * 1e6) + rng.range(-20000, 20000)); break;  // around the end of spinning
        default: break;
      }
      if (rng.chance(1, 6000)) { usleep(rng.range(300, 2500) * 1000); Count("long_idle_periods"); }
      if (rng.chance(1, 6)) { spin = rng.pick({0.0f, 0.1f, 1.0f}); pool.set_spin_milliseconds(spin); }
    }
    if (rng.chance(1, 2)) SpinFor(rng.range(0, 100000));
  }
  Tick();
#ifdef VF_DELAYS
  sync_delay_seed = 0;
  Count("sleeps_on_condition_variables", sync_waits.load() - w0);
  Count("injected_delays", sync_delays.load() - d0);
  Count("spurious_wakeups", sync_spurious.load() - s0);
#endif
  for (std::size_t i = 0; i < all.size(); i++) Expect(all, i, 1, "after the pool was destroyed");
  Count("pools");
  Distinct("pool_histories", hist);
  if (rng.chance(1, 200)) Sample("pool with " + std::to_string(all.size()) + " tasks in total");
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, [](const std::string&) { StartWatchdog(); },
              [](long index, Rng& rng) {
                if (args.mode == "pool") Pool(index, rng);
                else HarnessError("mode %s", args.mode.c_str());
              });
}
