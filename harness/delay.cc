// Delays and spurious wake-ups injected around the synchronisation primitives
// of the process, to reach schedules in which a wake-up arrives at an unlucky
// moment or without cause.
#include "delay.h"

#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

#include "vf.h"
#include "wrap.h"

namespace vf {
std::atomic<std::uint64_t> sync_delay_seed{0};
std::atomic<int> sync_delay_style{0};
std::atomic<std::uint64_t> sync_waits{0}, sync_notifies{0}, sync_delays{0}, sync_spurious{0};

namespace {
template <typename F>
F Real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(name) static auto* real = vf::Real<decltype(&name)>(#name)

thread_local std::uint64_t tls_n = 0;
thread_local bool tls_busy = false;

void Maybe(int point) {
  const std::uint64_t seed = sync_delay_seed.load(std::memory_order_relaxed);
  if (!seed || tls_busy) return;
  tls_busy = true;
  const std::uint64_t h = Mix(Mix(seed, ThreadNumber()), Mix(++tls_n, point));
  std::int64_t ns = 0;
  switch (sync_delay_style.load(std::memory_order_relaxed)) {
    case 0: if (h % 3 == 0) ns = h / 3 % 30000; break;                      // anywhere
    case 1: if (point == 0) ns = 20000 + h % 200000; break;                 // about to sleep
    case 2: if (point == 1) ns = 20000 + h % 200000; break;                 // about to notify
    case 3: if (point == 2 || point == 3) { if (h % 2) ns = h / 2 % 60000; } break;
    case 4: if (point == 0) ns = h % 2 ? 400000 : 0; break;                 // long, before sleeping
    case 5: if (h % 2) { sched_yield(); sync_delays.fetch_add(1, std::memory_order_relaxed); } break;
    default: break;
  }
  if (ns) {
    sync_delays.fetch_add(1, std::memory_order_relaxed);
    SpinFor(ns);
  }
  tls_busy = false;
}

// Whether this wait is to end without cause, as POSIX allows.
bool Spurious() {
  const std::uint64_t seed = sync_delay_seed.load(std::memory_order_relaxed);
  if (!seed || tls_busy || sync_delay_style.load(std::memory_order_relaxed) != 6) return false;
  return Mix(Mix(seed, ThreadNumber()), Mix(++tls_n, 9)) % 3 == 0;
}
}  // namespace
}  // namespace vf

extern "C" {
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  REAL(pthread_cond_wait);
  vf::sync_waits.fetch_add(1, std::memory_order_relaxed);
  vf::Maybe(0);
  if (vf::Spurious()) {
    vf::sync_spurious.fetch_add(1, std::memory_order_relaxed);
    pthread_mutex_unlock(m);
    sched_yield();
    pthread_mutex_lock(m);
    return 0;
  }
  return real(c, m);
}
int pthread_cond_signal(pthread_cond_t* c) {
  REAL(pthread_cond_signal);
  vf::sync_notifies.fetch_add(1, std::memory_order_relaxed);
  vf::Maybe(1);
  return real(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  REAL(pthread_cond_broadcast);
  vf::sync_notifies.fetch_add(1, std::memory_order_relaxed);
  vf::Maybe(1);
  return real(c);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  REAL(pthread_mutex_lock);
  vf::Maybe(2);
  return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  REAL(pthread_mutex_unlock);
  const int r = real(m);
  vf::Maybe(3);
  return r;
}
}
