// Core of the monitoring harness: arguments, deterministic randomness,
// violation reporting, observation counters, progress and deadlock watchdog,
// guarded buffers.  Independent of ruy.
#ifndef VF_H_
#define VF_H_

#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

// ---------------------------------------------------------------- randomness
struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(seed) {}
  std::uint64_t u64() {
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // uniform in [lo, hi]
  std::int64_t range(std::int64_t lo, std::int64_t hi) {
    return lo + static_cast<std::int64_t>(u64() % static_cast<std::uint64_t>(hi - lo + 1));
  }
  bool chance(int num, int den) { return range(0, den - 1) < num; }
  double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  template <typename T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + range(0, static_cast<std::int64_t>(l.size()) - 1));
  }
};

inline std::uint64_t Mix(std::uint64_t h, std::uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
std::uint64_t HashBytes(const void* p, std::size_t n, std::uint64_t h = 0x1234567);

// ---------------------------------------------------------------- run control
struct Args {
  std::string mode;
  std::uint64_t seed = 1;
  long from = 0, to = 1;  // case range [from, to)
  bool thorough = false;
  std::string out;       // observation file (JSON)
  std::string progress;  // progress file
  std::string extra;     // free-form harness argument
  bool verbose = false;
};
extern Args args;

// Seed of a case: depends on (seed, mode, index) only.
std::uint64_t CaseSeed(long index);

// Main loop: parses argv, runs `body(case)` over the case range, writes the
// observation file.  Returns process exit code: 0 = ran to completion (with or
// without violations), 3 = harness error.
int Main(int argc, char** argv, const std::function<void(const std::string& mode)>& init,
         const std::function<void(long index, Rng& rng)>& body,
         const std::function<void()>& finish = nullptr);

void SetCase(long index);
long CurrentCase();
// Free text describing the current operation, printed when the process dies.
void SetContext(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// Report that the property is violated on the current case.  `key` identifies
// the kind of violation (no spaces).
void Violation(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
int ViolationCount();
bool TooManyViolations();

[[noreturn]] void HarnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// Observation counters.
void Count(const std::string& name, std::uint64_t n = 1);
void Distinct(const std::string& name, std::uint64_t hash);
void Sample(const std::string& text);
void Max(const std::string& name, std::uint64_t v);

// ---------------------------------------------------------------- watchdog
// Progress tick: call whenever the workload advances.
void Tick();
// Starts a watchdog thread: reports a violation and exits if the process is
// provably deadlocked (no tick and every other thread blocked for the whole
// window) or makes no progress while burning CPU for a long time.
void StartWatchdog(int blocked_seconds = 6, int busy_cpu_seconds = 120);
void WatchdogPause();
void WatchdogResume();

// ---------------------------------------------------------------- memory
// A buffer of exactly `bytes` usable bytes, adjacent to an inaccessible page
// either right after its end (kEnd) or right before its start (kStart).
// kHeap uses malloc of the exact size (for ASan).
enum class Guard { kEnd, kStart, kHeap };
class GuardBuf {
 public:
  GuardBuf() {}
  GuardBuf(std::size_t bytes, Guard g, std::size_t align = 1) { Init(bytes, g, align); }
  void Init(std::size_t bytes, Guard g, std::size_t align = 1);
  ~GuardBuf() { Free(); }
  GuardBuf(GuardBuf&& o) noexcept { *this = std::move(o); }
  GuardBuf& operator=(GuardBuf&& o) noexcept {
    Free();
    map_ = o.map_; map_bytes_ = o.map_bytes_; data_ = o.data_; bytes_ = o.bytes_; heap_ = o.heap_;
    lead_ = o.lead_; lead_n_ = o.lead_n_; trail_n_ = o.trail_n_;
    o.map_ = nullptr; o.data_ = nullptr; o.bytes_ = 0;
    return *this;
  }
  GuardBuf(const GuardBuf&) = delete;
  void Free();
  void* data() const { return data_; }
  std::size_t bytes() const { return bytes_; }
  template <typename T> T* as() const { return static_cast<T*>(data_); }
  // Makes the accessible slack on the non-guarded side carry canaries; returns
  // false if they were modified.
  bool CheckCanaries() const;
  void Protect(bool readonly);

 private:
  void* map_ = nullptr;
  std::size_t map_bytes_ = 0;
  void* data_ = nullptr;
  std::size_t bytes_ = 0;
  bool heap_ = false;
  std::uint8_t* lead_ = nullptr;  // start of accessible area
  std::size_t lead_n_ = 0, trail_n_ = 0;
};

}  // namespace vf

#endif  // VF_H_
