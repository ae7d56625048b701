#include "sysalloc.h"

#include <sys/mman.h>

#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <mutex>

#include "vf.h"

extern "C" {
void* __real__ZN3ruy6detail18SystemAlignedAllocEl(std::ptrdiff_t);
void __real__ZN3ruy6detail17SystemAlignedFreeEPv(void*);
void* __wrap__ZN3ruy6detail18SystemAlignedAllocEl(std::ptrdiff_t);
void __wrap__ZN3ruy6detail17SystemAlignedFreeEPv(void*);
}

namespace vf {
namespace {

struct Block {
  std::int64_t size = 0;
  void* map = nullptr;
  std::size_t map_bytes = 0;
  std::uint8_t canary_n = 0;  // bytes between the end of the block and the guard page
};

struct State {
  std::mutex mu;
  std::map<const char*, Block> live;
  AllocStats st;
  AllocMode mode = AllocMode::kPass;
  std::uint8_t pattern = 0;
  std::int64_t bad = 0;
  std::int64_t fault = 0, requests = 0, refusals = 0;
  bool sticky = false;
  std::deque<std::pair<void*, std::size_t>> quarantine;
  std::size_t quarantine_bytes = 0;
};
State& S() {
  static State* s = new State;
  return *s;
}
const std::size_t kPage = 4096;
const std::uint8_t kCanary = 0x5A;

}  // namespace

void SetAllocMode(AllocMode m, std::uint8_t pattern) {
  std::lock_guard<std::mutex> l(S().mu);
  S().mode = m;
  S().pattern = pattern;
}
AllocStats GetAllocStats() {
  std::lock_guard<std::mutex> l(S().mu);
  return S().st;
}
void SetAllocFault(std::int64_t nth, bool sticky) {
  std::lock_guard<std::mutex> l(S().mu);
  S().fault = nth;
  S().sticky = sticky;
  S().requests = S().refusals = 0;
}
std::int64_t AllocRequests() {
  std::lock_guard<std::mutex> l(S().mu);
  return S().requests;
}
std::int64_t AllocRefusals() {
  std::lock_guard<std::mutex> l(S().mu);
  return S().refusals;
}
void ResetPeak() {
  std::lock_guard<std::mutex> l(S().mu);
  S().st.peak_bytes = S().st.live_bytes;
}
std::int64_t LiveBlockSize(const void* p) {
  std::lock_guard<std::mutex> l(S().mu);
  auto it = S().live.find(static_cast<const char*>(p));
  return it == S().live.end() ? -1 : it->second.size;
}
bool LiveBlockAt(const void* p, const void** start, std::int64_t* size) {
  std::lock_guard<std::mutex> l(S().mu);
  const char* c = static_cast<const char*>(p);
  auto it = S().live.upper_bound(c);
  if (it == S().live.begin()) return false;
  --it;
  if (c >= it->first + it->second.size) return false;
  *start = it->first;
  *size = it->second.size;
  return true;
}
std::int64_t BadFrees() {
  std::lock_guard<std::mutex> l(S().mu);
  return S().bad;
}

static void* Alloc(std::ptrdiff_t n) {
  State& s = S();
  std::lock_guard<std::mutex> l(s.mu);
  s.requests++;
  if (s.fault && (s.requests == s.fault || (s.sticky && s.requests > s.fault))) {
    s.refusals++;
    return nullptr;
  }
  Block b;
  b.size = n;
  void* p;
  if (s.mode == AllocMode::kGuard) {
    // 64-byte aligned start, end as close to the guard page as alignment allows
    std::size_t rounded = (static_cast<std::size_t>(n) + 63) / 64 * 64;
    std::size_t usable = (rounded + kPage - 1) / kPage * kPage;
    b.map_bytes = usable + 2 * kPage;
    b.map = mmap(nullptr, b.map_bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b.map == MAP_FAILED) HarnessError("mmap of %zu bytes failed", b.map_bytes);
    char* base = static_cast<char*>(b.map) + kPage;
    if (mprotect(base, usable, PROT_READ | PROT_WRITE)) HarnessError("mprotect failed");
    p = base + usable - rounded;
    b.canary_n = static_cast<std::uint8_t>(rounded - n);
    memset(base, kCanary, usable - rounded);
    memset(static_cast<char*>(p) + n, kCanary, b.canary_n);
    memset(p, s.pattern, n);
  } else {
    p = __real__ZN3ruy6detail18SystemAlignedAllocEl(n);
    if (!p) return p;
    if (s.mode == AllocMode::kPoison) memset(p, s.pattern, n);
  }
  s.live[static_cast<const char*>(p)] = b;
  s.st.live_blocks++;
  s.st.live_bytes += n;
  s.st.total_allocs++;
  if (s.st.live_bytes > s.st.peak_bytes) s.st.peak_bytes = s.st.live_bytes;
  return p;
}

static void Free(void* p) {
  if (!p) return;
  State& s = S();
  std::lock_guard<std::mutex> l(s.mu);
  auto it = s.live.find(static_cast<const char*>(p));
  if (it == s.live.end()) {
    s.bad++;
    printf("V key=bad-release case=%ld release of %p which is not a live block\n", CurrentCase(), p);
    fflush(stdout);
    return;
  }
  Block b = it->second;
  s.live.erase(it);
  s.st.live_blocks--;
  s.st.live_bytes -= b.size;
  s.st.total_frees++;
  if (b.map) {
    const std::uint8_t* e = static_cast<const std::uint8_t*>(p) + b.size;
    bool ok = true;
    for (int i = 0; i < b.canary_n; i++) if (e[i] != kCanary) ok = false;
    for (const std::uint8_t* q = static_cast<const std::uint8_t*>(b.map) + kPage; q < p; q++) if (*q != kCanary) ok = false;
    if (!ok) {
      printf("V key=scratch-overrun case=%ld scratch block of %lld bytes was written outside its bounds\n", CurrentCase(), (long long)b.size);
      fflush(stdout);
    }
    mprotect(b.map, b.map_bytes, PROT_NONE);
    madvise(static_cast<char*>(b.map), b.map_bytes, MADV_DONTNEED);
    s.quarantine.emplace_back(b.map, b.map_bytes);
    s.quarantine_bytes += b.map_bytes;
    while (s.quarantine.size() > 512) {
      munmap(s.quarantine.front().first, s.quarantine.front().second);
      s.quarantine_bytes -= s.quarantine.front().second;
      s.quarantine.pop_front();
    }
    return;
  }
  if (s.mode == AllocMode::kPoison) memset(p, static_cast<std::uint8_t>(~s.pattern), b.size);
  __real__ZN3ruy6detail17SystemAlignedFreeEPv(p);
}

}  // namespace vf

extern "C" {
void* __wrap__ZN3ruy6detail18SystemAlignedAllocEl(std::ptrdiff_t n) { return vf::Alloc(n); }
void __wrap__ZN3ruy6detail17SystemAlignedFreeEPv(void* p) { vf::Free(p); }
}
