// Monitor of the library's system allocations (aligned allocation and release),
// attached at link time with --wrap.
#ifndef VF_SYSALLOC_H_
#define VF_SYSALLOC_H_
#include <cstddef>
#include <cstdint>

namespace vf {

enum class AllocMode {
  kPass,    // count only
  kPoison,  // fill new blocks with a pattern, old blocks before release
  kGuard,   // every block ends at an inaccessible page; released blocks become
            // inaccessible
};

struct AllocStats {
  std::int64_t live_blocks = 0, live_bytes = 0;
  std::int64_t total_allocs = 0, total_frees = 0;
  std::int64_t peak_bytes = 0;
};

void SetAllocMode(AllocMode m, std::uint8_t pattern = 0);
AllocStats GetAllocStats();
// The n-th request from now on (counting from 1) is refused, and with `sticky`
// every later one; 0 = none.  Requests and refusals are counted from this call.
void SetAllocFault(std::int64_t nth, bool sticky);
std::int64_t AllocRequests();
std::int64_t AllocRefusals();
// Starts a new peak measurement.
void ResetPeak();
// Size of the live block starting at p, -1 if there is none.
std::int64_t LiveBlockSize(const void* p);
// Live block containing p: its start and size; false if none.
bool LiveBlockAt(const void* p, const void** start, std::int64_t* size);
// Returns number of bad releases seen (unknown or repeated pointers).
std::int64_t BadFrees();

}  // namespace vf
#endif
