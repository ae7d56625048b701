// Delays injected around mutexes and condition variables.
#ifndef VF_DELAY_H_
#define VF_DELAY_H_
#include <atomic>
#include <cstdint>
namespace vf {
extern std::atomic<std::uint64_t> sync_delay_seed;  // 0 = none
extern std::atomic<int> sync_delay_style;           // 0..6
extern std::atomic<std::uint64_t> sync_waits, sync_notifies, sync_delays, sync_spurious;
}  // namespace vf
#endif
