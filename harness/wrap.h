// Interception of the pack and compute steps of a multiplication.
//
// The binary is linked with --wrap for the two middle-end entry points; the
// wrappers replace the type-erased pack/compute function pointers of the
// multiplication in progress by recording ones.  The library is unmodified.
#ifndef VF_WRAP_H_
#define VF_WRAP_H_

#include <atomic>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "vf.h"

namespace ruy {
struct TrMulParams;
}

namespace vf {

enum EventKind : std::uint8_t { kPackStart, kPackEnd, kKernStart, kKernEnd };

struct Event {
  std::uint8_t kind = 0;
  std::uint8_t side = 0;
  std::uint16_t thread = 0;  // process-wide small thread number
  std::int32_t s0 = 0, e0 = 0, s1 = 0, e1 = 0;
  std::int32_t tuning = 0;
  std::uint32_t mxcsr = 0;
  std::uint16_t x87 = 0;
  bool in_prepare = false;
};

// Process-wide small number of the calling thread.
int ThreadNumber();

// What to do to the multiplications of the thread that installed the plan.
class Plan {
 public:
  Plan() : log_(4096) {}
  // --- controls, set before the multiplication
  bool record = true;
  bool dry = false;              // leave out the steps themselves
  bool shadow = false;           // touch shadow memory (for race detection)
  std::uint64_t delay_seed = 0;  // nonzero: inject delays
  int delay_style = 0;
  int stall_ms = 0;              // style 6: one step of the multiplication takes this long
  std::atomic<int> stalled{0};   // steps held up like that
  int stall_point = 0;
  std::atomic<int> stall_after{0};
  // Holds up one step of the next multiplication.
  void Stall(std::uint64_t seed, int ms);
  std::function<void(ruy::TrMulParams*)> on_prepare;  // before packing
  std::function<void(ruy::TrMulParams*)> on_done;     // after TrMul

  // --- observations, valid after the multiplication
  std::vector<Event> Events() const;
  bool intercepted = false;
  bool overflowed() const { return next_.load(std::memory_order_relaxed) > static_cast<int>(log_.size()); }
  int dims[2] = {0, 0};          // padded packed dimensions
  int src_dims[2] = {0, 0};      // unpadded
  int kernel_dims[2] = {0, 0};
  int depth = 0;
  bool prepacked[2] = {false, false};
  int path = 0;
  int caller_thread = -1;
  // Totals over all steps, also when the log overflows.
  std::atomic<std::int64_t> columns_packed[2] = {{0}, {0}}, entries_computed{0}, steps{0}, steps_outside{0};

  void Reset();
  // Side length of the tiles that destination shadow bytes stand for.
  int Grain(int side) const { return kernel_dims[side] < 4 ? kernel_dims[side] : 4; }

  // internal
  void Log(const Event& e);
  void Delay(int point);
  std::vector<Event> log_;
  std::atomic<int> next_{0};
  void* orig_pack[2] = {nullptr, nullptr};
  void* orig_kernel = nullptr;
  std::vector<std::uint8_t> shadow_src[2], shadow_dst;
  std::atomic<bool> in_prepare{false};
};

// Installs `plan` for multiplications issued by the calling thread (nullptr to
// remove).
void InstallPlan(Plan* plan);

// Checks the event log of one multiplication against the tiling/packing
// discipline.  Returns "" or what is wrong.
std::string CheckDiscipline(const Plan& plan);
// Hash of the interleaving (threads renumbered by first appearance).
std::uint64_t InterleavingHash(const Plan& plan, int* threads_used);

void SpinFor(std::int64_t nanoseconds);

}  // namespace vf
#endif
