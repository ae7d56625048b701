#include "wrap.h"

#include <time.h>
#include <unistd.h>
#include <xmmintrin.h>

#include <algorithm>
#include <map>

#include "ruy/ctx.h"
#include "ruy/trmul_params.h"

extern "C" {
void __real__ZN3ruy21PreparePackedMatricesEPNS_3CtxEPNS_11TrMulParamsE(ruy::Ctx*, ruy::TrMulParams*);
void __real__ZN3ruy5TrMulEPNS_3CtxEPNS_11TrMulParamsE(ruy::Ctx*, ruy::TrMulParams*);
void __wrap__ZN3ruy21PreparePackedMatricesEPNS_3CtxEPNS_11TrMulParamsE(ruy::Ctx*, ruy::TrMulParams*);
void __wrap__ZN3ruy5TrMulEPNS_3CtxEPNS_11TrMulParamsE(ruy::Ctx*, ruy::TrMulParams*);
}

namespace vf {

namespace {
thread_local Plan* tls_plan = nullptr;
std::atomic<int> g_next_thread{0};

// Multiplications in progress.  Relaxed atomics on purpose: the monitor must
// not add ordering between the library's threads.
struct Slot {
  std::atomic<const ruy::TrMulParams*> params{nullptr};
  std::atomic<Plan*> plan{nullptr};
  std::atomic<const void*> dst{nullptr};
  std::atomic<const void*> packed[2] = {{nullptr}, {nullptr}};
};
Slot g_slots[64];

Plan* Find(const void* p) {
  const char* c = static_cast<const char*>(p);
  for (Slot& s : g_slots) {
    const char* b = reinterpret_cast<const char*>(s.params.load(std::memory_order_relaxed));
    if (b && c >= b && c < b + sizeof(ruy::TrMulParams)) return s.plan.load(std::memory_order_relaxed);
  }
  return nullptr;
}
// The steps normally receive members of the parameters; should they be given
// copies, the buffers they point to identify the multiplication.
Plan* FindByDst(const ruy::EMat* dst) {
  if (Plan* p = Find(dst)) return p;
  for (Slot& s : g_slots)
    if (s.params.load(std::memory_order_relaxed) && s.dst.load(std::memory_order_relaxed) == dst->data) return s.plan.load(std::memory_order_relaxed);
  return tls_plan;
}
Plan* FindByPacked(const ruy::PEMat* packed, int side) {
  if (Plan* p = Find(packed)) return p;
  for (Slot& s : g_slots)
    if (s.params.load(std::memory_order_relaxed) && packed->data && s.packed[side].load(std::memory_order_relaxed) == packed->data)
      return s.plan.load(std::memory_order_relaxed);
  return tls_plan;
}

std::uint16_t X87() {
  std::uint16_t w;
  __asm__ volatile("fnstcw %0" : "=m"(w));
  return w;
}

Event Make(EventKind k, ruy::Tuning t) {
  Event e;
  e.kind = k;
  e.thread = static_cast<std::uint16_t>(ThreadNumber());
  e.tuning = static_cast<int>(t);
  e.mxcsr = _mm_getcsr();
  e.x87 = X87();
  return e;
}

template <int kSide>
void PackHook(ruy::Tuning tuning, const ruy::EMat& src, ruy::PEMat* packed, int start, int end) {
  Plan* p = FindByPacked(packed, kSide);
  if (!p) HarnessError("pack step of an unknown multiplication");
  auto* orig = reinterpret_cast<ruy::RunPackFn*>(p->orig_pack[kSide]);
  Event e = Make(kPackStart, tuning);
  e.side = kSide; e.s0 = start; e.e0 = end;
  e.in_prepare = p->in_prepare.load(std::memory_order_relaxed);
  p->Delay(0);
  if (p->record) p->Log(e);
  if (p->shadow) {
    auto& sh = p->shadow_src[kSide];
    for (int i = std::max(0, start); i < end && i < static_cast<int>(sh.size()); i++) sh[i] = 1;
  }
  p->steps.fetch_add(1, std::memory_order_relaxed);
  p->columns_packed[kSide].fetch_add(end - start, std::memory_order_relaxed);
  if (start < 0 || start > end || end > p->dims[kSide]) p->steps_outside.fetch_add(1, std::memory_order_relaxed);
  p->Delay(1);
  if (!p->dry) orig(tuning, src, packed, start, end);
  p->Delay(2);
  e.kind = kPackEnd;
  if (p->record) p->Log(e);
  p->Delay(3);
}

void KernelHook(ruy::Tuning tuning, const ruy::SidePair<ruy::PEMat>& src, const void* mp, const ruy::SidePair<int>& start,
                const ruy::SidePair<int>& end, ruy::EMat* dst) {
  Plan* p = FindByDst(dst);
  if (!p) HarnessError("compute step of an unknown multiplication");
  auto* orig = reinterpret_cast<ruy::RunKernelFn*>(p->orig_kernel);
  Event e = Make(kKernStart, tuning);
  e.s0 = start[ruy::Side::kLhs]; e.e0 = end[ruy::Side::kLhs];
  e.s1 = start[ruy::Side::kRhs]; e.e1 = end[ruy::Side::kRhs];
  if (p->record) p->Log(e);
  if (p->shadow) {
    unsigned sum = 0;
    for (int s = 0; s < 2; s++) {
      auto& sh = p->shadow_src[s];
      const int b = s ? e.s1 : e.s0, en = s ? e.e1 : e.e0;
      for (int i = std::max(0, b); i < en && i < static_cast<int>(sh.size()); i++) sum += *const_cast<volatile std::uint8_t*>(&sh[i]);
    }
    const int g0 = p->Grain(0), g1 = p->Grain(1), w = (p->dims[0] + g0 - 1) / g0;
    for (int j = e.s1 / g1; j < (e.e1 + g1 - 1) / g1; j++)
      for (int i = e.s0 / g0; i < (e.e0 + g0 - 1) / g0; i++) {
        std::size_t k = std::size_t(j) * w + i;
        if (k < p->shadow_dst.size()) p->shadow_dst[k] = static_cast<std::uint8_t>(sum + 1);
      }
  }
  p->steps.fetch_add(1, std::memory_order_relaxed);
  p->entries_computed.fetch_add(std::int64_t(e.e0 - e.s0) * (e.e1 - e.s1), std::memory_order_relaxed);
  if (e.s0 < 0 || e.s1 < 0 || e.s0 > e.e0 || e.s1 > e.e1 || e.e0 > p->dims[0] || e.e1 > p->dims[1]) p->steps_outside.fetch_add(1, std::memory_order_relaxed);
  p->Delay(4);
  if (!p->dry) orig(tuning, src, mp, start, end, dst);
  p->Delay(5);
  e.kind = kKernEnd;
  if (p->record) p->Log(e);
  p->Delay(6);
}

void Hook(ruy::TrMulParams* params, Plan* p) {
  if (p->on_prepare) p->on_prepare(params);
  p->intercepted = true;
  p->caller_thread = ThreadNumber();
  p->path = static_cast<int>(params->path);
  for (int s = 0; s < 2; s++) {
    ruy::Side side = static_cast<ruy::Side>(s);
    p->orig_pack[s] = reinterpret_cast<void*>(params->run_pack[side]);
    p->dims[s] = params->packed_matrix[side].layout.cols;
    p->src_dims[s] = params->src[side].layout.cols;
    p->kernel_dims[s] = params->packed_matrix[side].layout.kernel.cols;
    if (p->shadow) p->shadow_src[s].assign(p->dims[s], 0);
  }
  p->depth = params->src[ruy::Side::kLhs].layout.rows;
  if (p->shadow) {
    const int g0 = p->Grain(0), g1 = p->Grain(1);
    std::size_t n = std::size_t((p->dims[0] + g0 - 1) / g0) * ((p->dims[1] + g1 - 1) / g1);
    p->shadow_dst.assign(std::min<std::size_t>(n, 1 << 20), 0);
  }
  p->orig_kernel = reinterpret_cast<void*>(params->run_kernel);
  params->run_pack[ruy::Side::kLhs] = &PackHook<0>;
  params->run_pack[ruy::Side::kRhs] = &PackHook<1>;
  params->run_kernel = &KernelHook;
  for (Slot& s : g_slots) {
    const ruy::TrMulParams* none = nullptr;
    if (s.params.compare_exchange_strong(none, params, std::memory_order_relaxed)) {
      s.dst.store(params->dst.data, std::memory_order_relaxed);
      s.packed[0].store(nullptr, std::memory_order_relaxed);
      s.packed[1].store(nullptr, std::memory_order_relaxed);
      s.plan.store(p, std::memory_order_relaxed);
      return;
    }
  }
  HarnessError("too many multiplications in progress");
}

void NotePacked(ruy::TrMulParams* params) {
  for (Slot& s : g_slots)
    if (s.params.load(std::memory_order_relaxed) == params)
      for (int i = 0; i < 2; i++) s.packed[i].store(params->packed_matrix[static_cast<ruy::Side>(i)].data, std::memory_order_relaxed);
}

void Unhook(ruy::TrMulParams* params) {
  for (Slot& s : g_slots)
    if (s.params.load(std::memory_order_relaxed) == params) s.params.store(nullptr, std::memory_order_relaxed);
}
}  // namespace

int ThreadNumber() {
  static thread_local int n = g_next_thread.fetch_add(1, std::memory_order_relaxed);
  return n;
}

void SpinFor(std::int64_t ns) {
  timespec a, b;
  clock_gettime(CLOCK_MONOTONIC, &a);
  do {
    clock_gettime(CLOCK_MONOTONIC, &b);
  } while ((b.tv_sec - a.tv_sec) * 1000000000ll + (b.tv_nsec - a.tv_nsec) < ns);
}

void Plan::Reset() {
  next_.store(0, std::memory_order_relaxed);
  columns_packed[0] = columns_packed[1] = entries_computed = steps = steps_outside = 0;
  intercepted = false;
  prepacked[0] = prepacked[1] = false;
}
void Plan::Log(const Event& e) {
  int i = next_.fetch_add(1, std::memory_order_relaxed);
  if (i < static_cast<int>(log_.size())) log_[i] = e;
}
std::vector<Event> Plan::Events() const {
  int n = std::min<int>(next_.load(std::memory_order_relaxed), log_.size());
  return std::vector<Event>(log_.begin(), log_.begin() + n);
}
void Plan::Delay(int point) {
  if (!delay_seed) return;
  static thread_local std::uint64_t n = 0;
  std::uint64_t h = Mix(Mix(delay_seed, ThreadNumber()), Mix(++n, point));
  switch (delay_style) {
    case 0:  // occasional short spins anywhere
      if (h % 4 == 0) SpinFor(h / 4 % 20000);
      break;
    case 1:  // some threads are slow packers
      if (point == 1 || point == 2) { if (Mix(delay_seed, ThreadNumber()) % 2) SpinFor(20000 + h % 80000); }
      break;
    case 2:  // slow compute on some threads
      if (point == 4) { if (Mix(delay_seed, ThreadNumber() + 7) % 2) SpinFor(20000 + h % 80000); }
      break;
    case 3:  // yields
      if (h % 2 == 0) sched_yield();
      break;
    case 4:  // rare sleeps
      if (h % 16 == 0) usleep(h / 16 % 300);
      break;
    case 5:  // everything slow right before reporting completion
      if (point == 2 || point == 3) SpinFor(5000 + h % 30000);
      break;
    case 6:  // one thread loses the processor for long, at one of the first points of a kind
      if (point == stall_point && stall_after.fetch_sub(1, std::memory_order_relaxed) == 0) {
        stalled.fetch_add(1, std::memory_order_relaxed);
        usleep(stall_ms * 1000);
      }
      break;
    default: break;
  }
}

void Plan::Stall(std::uint64_t seed, int ms) {
  delay_seed = seed | 1;
  delay_style = 6;
  stall_ms = ms;
  static const int kPoints[] = {1, 1, 1, 2, 2, 3, 0, 4, 5, 6};
  stall_point = kPoints[seed / 2 % 10];
  stall_after = seed / 64 % 4;
}

void InstallPlan(Plan* plan) { tls_plan = plan; }

std::string CheckDiscipline(const Plan& plan) {
  char b[400];
  if (plan.overflowed()) return "";
  std::vector<Event> ev = plan.Events();
  const int D[2] = {plan.dims[0], plan.dims[1]};
  std::vector<int> pack_count[2], pack_end[2];
  for (int s = 0; s < 2; s++) { pack_count[s].assign(D[s], 0); pack_end[s].assign(D[s], -1); }
  std::vector<std::uint16_t> cover(std::size_t(D[0]) * D[1], 0);
  int packs[2] = {0, 0}, starts = 0, ends = 0;
  // pack steps
  for (std::size_t i = 0; i < ev.size(); i++) {
    const Event& e = ev[i];
    if (e.kind == kPackStart || e.kind == kPackEnd) {
      if (e.s0 < 0 || e.e0 > D[e.side] || e.s0 > e.e0) {
        snprintf(b, sizeof b, "pack step [%d,%d) outside operand of %d columns (side %d)", e.s0, e.e0, D[e.side], e.side);
        return b;
      }
      if (e.kind == kPackStart) {
        packs[e.side]++;
        for (int c = e.s0; c < e.e0; c++)
          if (++pack_count[e.side][c] > 1 && c < plan.src_dims[e.side]) {
            snprintf(b, sizeof b, "column %d of side %d packed more than once", c, e.side);
            return b;
          }
      } else {
        for (int c = e.s0; c < e.e0; c++) pack_end[e.side][c] = static_cast<int>(i);
      }
    }
  }
  for (int s = 0; s < 2; s++) {
    if (plan.prepacked[s] && packs[s] == 0) { pack_end[s].assign(D[s], -1); continue; }  // reused packed operand
    for (int c = 0; c < D[s]; c++)
      if (pack_count[s][c] != 1 && c < plan.src_dims[s]) {
        snprintf(b, sizeof b, "column %d of side %d never packed", c, s);
        return b;
      }
  }
  for (std::size_t i = 0; i < ev.size(); i++) {
    const Event& e = ev[i];
    if (e.kind == kKernStart) {
      starts++;
      if (e.s0 < 0 || e.s1 < 0 || e.e0 > D[0] || e.e1 > D[1] || e.s0 > e.e0 || e.s1 > e.e1) {
        snprintf(b, sizeof b, "compute step [%d,%d)x[%d,%d) outside %dx%d", e.s0, e.e0, e.s1, e.e1, D[0], D[1]);
        return b;
      }
      for (int s = 0; s < 2; s++) {
        if (plan.prepacked[s] && packs[s] == 0) continue;
        for (int c = s ? e.s1 : e.s0; c < (s ? e.e1 : e.e0); c++)
          if (c < plan.src_dims[s] && (pack_end[s][c] < 0 || pack_end[s][c] > static_cast<int>(i))) {
            snprintf(b, sizeof b, "compute step [%d,%d)x[%d,%d) started before column %d of side %d was packed", e.s0, e.e0, e.s1, e.e1, c, s);
            return b;
          }
      }
      for (int c = e.s1; c < e.e1; c++)
        for (int r = e.s0; r < e.e0; r++)
          if (++cover[std::size_t(c) * D[0] + r] > 1 && r < plan.src_dims[0] && c < plan.src_dims[1]) {
            snprintf(b, sizeof b, "entry (%d,%d) computed more than once", r, c);
            return b;
          }
    } else if (e.kind == kKernEnd) {
      ends++;
    }
  }
  for (int c = 0; c < plan.src_dims[1]; c++)
    for (int r = 0; r < plan.src_dims[0]; r++)
      if (!cover[std::size_t(c) * D[0] + r]) {
        snprintf(b, sizeof b, "entry (%d,%d) never computed", r, c);
        return b;
      }
  if (starts != ends) {
    snprintf(b, sizeof b, "%d compute steps started but %d finished when the multiplication returned", starts, ends);
    return b;
  }
  return "";
}

std::uint64_t InterleavingHash(const Plan& plan, int* threads_used) {
  std::map<int, int> ren;
  std::uint64_t h = 17;
  for (const Event& e : plan.Events()) {
    auto it = ren.emplace(e.thread, static_cast<int>(ren.size())).first;
    h = Mix(h, it->second * 8 + e.kind);
    h = Mix(h, Mix(e.s0 * 2 + e.side, e.s1));
  }
  *threads_used = static_cast<int>(ren.size());
  return h;
}

}  // namespace vf

extern "C" {
void __wrap__ZN3ruy21PreparePackedMatricesEPNS_3CtxEPNS_11TrMulParamsE(ruy::Ctx* ctx, ruy::TrMulParams* params) {
  vf::Plan* p = vf::tls_plan;
  if (p) {
    vf::Hook(params, p);
    p->in_prepare.store(true, std::memory_order_relaxed);
  }
  __real__ZN3ruy21PreparePackedMatricesEPNS_3CtxEPNS_11TrMulParamsE(ctx, params);
  if (p) {
    p->in_prepare.store(false, std::memory_order_relaxed);
    vf::NotePacked(params);
  }
}
void __wrap__ZN3ruy5TrMulEPNS_3CtxEPNS_11TrMulParamsE(ruy::Ctx* ctx, ruy::TrMulParams* params) {
  vf::Plan* p = vf::tls_plan;
  if (p)
    for (int s = 0; s < 2; s++) p->prepacked[s] = params->is_prepacked[static_cast<ruy::Side>(s)];
  __real__ZN3ruy5TrMulEPNS_3CtxEPNS_11TrMulParamsE(ctx, params);
  if (p) {
    if (p->on_done) p->on_done(params);
    vf::Unhook(params);
  }
}
}
