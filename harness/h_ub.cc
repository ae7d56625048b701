// Extreme sizes under the undefined-behaviour sanitizer and the library's own
// assertions (P19).
//   mode plan : work planning over the whole range of sizes
//   mode dry  : multiplications up to the size limits whose pack and compute
//               steps are counted but not carried out
//   mode exec : complete multiplications with very long dimensions or strides
#include <sys/mman.h>

#include <cmath>

#include "ctxutil.h"
#include "problem.h"
#include "ruy/block_map.h"
#include "vf.h"
#include "wrap.h"

using namespace vf;

namespace {

constexpr std::int64_t kLimit = std::int64_t(1) << 31;

// Log-uniform in [1, max], often near powers of two.
std::int64_t LogDim(Rng& rng, std::int64_t max) {
  if (max <= 1) return 1;
  int top = 0;
  while ((std::int64_t(2) << top) <= max) top++;
  std::int64_t v = std::int64_t(1) << rng.range(0, top);
  switch (rng.range(0, 3)) {
    case 0: v += rng.range(-17, 17); break;
    case 1: v += rng.range(0, v - 1); break;
    case 2: v = max - (rng.chance(1, 2) ? 0 : rng.range(0, 40)); break;
    default: break;
  }
  return std::max<std::int64_t>(1, std::min(v, max));
}
std::int64_t Up16(std::int64_t v) { return (v + 15) / 16 * 16; }

void PlanMode(long index, Rng& rng) {
  for (int n = 0; n < 50; n++) {
    const int ls = rng.pick({1, 2, 4, 8}), rs = rng.pick({1, 2, 4, 8}), ds = rng.pick({1, 2, 4, 8});
    // rows x depth, depth x cols and rows x cols, each rounded up to multiples
    // of 16, below 2^31 bytes.
    std::int64_t d[3];  // rows, depth, cols
    int o[3] = {0, 1, 2};
    for (int i = 2; i > 0; i--) std::swap(o[i], o[rng.range(0, i)]);
    const int size[3][3] = {{0, ls, ds}, {ls, 0, rs}, {ds, rs, 0}};
    bool have[3] = {false, false, false};
    for (int k = 0; k < 3; k++) {
      const int i = o[k];
      std::int64_t max = kLimit - 1;
      for (int j = 0; j < 3; j++) {
        if (j == i) continue;
        const std::int64_t other = have[j] ? Up16(d[j]) : 16;
        max = std::min(max, (kLimit - 1) / (other * size[i][j]));
      }
      d[i] = LogDim(rng, max / 16 * 16);
      have[i] = true;
    }
    const int kr = 1 << rng.range(0, 4), kc = 1 << rng.range(0, 4);
    const int rows = (d[0] + kr - 1) / kr * kr, cols = (d[2] + kc - 1) / kc * kc, depth = d[1];
    ruy::CpuCacheParams cp;
    cp.local_cache_size = LogDim(rng, 1 << 30);
    cp.last_level_cache_size = std::max<std::int64_t>(cp.local_cache_size, LogDim(rng, 1 << 30));
    const int threads = rng.chance(1, 3) ? 1 : LogDim(rng, 1 << 16);
    SetContext("plan %dx%dx%d kernel %dx%d scalars %d,%d caches %d,%d threads %d", rows, depth, cols, kr, kc, ls, rs, cp.local_cache_size, cp.last_level_cache_size, threads);
    ruy::BlockMap bm;
    const bool linear = ruy::IsObviouslyLinearTraversal(rows, cols, depth, ls, rs, cp);
    ruy::MakeBlockMap(rows, cols, depth, kr, kc, ls, rs, threads, cp, &bm);
    Tick();
    Count("plans");
    if (linear) Count("linear_plans");
    const std::int64_t lhs_bytes = std::int64_t(ls) * rows * depth, rhs_bytes = std::int64_t(rs) * cols * depth;
    if (lhs_bytes + rhs_bytes >= kLimit) Count("plans_over_2GB");
    // A working set larger than the cache is not an "obviously linear" case.
    if (linear && rows > 1 && cols > 1 && lhs_bytes + rhs_bytes > cp.local_cache_size) Count("linear_over_cache");
    const int blocks = ruy::NumBlocks(bm);
    if (blocks < 1) { Violation("plan-blocks", "plan of %d blocks: %dx%dx%d", blocks, rows, depth, cols); continue; }
    if (bm.thread_count < 1 || bm.thread_count > threads || bm.thread_count > blocks)
      Violation("plan-threads", "plan uses %d threads of %d for %d blocks", bm.thread_count, threads, blocks);
    int last[2] = {-1, -1};
    for (int s = 0; s < 2; s++) {
      const ruy::Side side = static_cast<ruy::Side>(s);
      const int nb = ruy::NumBlocksPerSide(side, bm);
      int b, e;
      ruy::GetBlockMatrixCoords(side, bm, 0, &b, &e);
      if (b != 0) Violation("plan-start", "first block starts at %d", b);
      ruy::GetBlockMatrixCoords(side, bm, nb - 1, &b, &e);
      last[s] = e;
      if (e != (s ? cols : rows)) Violation("plan-end", "last block ends at %d of %d: %dx%dx%d kernel %dx%d", e, s ? cols : rows, rows, depth, cols, kr, kc);
      for (int k = 0; k < 6; k++) {  // neighbouring blocks touch
        const int i = nb < 2 ? 0 : rng.range(0, nb - 2);
        int b1, e1;
        ruy::GetBlockMatrixCoords(side, bm, i, &b, &e);
        if (e <= b || b < 0 || e > (s ? cols : rows)) Violation("plan-range", "block %d is [%d,%d) of %d", i, b, e, s ? cols : rows);
        if (nb < 2) break;
        ruy::GetBlockMatrixCoords(side, bm, i + 1, &b1, &e1);
        if (b1 != e) Violation("plan-gap", "block %d ends at %d, the next starts at %d", i, e, b1);
      }
    }
    for (int k = 0; k < 12; k++) {
      const int i = k == 0 ? 0 : k == 1 ? blocks - 1 : rng.range(0, blocks - 1);
      ruy::SidePair<int> blk, st, en;
      ruy::GetBlockByIndex(bm, i, &blk);
      ruy::GetBlockMatrixCoords(bm, blk, &st, &en);
      Count("blocks_checked");
      for (int s = 0; s < 2; s++) {
        const ruy::Side side = static_cast<ruy::Side>(s);
        if (blk[side] < 0 || blk[side] >= ruy::NumBlocksPerSide(side, bm) || st[side] < 0 || en[side] > last[s] || st[side] >= en[side])
          Violation("plan-block", "block %d of %d maps to position %d, range [%d,%d)", i, blocks, blk[side], st[side], en[side]);
      }
    }
    Distinct("plans", Mix(Mix(rows, cols), Mix(depth, Mix(kr * 64 + kc, threads))));
    Max("largest_operand_bytes", std::max(lhs_bytes, rhs_bytes));
    if (rng.chance(1, 4000)) Sample("plan " + std::to_string(rows) + "x" + std::to_string(depth) + "x" + std::to_string(cols) + " blocks " + std::to_string(blocks));
  }
}

struct Map {
  void* p = nullptr;
  std::size_t n = 0;
  void Init(std::size_t bytes) {
    n = (bytes + 4095) / 4096 * 4096;
    p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) HarnessError("cannot map %zu bytes", bytes);
  }
  // Buffer of exactly the extent, ending at the end of the mapping.
  void* At(std::size_t bytes) const { return static_cast<char*>(p) + (n - (bytes + 7) / 8 * 8); }
  ~Map() { if (p) munmap(p, n); }
};

void Dry(long index, Rng& rng) {
  Call c;
  c.combo = rng.range(0, kNumCombos - 1);
  const ComboInfo& ci = kCombos[c.combo];
  const int ss = std::max(SizeOf(ci.lhs), SizeOf(ci.rhs)), ds = SizeOf(ci.dst);
  // All three operands, padded, below 2^31 bytes.
  std::int64_t d[3];  // rows, depth, cols
  const int size[3][3] = {{0, ss, ds}, {ss, 0, ss}, {ds, ss, 0}};
  int o[3] = {0, 1, 2};
  for (int i = 2; i > 0; i--) std::swap(o[i], o[rng.range(0, i)]);
  bool have[3] = {false, false, false};
  for (int k = 0; k < 3; k++) {
    const int i = o[k];
    std::int64_t max = kLimit / 16;
    for (int j = 0; j < 3; j++)
      if (j != i) max = std::min(max, (kLimit - 1) / ((have[j] ? Up16(d[j]) : 16) * size[i][j]));
    d[i] = LogDim(rng, max / 16 * 16);
    have[i] = true;
  }
  std::vector<int> paths = UsablePaths();
  Config cfg;
  cfg.path = paths[rng.range(0, paths.size() - 1)];
  // Deep problems are divided into blocks of single kernel tiles: bound their
  // number.
  const std::int64_t entries = std::int64_t(1) << (cfg.path < 0x10 || ds == 8 || SizeOf(ci.lhs) != SizeOf(ci.rhs) ? 20 : 26);
  if (d[1] > 500)
    while (d[0] * d[2] > entries) (d[0] > d[2] ? d[0] : d[2]) /= 2;
  c.lhs.type = ci.lhs; c.rhs.type = ci.rhs; c.dst.type = ci.dst;
  c.lhs.rows = d[0]; c.lhs.cols = d[1]; c.rhs.rows = d[1]; c.rhs.cols = d[2]; c.dst.rows = d[0]; c.dst.cols = d[2];
  Map maps[3];
  MatSpec* ms[3] = {&c.lhs, &c.rhs, &c.dst};
  for (int i = 0; i < 3; i++) {
    ms[i]->order = rng.range(0, 1);
    ms[i]->stride = ms[i]->order == kColMajor ? ms[i]->rows : ms[i]->cols;
    const std::int64_t bytes = ms[i]->Extent() * SizeOf(ms[i]->type);
    maps[i].Init(bytes + 64);
    ms[i]->data = maps[i].At(bytes);
  }
  if (Quantized(c)) { c.mp.uniform = true; c.mp.mult = 1 << 30; }
  c.mp.channel_dim = rng.range(0, 1);
  cfg.threads = rng.chance(1, 4) ? 1 : rng.range(2, 40);
  cfg.force_max = rng.chance(1, 4);
  cfg.spin_ms = 0;
  ruy::Context ctx;
  Apply(cfg, &ctx);
  const bool caches = rng.chance(1, 2);
  const int local = std::max<std::int64_t>(1 << 15, LogDim(rng, 1 << 28));
  if (caches) SetCaches(&ctx, local, std::max<std::int64_t>(local, LogDim(rng, 1 << 30)));
  char desc[300];
  snprintf(desc, sizeof desc, "dry %s %dx%dx%d orders %d%d%d %s", ci.name, int(d[0]), int(d[1]), int(d[2]), c.lhs.order, c.rhs.order, c.dst.order, Describe(cfg).c_str());
  SetContext("%s", desc);
  Plan plan;
  plan.dry = true;
  plan.record = false;
  InstallPlan(&plan);
  RunMul(c, &ctx, 1);
  InstallPlan(nullptr);
  Tick();
  if (!plan.intercepted) HarnessError("multiplication not intercepted");
  Count("dry_muls");
  if (double(d[0]) * d[1] * d[2] >= double(kLimit)) Count(cfg.force_max ? "dry_over_2G_operations_forced" : "dry_over_2G_operations");
  for (int s = 0; s < 2; s++)
    if (plan.columns_packed[s] != plan.dims[s])
      Violation("dry-packed", "%lld of %d columns of side %d packed; %s", static_cast<long long>(plan.columns_packed[s]), plan.dims[s], s, desc);
  if (plan.entries_computed != std::int64_t(plan.dims[0]) * plan.dims[1])
    Violation("dry-computed", "%lld entries of %dx%d computed; %s", static_cast<long long>(plan.entries_computed), plan.dims[0], plan.dims[1], desc);
  if (plan.steps_outside) Violation("dry-outside", "steps outside of the matrices; %s", desc);
  Count("dry_steps", plan.steps);
  Distinct("dry_problems", Mix(Mix(d[0], Mix(d[1], d[2])), Mix(c.combo, Mix(cfg.path, cfg.threads))));
  if (rng.chance(1, 100)) Sample(desc);
}

void Put(const MatSpec& m, int r, int c, int v) {
  const std::int64_t o = m.Off(r, c);
  switch (m.type) {
    case T::f32: static_cast<float*>(m.data)[o] = v; break;
    case T::f64: static_cast<double*>(m.data)[o] = v; break;
    case T::i8: static_cast<std::int8_t*>(m.data)[o] = v; break;
    case T::u8: static_cast<std::uint8_t*>(m.data)[o] = v; break;
    case T::i16: static_cast<std::int16_t*>(m.data)[o] = v; break;
    case T::i32: static_cast<std::int32_t*>(m.data)[o] = v; break;
  }
}

void Exec(long index, Rng& rng) {
  Call c;
  c.combo = rng.range(0, kNumCombos - 1);
  if (rng.chance(1, 3)) c.combo = rng.pick({0, 0, 4, 5, 9});
  const ComboInfo& ci = kCombos[c.combo];
  const bool has16 = ci.lhs == T::i16 || ci.rhs == T::i16;
  const bool strided = rng.chance(1, 2);
  int d[3];  // rows, depth, cols
  const std::int64_t cap = args.thorough ? std::int64_t(1) << 24 : std::int64_t(1) << 20;
  if (strided) {
    for (int& v : d) v = rng.range(1, 40);
    if (rng.chance(1, 3)) d[rng.range(0, 2)] = LogDim(rng, 3000);
  } else {
    for (int& v : d) v = rng.range(1, 3);
    const int big = rng.range(0, 2);
    d[big] = LogDim(rng, cap);
    if (rng.chance(1, 3)) d[(big + 1) % 3] = LogDim(rng, std::max<std::int64_t>(1, cap / d[big]));
  }
  c.lhs.type = ci.lhs; c.rhs.type = ci.rhs; c.dst.type = ci.dst;
  c.lhs.rows = d[0]; c.lhs.cols = d[1]; c.rhs.rows = d[1]; c.rhs.cols = d[2]; c.dst.rows = d[0]; c.dst.cols = d[2];
  std::int64_t extent_max = 0;
  Map maps[3];
  MatSpec* ms[3] = {&c.lhs, &c.rhs, &c.dst};
  for (int i = 0; i < 3; i++) {
    MatSpec* m = ms[i];
    m->order = rng.range(0, 1);
    const int inner = m->order == kColMajor ? m->rows : m->cols, outer = m->order == kColMajor ? m->cols : m->rows;
    m->stride = inner;
    if (strided && rng.chance(2, 3)) {
      // Widest stride keeping the span below 2^31 bytes; every column or row
      // then touches its own page, so bound their number.
      const std::int64_t room = (kLimit - 1) / SizeOf(m->type) / Up16(outer);
      if (room > inner) m->stride = rng.chance(1, 2) ? room - rng.range(0, std::min<std::int64_t>(room - inner, 70)) : inner + LogDim(rng, room - inner);
    }
    const std::int64_t bytes = m->Extent() * SizeOf(m->type);
    extent_max = std::max(extent_max, bytes);
    maps[i].Init(bytes + 64);
    m->data = maps[i].At(bytes);
  }
  // Values and zero points small enough for sums of products of stored values
  // to fit the 32-bit accumulator (and to be exact in float).
  const std::int64_t budget = IsFloat(ci.dst) ? 1 << 24 : std::int64_t(1) << 29;
  int vmax = static_cast<int>(std::sqrt(static_cast<double>(budget / d[1])));
  vmax = std::min(vmax, 100);
  if (!IsFloat(ci.lhs) && !has16) {
    auto zp = [&](T t) { int lo = std::max<int>(-vmax, Lowest(t) + 1), hi = vmax; return t == T::u8 ? 128 + static_cast<int>(rng.range(std::max(-vmax, -100), std::min(vmax, 100))) : static_cast<int>(rng.range(lo, hi)); };
    // uint8 operands are centred on 128 internally; portable kernels use raw
    // values, for which the budget must hold too.
    if (ci.lhs == T::u8 || ci.rhs == T::u8) {
      if (d[1] > 8000) { c.lhs.zp = ci.lhs == T::u8 ? rng.range(0, vmax < 1 ? 1 : vmax) : 0; c.rhs.zp = ci.rhs == T::u8 ? rng.range(0, vmax < 1 ? 1 : vmax) : 0; }
      else { c.lhs.zp = zp(ci.lhs); c.rhs.zp = zp(ci.rhs); }
    } else { c.lhs.zp = zp(ci.lhs); c.rhs.zp = zp(ci.rhs); }
  }
  if (vmax < 1) return;
  const bool low_u8 = d[1] > 8000;
  const std::uint64_t fs = rng.u64();
  auto value = [&](const MatSpec& m, int r, int col) {
    std::uint64_t h = Mix(fs, Mix(r, col));
    int span = std::min(vmax, 50);
    int lo = -span, hi = span;
    if (m.type == T::u8) { lo = low_u8 ? 0 : 60; hi = low_u8 ? span : 60 + span; }
    return lo + static_cast<int>(h % static_cast<unsigned>(hi - lo + 1));
  };
  for (int i = 0; i < 2; i++)
    for (int r = 0; r < ms[i]->rows; r++)
      for (int col = 0; col < ms[i]->cols; col++) Put(*ms[i], r, col, value(*ms[i], r, col));
  if (Quantized(c)) {
    c.mp.uniform = true;
    c.mp.mult = (1 << 30) + static_cast<int>(rng.range(0, 1000));
    c.mp.exponent = -rng.range(0, 20);
    if (!has16) c.dst.zp = rng.range(Lowest(ci.dst), Highest(ci.dst));
  }
  c.mp.channel_dim = rng.range(0, 1);
  std::vector<int> paths = UsablePaths();
  for (int rep = 0; rep < 2; rep++) {
    Config cfg;
    cfg.path = paths[rng.range(0, paths.size() - 1)];
    cfg.threads = rng.chance(1, 3) ? 1 : rng.chance(1, 8) ? rng.range(9, 70) : rng.range(2, 8);
    cfg.force_max = rng.chance(1, 2);
    cfg.spin_ms = 0;
    ruy::Context ctx;
    Apply(cfg, &ctx);
    const int local = LogDim(rng, 1 << 28);
    SetCaches(&ctx, local, std::max<std::int64_t>(local, LogDim(rng, 1 << 30)));
    char desc[400];
    snprintf(desc, sizeof desc, "%s %dx%dx%d strides %d,%d,%d orders %d%d%d %s", ci.name, d[0], d[1], d[2], c.lhs.stride, c.rhs.stride, c.dst.stride, c.lhs.order, c.rhs.order,
             c.dst.order, Describe(cfg).c_str());
    SetContext("%s", desc);
    RunMul(c, &ctx, 1);
    Tick();
    Count("muls");
    Max("largest_span_bytes", extent_max);
    Max("largest_dimension", std::max(d[0], std::max(d[1], d[2])));
    if (strided) Count("wide_stride_muls"); else Count("long_dimension_muls");
    if (extent_max > (1 << 30)) Count("spans_over_1GB");
    // Spot checks of the result.
    const int spots = std::min<std::int64_t>(64, std::max<std::int64_t>(4, 4000000 / d[1]));
    for (int k = 0; k < spots; k++) {
      int r = rng.range(0, d[0] - 1), col = rng.range(0, d[2] - 1);
      if (k == 0) { r = d[0] - 1; col = d[2] - 1; }
      if (k == 1) { r = 0; col = d[2] - 1; }
      if (k == 2) { r = d[0] - 1; col = 0; }
      Count("entries_checked");
      std::int64_t acc = 0;
      for (int z = 0; z < d[1]; z++)
        acc += std::int64_t(value(c.lhs, r, z) - c.lhs.zp) * (value(c.rhs, z, col) - c.rhs.zp);
      bool ok;
      if (IsFloat(ci.dst)) ok = c.dst.GetF(r, col) == static_cast<double>(acc);
      else if (RawInt(c)) ok = c.dst.GetI(r, col) == acc;
      else {
        std::int64_t q = RoundedScale(acc, c.mp.mult, c.mp.exponent) + c.dst.zp;
        q = std::max(Lowest(ci.dst), std::min(Highest(ci.dst), q));
        ok = std::llabs(c.dst.GetI(r, col) - q) <= 1;
      }
      if (!ok) {
        Violation("extreme-result", "entry (%d,%d) wrong; %s", r, col, desc);
        break;
      }
    }
    Distinct("extreme_problems", Mix(Mix(d[0], Mix(d[1], d[2])), Mix(c.combo, Mix(c.lhs.stride, Mix(c.rhs.stride, Mix(c.dst.stride, cfg.path))))));
    if (rng.chance(1, 150)) Sample(desc);
  }
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, [](const std::string&) { StartWatchdog(10, 200); },
              [](long index, Rng& rng) {
                if (args.mode == "plan") PlanMode(index, rng);
                else if (args.mode == "dry") Dry(index, rng);
                else if (args.mode == "exec") Exec(index, rng);
                else HarnessError("mode %s", args.mode.c_str());
              });
}
