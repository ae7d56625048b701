// Monitors on which memory a multiplication depends on and touches.
//   mode local : entries compared bit for bit after unrelated data was
//                perturbed (P04)
//   mode sub   : sub-blocks as smaller multiplications (P04)
//   mode guard : guarded buffers, read-only inputs, guarded and patterned
//                scratch memory (P05)
//   mode heap  : same workload for the address sanitizer (P05)
//   mode chan  : per-channel buffers at their exact capacity (P13)
#include <algorithm>
#include <cmath>
#include <limits>

#include "ctxutil.h"
#include "problem.h"
#include "ruy/performance_advisory.h"
#include "sysalloc.h"
#include "vf.h"
#include "wrap.h"

using namespace vf;

namespace {

int PickPath(Rng& rng) {
  auto v = UsablePaths();
  if (rng.chance(1, 3)) return v[rng.range(0, v.size() - 1)];
  return v[v.size() - 1 - rng.range(0, std::min<int>(2, v.size() - 1))];
}

Config PickConfig(Rng& rng) {
  Config c;
  c.path = PickPath(rng);
  c.threads = rng.pick({1, 1, 1, 2, 3, 4});
  c.force_max = rng.chance(1, 2);
  c.tuning = rng.range(0, 3);
  return c;
}

// Element k of row r (lhs) or of column r (rhs).
std::int64_t ElemOff(const MatSpec& m, bool lhs, int idx, int k) { return lhs ? m.Off(idx, k) : m.Off(k, idx); }

void PutHostile(Rng& rng, const MatSpec& m, std::int64_t off, int style, std::int64_t lo, std::int64_t hi) {
  if (m.type == T::f32 || m.type == T::f64) {
    double v;
    switch (style) {
      case 0: v = std::numeric_limits<double>::quiet_NaN(); break;
      case 1: v = std::numeric_limits<double>::infinity(); break;
      case 2: v = -std::numeric_limits<double>::infinity(); break;
      case 3: v = rng.chance(1, 2) ? 3e38 : -3e38; break;
      default: v = rng.unit() * 2 - 1; break;
    }
    if (m.type == T::f32) static_cast<float*>(m.data)[off] = static_cast<float>(v);
    else static_cast<double*>(m.data)[off] = v;
    return;
  }
  std::int64_t v = style == 0 ? lo : style == 1 ? hi : style == 2 ? (rng.chance(1, 2) ? lo : hi) : rng.range(lo, hi);
  switch (m.type) {
    case T::i8: static_cast<std::int8_t*>(m.data)[off] = static_cast<std::int8_t>(v); break;
    case T::u8: static_cast<std::uint8_t*>(m.data)[off] = static_cast<std::uint8_t>(v); break;
    case T::i16: static_cast<std::int16_t*>(m.data)[off] = static_cast<std::int16_t>(v); break;
    default: break;
  }
}

// Fills everything in the extent that is not an entry with noise.
void NoiseGaps(Rng& rng, const MatSpec& m) {
  const int inner = m.order == kColMajor ? m.rows : m.cols, outer = m.order == kColMajor ? m.cols : m.rows;
  const int sz = SizeOf(m.type);
  if (m.stride == inner) return;
  const int kind = rng.range(0, 2);
  for (int o = 0; o + 1 < outer; o++) {
    std::uint8_t* b = static_cast<std::uint8_t*>(m.data) + (std::int64_t(o) * m.stride + inner) * sz;
    const std::size_t n = std::size_t(m.stride - inner) * sz;
    if (kind == 0) memset(b, 0xFF, n);
    else if (kind == 1) memset(b, 0x80, n);
    else for (std::size_t i = 0; i < n; i++) b[i] = static_cast<std::uint8_t>(rng.u64());
  }
}

void RangeOf(const Prob& p, bool lhs, std::int64_t* lo, std::int64_t* hi) {
  const MatSpec& m = lhs ? p.call.lhs : p.call.rhs;
  *lo = Lowest(m.type);
  *hi = Highest(m.type);
  if (m.type == T::i16) {
    std::int64_t r = (std::int64_t(1) << 30) / (256 * std::int64_t(p.call.lhs.cols));
    std::int64_t lim = std::min<std::int64_t>(32767, std::max<std::int64_t>(1, r));
    *hi = lim;
    *lo = lim == 32767 ? -32768 : -lim;
  }
}

// ------------------------------------------------------------------- local
bool IsNan(T t, const void* p) {
  if (t == T::f32) { float f; memcpy(&f, p, sizeof f); return f != f; }
  if (t == T::f64) { double f; memcpy(&f, p, sizeof f); return f != f; }
  return false;
}

// Makes whole depth slices of one operand neutral (zero, or its zero point),
// with infinities, NaNs or extreme values facing them in the other operand.
void Sparsify(Rng& rng, Prob* p) {
  Call& c = p->call;
  const int R = c.dst.rows, C = c.dst.cols, K = c.lhs.cols;
  const bool zero_rhs = rng.chance(1, 2);
  const int period = rng.range(1, 4);
  std::int64_t lo, hi;
  RangeOf(*p, zero_rhs, &lo, &hi);
  for (int k = 0; k < K; k++) {
    if (rng.range(0, period)) continue;
    for (int i = 0; i < (zero_rhs ? C : R); i++) {
      const MatSpec& m = zero_rhs ? c.rhs : c.lhs;
      const std::int64_t off = ElemOff(m, !zero_rhs, i, k);
      switch (m.type) {
        case T::f32: static_cast<float*>(m.data)[off] = 0; break;
        case T::f64: static_cast<double*>(m.data)[off] = 0; break;
        case T::i16: static_cast<std::int16_t*>(m.data)[off] = static_cast<std::int16_t>(m.zp); break;
        case T::i32: static_cast<std::int32_t*>(m.data)[off] = m.zp; break;
        default: static_cast<std::uint8_t*>(m.data)[off] = static_cast<std::uint8_t>(m.zp); break;
      }
    }
    for (int i = 0; i < (zero_rhs ? R : C); i++)
      if (rng.chance(1, 3)) PutHostile(rng, zero_rhs ? c.lhs : c.rhs, ElemOff(zero_rhs ? c.lhs : c.rhs, zero_rhs, i, k), rng.range(0, 3), lo, hi);
  }
  Count("sparse_problems");
}

void Local(long index, Rng& rng) {
  GenOpts o;
  o.max_macs = rng.chance(1, 8) ? 1 << 19 : 60000;
  o.max_dim = 200;
  if (rng.chance(1, 3)) o.combos = {0};
  Prob p;
  Generate(rng, o, &p);
  Call& c = p.call;
  Config cfg = PickConfig(rng);
  ruy::Context ctx;
  Apply(cfg, &ctx);
  if (rng.chance(1, 2)) RandomCaches(rng, &ctx);
  SetContext("%s %s", p.Describe().c_str(), Describe(cfg).c_str());
  const int sz = SizeOf(c.dst.type), R = c.dst.rows, C = c.dst.cols, K = c.lhs.cols;
  if (rng.chance(1, 4)) Sparsify(rng, &p);
  RunMul(c, &ctx, 1);
  const std::vector<std::uint8_t> base = Entries(c.dst);
  const int style = rng.range(0, 4);
  // Choose the rows, columns and channels to disturb.
  std::vector<char> row_hit(R, 0), col_hit(C, 0);
  const int what = rng.range(0, 5);
  auto choose = [&](std::vector<char>* v) {
    const int n = static_cast<int>(v->size());
    switch (rng.range(0, 3)) {
      case 0: (*v)[rng.range(0, n - 1)] = 1; break;                                       // one
      case 1: for (auto& x : *v) x = rng.chance(1, 2); break;                             // many
      case 2: { v->assign(n, 1); (*v)[rng.range(0, n - 1)] = 0; break; }                  // all but one
      default: { int b = rng.range(0, n - 1), k = rng.range(0, n - 1); for (int i = std::min(b, k); i <= std::max(b, k); i++) (*v)[i] = 1; }
    }
  };
  if (what == 0 || what >= 2) choose(&row_hit);
  if (what == 1 || what >= 2) choose(&col_hit);
  std::int64_t lo, hi;
  RangeOf(p, true, &lo, &hi);
  for (int r = 0; r < R; r++)
    if (row_hit[r])
      for (int k = 0; k < K; k++) if (style < 4 || rng.chance(1, 2)) PutHostile(rng, c.lhs, ElemOff(c.lhs, true, r, k), style, lo, hi);
  RangeOf(p, false, &lo, &hi);
  for (int j = 0; j < C; j++)
    if (col_hit[j])
      for (int k = 0; k < K; k++) if (style < 4 || rng.chance(1, 2)) PutHostile(rng, c.rhs, ElemOff(c.rhs, false, j, k), style, lo, hi);
  // channels: disturb the parameters of channels whose entries are anyway
  // disturbed, or of a random subset which then counts as disturbed
  std::vector<char>& ch = c.mp.channel_dim == kChRow ? row_hit : col_hit;
  if (rng.chance(1, 2)) {
    if (rng.chance(1, 2)) {
      std::vector<char> more(ch.size(), 0);
      choose(&more);
      for (std::size_t i = 0; i < ch.size(); i++) ch[i] |= more[i];
    }
    for (std::size_t i = 0; i < ch.size(); i++)
      if (ch[i]) {
        if (c.mp.bias) {
          if (ComboOf(c).acc == T::f32) p.bias_buf.as<float>()[i] = style == 0 ? NAN : 1e30f;
          else if (ComboOf(c).acc == T::f64) p.bias_buf.as<double>()[i] = style == 0 ? NAN : 1e30;
          else p.bias_buf.as<std::int32_t>()[i] = 0;
        }
        if (c.mp.mult_pc) {
          p.mult_buf.as<std::int32_t>()[i] = rng.pick<std::int32_t>({0, 1, 1 << 30, 2147483647});
          p.exp_buf.as<int>()[i] = rng.range(-31, 0);
        }
      }
    Count("channel_disturbances");
  }
  NoiseGaps(rng, c.lhs);
  NoiseGaps(rng, c.rhs);
  FillDst(rng, &p);
  if (rng.chance(1, 4)) memset(p.dst_buf.data(), 0xFF, p.dst_buf.bytes());
  std::unique_ptr<ruy::Context> other;
  ruy::Context* ctx2 = &ctx;
  if (rng.chance(1, 2)) { other.reset(new ruy::Context); ctx2 = other.get(); Apply(cfg, ctx2); }
  RunMul(c, ctx2, 1);
  const std::vector<std::uint8_t> got = Entries(c.dst);
  std::uint64_t same = 0;
  for (int r = 0; r < R && !TooManyViolations(); r++)
    for (int j = 0; j < C; j++) {
      if (row_hit[r] || col_hit[j]) continue;
      same++;
      const std::size_t i = (std::size_t(r) * C + j) * sz;
      if (memcmp(&base[i], &got[i], sz) && !(IsNan(c.dst.type, &base[i]) && IsNan(c.dst.type, &got[i]))) {
        Violation("not-local", "entry (%d,%d) changed although only other rows, columns, channels, gaps or the old destination changed; %s; %s style %d",
                  r, j, p.Describe().c_str(), Describe(cfg).c_str(), style);
        r = R;
        break;
      }
    }
  Count("entries_compared", same);
  Count("muls", 2);
  if (same) Distinct("problems", Mix(p.ShapeHash(), Mix(style, cfg.path)));
  if (same && rng.chance(1, 60)) Sample(p.Describe() + " " + Describe(cfg) + " undisturbed=" + std::to_string(same));
  Tick();
}

// ------------------------------------------------------------------- sub
void Sub(long index, Rng& rng) {
  GenOpts o;
  o.max_macs = 60000;
  o.max_dim = 150;
  for (int i = 0; i < kNumCombos; i++) if (!IsFloat(kCombos[i].dst)) o.combos.push_back(i);
  Prob p;
  Generate(rng, o, &p);
  Call& c = p.call;
  Config cfg = PickConfig(rng);
  ruy::Context ctx;
  Apply(cfg, &ctx);
  SetContext("%s %s", p.Describe().c_str(), Describe(cfg).c_str());
  RunMul(c, &ctx, 1);
  const std::vector<std::uint8_t> base = Entries(c.dst);
  const int sz = SizeOf(c.dst.type);
  for (int rep = 0; rep < 3; rep++) {
    int r0 = rng.range(0, c.dst.rows - 1), r1 = rng.range(r0 + 1, c.dst.rows);
    int c0 = rng.range(0, c.dst.cols - 1), c1 = rng.range(c0 + 1, c.dst.cols);
    if (rng.chance(1, 3)) { r0 = 0; r1 = c.dst.rows; }
    else if (rng.chance(1, 3)) { c0 = 0; c1 = c.dst.cols; }
    else if (rng.chance(1, 3)) { c1 = c0 + 1; }
    
    Call s = c;
    auto view = [](MatSpec* m, int ra, int rb, int ca, int cb) {
      m->data = static_cast<char*>(m->data) + m->Off(ra, ca) * SizeOf(m->type);
      m->rows = rb - ra;
      m->cols = cb - ca;
    };
    view(&s.lhs, r0, r1, 0, c.lhs.cols);
    view(&s.rhs, 0, c.lhs.cols, c0, c1);
    s.dst.rows = r1 - r0;
    s.dst.cols = c1 - c0;
    s.dst.order = c.dst.order;
    s.dst.stride = (s.dst.order == kColMajor ? s.dst.rows : s.dst.cols) + rng.range(0, 3);
    GuardBuf db(s.dst.Extent() * sz, Guard::kHeap);
    s.dst.data = db.data();
    const int ch0 = c.mp.channel_dim == kChRow ? r0 : c0;
    s.mp.cap_rounding = 1;
    if (s.mp.bias) s.mp.bias = static_cast<const std::int32_t*>(s.mp.bias) + ch0;
    if (s.mp.mult_pc) { s.mp.mult_pc += ch0; s.mp.exp_pc += ch0; }
    RunMul(s, &ctx, 1);
    const std::vector<std::uint8_t> got = Entries(s.dst);
    for (int r = r0; r < r1; r++)
      for (int j = c0; j < c1; j++) {
        const std::uint8_t* a = &base[(std::size_t(r) * c.dst.cols + j) * sz];
        const std::uint8_t* b = &got[(std::size_t(r - r0) * s.dst.cols + (j - c0)) * sz];
        if (memcmp(a, b, sz)) {
          std::int64_t va = 0, vb = 0;
          memcpy(&va, a, sz);
          memcpy(&vb, b, sz);
          Violation("sub-block", "entry (%d,%d) differs (%llx, %llx) when rows %d..%d, columns %d..%d are multiplied alone; %s; %s", r, j, (long long)va,
                    (long long)vb, r0, r1, c0, c1,
                    p.Describe().c_str(), Describe(cfg).c_str());
          r = r1;
          break;
        }
      }
    Count("sub_entries", got.size() / sz);
    Distinct("sub_problems", Mix(p.ShapeHash(), Mix(Mix(r0, r1), Mix(c0, c1))));
    Tick();
    if (TooManyViolations()) return;
  }
}

// ------------------------------------------------------------------- guard
bool GapsUnchanged(const MatSpec& m, const std::vector<std::uint8_t>& before, const std::vector<std::uint8_t>& after) {
  const int inner = m.order == kColMajor ? m.rows : m.cols, outer = m.order == kColMajor ? m.cols : m.rows;
  const int sz = SizeOf(m.type);
  for (int o = 0; o + 1 < outer; o++) {
    std::size_t a = (std::size_t(o) * m.stride + inner) * sz, b = (std::size_t(o) + 1) * m.stride * sz;
    if (memcmp(&before[a], &after[a], b - a)) return false;
  }
  return true;
}

void GuardMode(long index, Rng& rng, bool heap) {
  const int steps = rng.range(1, 3);
  const std::uint8_t pat[2] = {static_cast<std::uint8_t>(rng.pick({0x00, 0x00, 0x7F, 0x01})), static_cast<std::uint8_t>(rng.pick({0xFF, 0x80, 0xA5}))};
  std::vector<std::unique_ptr<Prob>> probs;
  std::vector<Config> cfgs;
  for (int i = 0; i < steps; i++) {
    GenOpts o;
    o.max_macs = heap ? (rng.chance(1, 8) ? 200000 : 20000) : (rng.chance(1, 8) ? 1 << 20 : 60000);
    o.max_dim = 220;
    o.random_guard = !heap;
    o.cache_policies = rng.chance(1, 4);
    if (rng.chance(1, 4)) o.combos = {0};
    if (rng.chance(1, 6)) {  // residual sizes around the packing granularity
      o.force_rows = rng.range(1, 20);
      o.force_cols = rng.range(1, 20);
      o.force_depth = rng.range(1, 140);
    }
    probs.emplace_back(new Prob);
    Generate(rng, o, probs.back().get());
    cfgs.push_back(PickConfig(rng));
  }
  std::vector<std::vector<std::uint8_t>> first;
  const int rounds = heap ? 1 : 2;
  for (int round = 0; round < rounds; round++) {
    if (!heap) SetAllocMode(AllocMode::kGuard, pat[round]);
    {
      ruy::Context ctx;
      for (int i = 0; i < steps; i++) {
        Prob& p = *probs[i];
        Apply(cfgs[i], &ctx);
        SetContext("%s %s", p.Describe().c_str(), Describe(cfgs[i]).c_str());
        if (rng.chance(1, 3)) RandomCaches(rng, &ctx);
        FillDst(rng, &p);
        const std::vector<std::uint8_t> before = Raw(p.call.dst);
        std::vector<std::uint64_t> in;
        GuardBuf* ins[5] = {&p.lhs_buf, &p.rhs_buf, &p.bias_buf, &p.mult_buf, &p.exp_buf};
        for (GuardBuf* b : ins) {
          in.push_back(b->bytes() ? HashBytes(b->data(), b->bytes()) : 0);
          if (!heap) b->Protect(true);
        }
        RunMul(p.call, &ctx, 1);
        for (int k = 0; k < 5; k++) {
          ins[k]->Protect(false);
          if ((ins[k]->bytes() ? HashBytes(ins[k]->data(), ins[k]->bytes()) : 0) != in[k])
            Violation("input-modified", "input buffer %d changed; %s; %s", k, p.Describe().c_str(), Describe(cfgs[i]).c_str());
        }
        const std::vector<std::uint8_t> after = Raw(p.call.dst);
        if (!GapsUnchanged(p.call.dst, before, after))
          Violation("gap-written", "a gap between the destination's rows or columns was written; %s; %s", p.Describe().c_str(), Describe(cfgs[i]).c_str());
        if (!p.dst_buf.CheckCanaries())
          Violation("dst-overrun", "memory next to the destination was written; %s; %s", p.Describe().c_str(), Describe(cfgs[i]).c_str());
        for (GuardBuf* b : ins)
          if (!b->CheckCanaries()) Violation("input-overrun", "memory next to an input was written; %s", p.Describe().c_str());
        std::vector<std::uint8_t> e = Entries(p.call.dst);
        if (round == 0) first.push_back(e);
        else if (e != first[i])
          Violation("uninitialised", "result depends on the previous contents of scratch memory (step %d); %s; %s", i, p.Describe().c_str(), Describe(cfgs[i]).c_str());
        Count("muls");
        Count("guarded_bytes", p.lhs_buf.bytes() + p.rhs_buf.bytes() + p.dst_buf.bytes());
        Distinct(heap ? "heap_problems" : "problems", Mix(p.ShapeHash(), cfgs[i].path));
        if (p.call.dst.stride > (p.call.dst.order == kColMajor ? p.call.dst.rows : p.call.dst.cols)) Count("strided_destinations");
        if (cfgs[i].threads > 1) Count("multi_thread_configs");
        if (rng.chance(1, 80)) Sample(p.Describe() + " " + Describe(cfgs[i]));
        Tick();
      }
    }
    if (!heap && GetAllocStats().live_blocks != 0) Violation("leak", "%lld scratch blocks still held", (long long)GetAllocStats().live_blocks);
  }
  if (!heap) Count("scratch_pattern_pairs", steps);
  SetAllocMode(AllocMode::kPass);
}

// ------------------------------------------------------------------- chan
void Chan(long index, Rng& rng) {
  static Plan plan;
  plan.record = false;
  static std::unique_ptr<ruy::Context> ctx;
  if (!ctx || rng.chance(1, 10)) ctx.reset(new ruy::Context);
  GenOpts o;
  o.max_macs = 20000;
  o.max_dim = 80;
  o.random_guard = true;
  if (rng.chance(1, 2)) { o.force_rows = rng.range(1, 40); o.force_cols = rng.range(1, 40); o.force_depth = rng.range(1, 20); }
  Prob p;
  Generate(rng, o, &p);
  Call& c = p.call;
  const int channels = p.Channels();
  const bool per_ch = c.mp.mult_pc != nullptr;
  Config cfg = PickConfig(rng);
  Apply(cfg, ctx.get());
  SetContext("%s %s", p.Describe().c_str(), Describe(cfg).c_str());
  // exact capacity, read-only, guarded
  p.bias_buf.Protect(true);
  p.mult_buf.Protect(true);
  p.exp_buf.Protect(true);
  plan.Reset();
  InstallPlan(&plan);
  RunMul(c, ctx.get(), 1);
  InstallPlan(nullptr);
  const std::vector<std::uint8_t> got = Entries(c.dst);
  const bool adv = ctx->performance_advisory(ruy::PerformanceAdvisory::kReallocatedPerChannelBuffer);
  p.bias_buf.Protect(false);
  p.mult_buf.Protect(false);
  p.exp_buf.Protect(false);
  if (!plan.intercepted) HarnessError("not intercepted");
  // A row-major destination is computed transposed.
  const int side = (c.mp.channel_dim == kChRow ? 0 : 1) ^ (c.dst.order == kRowMajor ? 1 : 0);
  const int kw = plan.kernel_dims[side];
  const int needed = (channels + kw - 1) / kw * kw;
  const bool supplied = c.mp.bias != nullptr || per_ch;
  const bool expect = supplied && p.Capacity() < needed;
  if (adv != expect)
    Violation(adv ? "advisory-spurious" : "advisory-missing", "advisory %d, but capacity is %d and the path needs %d, buffers supplied: %d; %s; %s", adv,
              p.Capacity(), needed, supplied, p.Describe().c_str(), Describe(cfg).c_str());
  // ample zero-padded buffers
  GuardBuf b2, m2, e2;
  Call a = c;
  a.mp.cap_rounding = 128;
  const int cap = (channels + 127) / 128 * 128;
  auto grow = [&](GuardBuf* to, const void* from, int esz) {
    to->Init(std::size_t(cap) * esz, Guard::kHeap);
    memset(to->data(), 0, std::size_t(cap) * esz);
    memcpy(to->data(), from, std::size_t(channels) * esz);
  };
  if (c.mp.bias) { grow(&b2, c.mp.bias, SizeOf(ComboOf(c).acc)); a.mp.bias = b2.data(); }
  if (per_ch) {
    grow(&m2, c.mp.mult_pc, 4);
    grow(&e2, c.mp.exp_pc, 4);
    a.mp.mult_pc = m2.as<std::int32_t>();
    a.mp.exp_pc = e2.as<int>();
  }
  FillDst(rng, &p);
  RunMul(a, ctx.get(), 1);
  if (ctx->performance_advisory(ruy::PerformanceAdvisory::kReallocatedPerChannelBuffer))
    Violation("advisory-sticky", "advisory reported although ample capacity was declared; %s", p.Describe().c_str());
  if (Entries(a.dst) != got)
    Violation("capacity-changes-result", "different result with ample per-channel buffers; %s; %s", p.Describe().c_str(), Describe(cfg).c_str());
  // and against the numerical oracle
  Ref ref;
  ComputeRef(p, &ref);
  bool in_domain = true;
  for (std::int64_t v : ref.acc) if (v > 2147483647ll || v < -2147483648ll) in_domain = false;
  for (std::int64_t v : ref.q) if (v > 2147483647ll - 70000 || v < -2147483648ll + 70000) in_domain = false;
  if (in_domain) {
    std::string err = CheckDst(p, ref, 1);
    if (!err.empty()) Violation("channel-result", "%s; %s; %s", err.c_str(), p.Describe().c_str(), Describe(cfg).c_str());
  }
  Count("muls", 2);
  if (supplied) {
    Count(expect ? "advisory_expected" : "advisory_not_expected");
    Distinct("channel_configs", Mix(Mix(channels, c.mp.cap_rounding), Mix(c.combo, Mix(cfg.path, c.mp.channel_dim * 2 + c.dst.order))));
    if (per_ch) Count("per_channel_muls");
  } else {
    Count("no_buffers");
  }
  if (supplied && rng.chance(1, 100)) Sample(p.Describe() + " " + Describe(cfg) + (adv ? " advisory" : ""));
  Tick();
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, [](const std::string&) { StartWatchdog(); },
              [](long index, Rng& rng) {
                if (args.mode == "local") Local(index, rng);
                else if (args.mode == "sub") Sub(index, rng);
                else if (args.mode == "guard") GuardMode(index, rng, false);
                else if (args.mode == "heap") GuardMode(index, rng, true);
                else if (args.mode == "chan") Chan(index, rng);
                else HarnessError("mode %s", args.mode.c_str());
              });
}
