// Numerical monitors: every destination entry of every executed multiplication
// is compared with an independently computed oracle.
//   mode int    : raw 32-bit results (exact)
//   mode quant  : requantized results on generated problems
//   mode qprobe : requantizer driven with chosen accumulators (zero operands,
//                 accumulator supplied through the bias), incl. monotonicity
//   mode qfunc  : the requantization function itself on chosen operands
//   mode float  : floating point, error bound / exactness
#include <algorithm>
#include <cmath>
#include <limits>

#include "problem.h"
#include "ruy/apply_multiplier.h"
#include "ruy/context.h"
#include "ruy/path.h"
#include "vf.h"

using namespace vf;

namespace {

std::vector<int> CombosWhere(bool (*pred)(const ComboInfo&)) {
  std::vector<int> v;
  for (int i = 0; i < kNumCombos; i++) {
    if (!pred(kCombos[i])) continue;
    v.push_back(i);
    // Types with dedicated vector code twice.
    const T l = kCombos[i].lhs, r = kCombos[i].rhs;
    if (l == r && (l == T::f32 || l == T::i8 || l == T::u8)) v.push_back(i);
  }
  return v;
}

GenOpts g_opts;
std::vector<std::unique_ptr<ruy::Context>> g_pool;

ruy::Context* PickContext(Rng& rng, std::unique_ptr<ruy::Context>* fresh) {
  if (rng.chance(1, 4)) {
    fresh->reset(new ruy::Context);
    return fresh->get();
  }
  if (g_pool.empty()) for (int i = 0; i < 2; i++) g_pool.emplace_back(new ruy::Context);
  return g_pool[rng.range(0, 1)].get();
}

Config PickConfig(Rng& rng, int path) {
  Config cfg;
  cfg.path = path;
  cfg.threads = rng.pick({1, 1, 1, 2, 3, 4, 8});
  cfg.force_max = rng.chance(1, 2);
  cfg.tuning = rng.range(0, 3);
  return cfg;
}

void RunProblem(long index, Rng& rng) {
  // Every 13th case: larger problem.
  GenOpts o = g_opts;
  if (index % 13 == 7) { o.max_macs *= 4; o.max_dim = 600; }
  if (index % 3 == 0) o.max_macs /= 16;
  if (!IsFloat(kCombos[o.combos[0]].dst) && index % 97 == 11) {
    // deep: accumulators far from zero
    o.force_rows = rng.range(1, 9);
    o.force_cols = rng.range(1, 9);
    o.force_depth = rng.range(3000, 8000);
  }
  if (index % 31 == 17) {  // very deep, very long or very widely spaced
    const int kind = rng.range(0, 3);
    int d[3] = {int(rng.range(1, 20)), int(rng.range(1, 20)), int(rng.range(1, 20))};
    o.bounded = true;
    if (kind <= 1) {
      for (int i = 0; i < 2; i++) d[i] = rng.chance(1, 2) ? 1 : rng.range(1, 17);
      if (rng.chance(2, 3)) d[rng.range(0, 1)] = rng.range(8, 40);
      d[2] = rng.chance(1, 3) ? rng.pick({65535, 65536, 65537, 131071, 131072, 131073}) : 1 << rng.range(13, 17);
      d[2] += rng.chance(1, 2) ? rng.range(0, 70) : rng.range(0, d[2] / 2);
      Count("very_deep_problems");
    } else if (kind == 2) {
      d[rng.range(0, 1)] = rng.chance(1, 2) ? rng.range(2000, 9000) : (1 << rng.range(12, 16)) + rng.range(-2, 17);
      Count("very_long_problems");
    } else {
      o.wide_strides = true;
      Count("very_wide_strides");
    }
    o.force_rows = d[0]; o.force_cols = d[1]; o.force_depth = d[2];
  }
  // Sums that leave 32 bits before the zero points are taken into account and
  // come back afterwards.
#ifdef VF_SANITIZED
  const bool wrap = false;  // partial sums that leave 32 bits are reported as such
#else
  const bool wrap = index % 211 == 5 && !IsFloat(kCombos[o.combos[0]].dst);
#endif
  if (wrap) {
    o.force_rows = rng.range(1, 5);
    o.force_cols = rng.range(1, 5);
    o.force_depth = rng.range(133000, 170000);
    o.wide_strides = false;
    o.allow_bias = false;
  }
  Prob p;
  Generate(rng, o, &p);
  if (wrap) {
    if (!RawInt(p.call) || SizeOf(p.call.lhs.type) != 1 || SizeOf(p.call.rhs.type) != 1) return;
    for (MatSpec* m : {&p.call.lhs, &p.call.rhs}) {
      const bool low = rng.chance(1, 2);
      const int edge = static_cast<int>(low ? Lowest(m->type) : Highest(m->type)), in = low ? 1 : -1;
      m->zp = edge + in * rng.range(1, 12);
      for (int i = 0; i < m->rows; i++)
        for (int j = 0; j < m->cols; j++) m->SetI(i, j, edge + in * (rng.chance(1, 20) ? rng.range(0, 20) : rng.range(0, 1)));
    }
    Count("wrapping_sums");
  }
  Ref ref;
  ComputeRef(p, &ref);
  if (!FloatCombo(p.call)) {
    for (std::size_t i = 0; i < ref.acc.size(); i++)
      if (ref.acc[i] > 2147483647ll || ref.acc[i] < -2147483648ll) { Count("skipped_out_of_domain"); return; }
  }
  if (Quantized(p.call))
    for (std::int64_t q : ref.q)
      if (q > 2147483647ll - 70000 || q < -2147483648ll + 70000) { Count("skipped_out_of_domain"); return; }
  Distinct("problems", p.ShapeHash());
  if (rng.chance(1, 50)) Sample(p.Describe());
  for (int path : UsablePaths()) {
    const bool simd = path >= 0x10;
    if (!simd && path != 1 && rng.chance(1, 2)) continue;
    std::unique_ptr<ruy::Context> fresh;
    ruy::Context* ctx = PickContext(rng, &fresh);
    Config cfg = PickConfig(rng, path);
    Apply(cfg, ctx);
    FillDst(rng, &p);
    SetContext("%s %s", p.Describe().c_str(), Describe(cfg).c_str());
    RunMul(p.call, ctx, (path == 1 || simd) && rng.chance(1, 2) ? 0 : 1);
    Tick();
    if (static_cast<int>(ctx->last_used_path()) != path) { Count("other_path"); }
    std::string err = CheckDst(p, ref, simd ? 1 : 0);
    if (!err.empty())
      Violation(FloatCombo(p.call) ? "float-value" : RawInt(p.call) ? "int-value" : "quant-value", "%s; %s; %s", err.c_str(),
                p.Describe().c_str(), Describe(cfg).c_str());
    Count(std::string("muls_") + PathName(path));
    Count("muls");
    Count("entries", std::uint64_t(p.call.dst.rows) * p.call.dst.cols);
    if (FloatCombo(p.call)) Count(p.exact_float ? "entries_exact" : "entries_bounded", std::uint64_t(p.call.dst.rows) * p.call.dst.cols);
    Distinct("configs", Mix(p.ShapeHash(), Mix(path, cfg.threads)));
  }
}

// Accumulators of interest for multiplier m, exponent e.
std::int64_t PickAcc(Rng& rng, std::int32_t m, int e) {
  const std::int64_t lim = std::int64_t(1) << 31;
  std::int64_t cap = lim - 1;
  if (e > 0) cap = (lim >> e) - 1;
  switch (rng.range(0, 7)) {
    case 0: return rng.range(-cap, cap);
    case 1: return rng.range(0, 1) ? cap - rng.range(0, 3) : -cap + rng.range(0, 3);
    case 2: return rng.range(-64, 64);
    case 3: {  // near a rounding tie: acc*m/2^(31-e) = k + 1/2
      if (m == 0) return 0;
      long double k = rng.range(-40000, 40000) + 0.5L;
      long double a = k * std::ldexp(1.0L, 31 - e) / m;
      if (std::fabs(a) > cap) a = std::fmod(a, static_cast<long double>(cap));
      return static_cast<std::int64_t>(std::floor(a)) + rng.range(-1, 2);
    }
    case 4: { std::int64_t v = std::int64_t(1) << rng.range(0, 30); v += rng.range(-2, 2); if (rng.chance(1, 2)) v = -v; return v; }
    case 5: {  // near the destination range limits
      if (m == 0) return 1;
      long double k = rng.pick({127, -128, 255, 0, 32767, -32768}) + rng.range(-2, 2);
      long double a = k * std::ldexp(1.0L, 31 - e) / m;
      if (std::fabs(a) > cap) a = std::fmod(a, static_cast<long double>(cap));
      return static_cast<std::int64_t>(a) + rng.range(-2, 2);
    }
    default: { std::int64_t v = rng.u64() >> (33 + rng.range(0, 30)); return rng.chance(1, 2) ? v : -v; }
  }
}

void PickMult(Rng& rng, std::int32_t* m, int* e) {
  *e = rng.range(-31, 7);
  if (rng.chance(1, 2)) *e = rng.range(-20, 3);
  switch (rng.range(0, 5)) {
    case 0: *m = rng.pick<std::int32_t>({0, 1, 2, 1 << 30, 2147483647, (1 << 30) + 1, (1 << 30) - 1, 2147483646}); break;
    case 1: *m = rng.range(0, 2147483647); break;
    default: *m = rng.range(1 << 30, 2147483647); break;
  }
}

void QProbe(long index, Rng& rng) {
  static const std::vector<int> combos = CombosWhere([](const ComboInfo& c) { return !IsFloat(c.dst) && c.dst != T::i32; });
  Prob p;
  Call& c = p.call;
  c.combo = combos[rng.range(0, combos.size() - 1)];
  const ComboInfo& ci = kCombos[c.combo];
  const int channels = rng.range(1, 120), other = rng.range(1, 20), depth = rng.range(1, 9);
  const bool monotone = rng.chance(1, 3);
  c.mp.channel_dim = rng.range(0, 1);
  const int rows = c.mp.channel_dim == kChRow ? channels : other, cols = c.mp.channel_dim == kChRow ? other : channels;
  c.lhs.type = ci.lhs; c.rhs.type = ci.rhs; c.dst.type = ci.dst;
  c.lhs.rows = rows; c.lhs.cols = depth; c.rhs.rows = depth; c.rhs.cols = cols; c.dst.rows = rows; c.dst.cols = cols;
  const bool has16 = ci.lhs == T::i16 || ci.rhs == T::i16;
  for (MatSpec* m : {&c.lhs, &c.rhs, &c.dst}) {
    m->order = rng.range(0, 1);
    m->stride = (m->order == kColMajor ? m->rows : m->cols) + (rng.chance(1, 3) ? rng.range(1, 9) : 0);
  }
#ifdef VF_SANITIZED
  const bool zero_points = false;  // extreme biases: intermediate sums would wrap
#else
  const bool zero_points = true;
#endif
  if (!has16) c.dst.zp = rng.chance(1, 3) ? 0 : rng.range(Lowest(ci.dst), Highest(ci.dst));
  if (!has16 && zero_points) {
    c.lhs.zp = rng.range(Lowest(ci.lhs) + 1, Highest(ci.lhs));
    c.rhs.zp = rng.range(Lowest(ci.rhs), Highest(ci.rhs));
  }
  p.lhs_buf.Init(c.lhs.Extent() * SizeOf(ci.lhs), Guard::kHeap);
  p.rhs_buf.Init(c.rhs.Extent() * SizeOf(ci.rhs), Guard::kHeap);
  p.dst_buf.Init(c.dst.Extent() * SizeOf(ci.dst), Guard::kHeap);
  c.lhs.data = p.lhs_buf.data(); c.rhs.data = p.rhs_buf.data(); c.dst.data = p.dst_buf.data();
  // operands entirely at the zero point: the accumulator is the bias
  FillMatrix(rng, c.lhs, 5, c.lhs.zp, c.lhs.zp, false);
  FillMatrix(rng, c.rhs, 5, c.rhs.zp, c.rhs.zp, false);
  c.mp.cap_rounding = rng.pick({1, 4, 8, 16, 32});
  const int cap = p.Capacity();
  p.bias_buf.Init(cap * 4, Guard::kHeap); p.mult_buf.Init(cap * 4, Guard::kHeap); p.exp_buf.Init(cap * 4, Guard::kHeap);
  memset(p.bias_buf.data(), 0, cap * 4); memset(p.mult_buf.data(), 0, cap * 4); memset(p.exp_buf.data(), 0, cap * 4);
  std::int32_t um; int ue;
  PickMult(rng, &um, &ue);
  c.mp.uniform = monotone ? rng.chance(1, 2) : rng.chance(1, 4);
  std::vector<std::int64_t> acc(channels);
  for (int i = 0; i < channels; i++) {
    std::int32_t m = um; int e = ue;
    if (!c.mp.uniform && !monotone) PickMult(rng, &m, &e);
    p.mult_buf.as<std::int32_t>()[i] = m;
    p.exp_buf.as<int>()[i] = e;
    for (int tries = 0;; tries++) {
      std::int64_t a = PickAcc(rng, m, e);
      if (tries > 50) a = 0;
      if (a > 2147483647ll || a < -2147483648ll) continue;
      if (e > 0 && (std::llabs(a) << e) > 2147483647ll) continue;
      std::int64_t q = RoundedScale(a, m, e);
      if (q > 2147483647ll - 70000 || q < -2147483648ll + 70000) continue;
      acc[i] = a;
      break;
    }
  }
  if (monotone) std::sort(acc.begin(), acc.end());
  for (int i = 0; i < channels; i++) p.bias_buf.as<std::int32_t>()[i] = static_cast<std::int32_t>(acc[i]);
  c.mp.bias = p.bias_buf.data();
  c.mp.mult = um; c.mp.exponent = ue;
  if (!c.mp.uniform) { c.mp.mult_pc = p.mult_buf.as<std::int32_t>(); c.mp.exp_pc = p.exp_buf.as<int>(); }
  if (rng.chance(1, 2)) {
    c.mp.has_clamp = true;
    int a = rng.range(Lowest(ci.dst), Highest(ci.dst)), b = rng.range(Lowest(ci.dst), Highest(ci.dst));
    c.mp.clamp_min_i = std::min(a, b);
    c.mp.clamp_max_i = std::max(a, b);
  }
  Ref ref;
  ComputeRef(p, &ref);
  if (rng.chance(1, 100)) Sample("probe " + p.Describe());
  for (int path : UsablePaths()) {
    const bool simd = path >= 0x10;
    std::unique_ptr<ruy::Context> fresh;
    ruy::Context* ctx = PickContext(rng, &fresh);
    Config cfg;
    cfg.path = path;
    cfg.threads = rng.pick({1, 1, 2, 4});
    cfg.force_max = true;
    Apply(cfg, ctx);
    FillDst(rng, &p);
    SetContext("probe %s %s", p.Describe().c_str(), Describe(cfg).c_str());
    RunMul(p.call, ctx, 1);
    Tick();
    std::string err = CheckDst(p, ref, simd ? 1 : 0);
    if (!err.empty()) Violation("quant-value", "%s; %s; %s", err.c_str(), p.Describe().c_str(), Describe(cfg).c_str());
    if (monotone) {
      for (int i = 1; i < channels; i++)
        for (int j = 0; j < other; j++) {
          auto at = [&](int ch) { return c.mp.channel_dim == kChRow ? c.dst.GetI(ch, j) : c.dst.GetI(j, ch); };
          if (at(i) < at(i - 1)) {
            Violation("not-monotone", "result falls from %lld to %lld as the accumulator rises from %lld to %lld; %s; %s", (long long)at(i - 1),
                      (long long)at(i), (long long)acc[i - 1], (long long)acc[i], p.Describe().c_str(), Describe(cfg).c_str());
            i = channels; break;
          }
        }
      Count("monotone_pairs", std::uint64_t(channels - 1) * other);
    }
    Count(std::string("probe_muls_") + PathName(path));
    Count("muls");
    Count("entries", std::uint64_t(rows) * cols);
  }
  for (int i = 0; i < channels; i++)
    Distinct("scalings", Mix(p.mult_buf.as<std::int32_t>()[i], Mix(p.exp_buf.as<int>()[i], acc[i])));
}

void QFunc(long, Rng& rng) {
  for (int n = 0; n < 2000; n++) {
    std::int32_t m; int e;
    PickMult(rng, &m, &e);
    std::int64_t a = PickAcc(rng, m, e);
    if (a > 2147483647ll || a < -2147483648ll) continue;
    std::int64_t q = RoundedScale(a, m, e);
    if (q > 2147483647ll || q < -2147483648ll) continue;
    std::int32_t got = ruy::detail::MultiplyByQuantizedMultiplier(static_cast<std::int32_t>(a), m, e);
    Count("function_evaluations");
    if (got != q) Violation("quant-function", "scaling %lld by %d*2^(%d-31): got %d expected %lld", (long long)a, m, e, got, (long long)q);
  }
  Tick();
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv,
              [](const std::string& mode) {
                StartWatchdog();
                g_opts.max_macs = 600000;
                if (mode == "int") g_opts.combos = CombosWhere([](const ComboInfo& c) { return c.dst == T::i32; });
                else if (mode == "quant") g_opts.combos = CombosWhere([](const ComboInfo& c) { return !IsFloat(c.dst) && c.dst != T::i32; });
                else if (mode == "float") g_opts.combos = CombosWhere([](const ComboInfo& c) { return IsFloat(c.dst); });
              },
              [](long index, Rng& rng) {
                if (args.mode == "qprobe") QProbe(index, rng);
                else if (args.mode == "qfunc") QFunc(index, rng);
                else RunProblem(index, rng);
              },
              [] { g_pool.clear(); });
}
