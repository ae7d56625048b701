#include "problem.h"

#include <cmath>
#include <limits>

#include "combos.h"
#include "ruy/context.h"
#include "ruy/path.h"
#include "ruy/strategy_controls.h"
#include "ruy/thread_pool.h"
#include "ruy/tune.h"

namespace vf {

#define VF_DECL(n, name, l, r, a, d) void RunCombo##n(const Call&, ruy::Context*, int);
VF_FOREACH_COMBO(VF_DECL)
#define VF_ENT(n, name, l, r, a, d) {name, l, r, a, d, &RunCombo##n},
const ComboInfo kCombos[] = {VF_FOREACH_COMBO(VF_ENT)};
const int kNumCombos = VF_NUM_COMBOS;

int SizeOf(T t) {
  switch (t) {
    case T::f32: return 4;
    case T::f64: return 8;
    case T::i8: case T::u8: return 1;
    case T::i16: return 2;
    case T::i32: return 4;
  }
  return 0;
}
bool IsFloat(T t) { return t == T::f32 || t == T::f64; }
const char* Name(T t) {
  const char* n[] = {"f32", "f64", "i8", "u8", "i16", "i32"};
  return n[static_cast<int>(t)];
}
std::int64_t Lowest(T t) {
  switch (t) {
    case T::i8: return -128;
    case T::u8: return 0;
    case T::i16: return -32768;
    default: return std::numeric_limits<std::int32_t>::lowest();
  }
}
std::int64_t Highest(T t) {
  switch (t) {
    case T::i8: return 127;
    case T::u8: return 255;
    case T::i16: return 32767;
    default: return std::numeric_limits<std::int32_t>::max();
  }
}

double MatSpec::GetF(int r, int c) const {
  const std::int64_t o = Off(r, c);
  return type == T::f32 ? static_cast<const float*>(data)[o] : static_cast<const double*>(data)[o];
}
std::int64_t MatSpec::GetI(int r, int c) const {
  const std::int64_t o = Off(r, c);
  switch (type) {
    case T::i8: return static_cast<const std::int8_t*>(data)[o];
    case T::u8: return static_cast<const std::uint8_t*>(data)[o];
    case T::i16: return static_cast<const std::int16_t*>(data)[o];
    case T::i32: return static_cast<const std::int32_t*>(data)[o];
    default: return 0;
  }
}
static void PutI(const MatSpec& m, std::int64_t o, std::int64_t v) {
  switch (m.type) {
    case T::i8: static_cast<std::int8_t*>(m.data)[o] = static_cast<std::int8_t>(v); break;
    case T::u8: static_cast<std::uint8_t*>(m.data)[o] = static_cast<std::uint8_t>(v); break;
    case T::i16: static_cast<std::int16_t*>(m.data)[o] = static_cast<std::int16_t>(v); break;
    case T::i32: static_cast<std::int32_t*>(m.data)[o] = static_cast<std::int32_t>(v); break;
    default: break;
  }
}

void MatSpec::SetI(int r, int c, std::int64_t v) { PutI(*this, Off(r, c), v); }

const ComboInfo& ComboOf(const Call& c) { return kCombos[c.combo]; }
bool FloatCombo(const Call& c) { return IsFloat(ComboOf(c).dst); }
bool RawInt(const Call& c) { return ComboOf(c).dst == T::i32; }
bool Quantized(const Call& c) { return !FloatCombo(c) && !RawInt(c); }
int ComboByName(const char* name) {
  for (int i = 0; i < kNumCombos; i++) if (!strcmp(kCombos[i].name, name)) return i;
  HarnessError("no combo %s", name);
}

void RunMul(const Call& c, ruy::Context* ctx, int compiled) { ComboOf(c).run(c, ctx, compiled); }

int UsableMask() {
  __builtin_cpu_init();
  int m = 1;
  if (__builtin_cpu_supports("avx")) m |= 0x10;
  if (__builtin_cpu_supports("avx2") && __builtin_cpu_supports("fma")) m |= 0x20;
  if (__builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512vl") && __builtin_cpu_supports("avx512cd") &&
      __builtin_cpu_supports("avx512bw") && __builtin_cpu_supports("avx512dq"))
    m |= 0x40;
  return m;
}
std::vector<int> UsablePaths(bool with_variants) {
  std::vector<int> v{1};
  if (with_variants) { v.push_back(2); v.push_back(4); v.push_back(8); }
  int m = UsableMask();
  for (int b : {0x10, 0x20, 0x40}) if (m & b) v.push_back(b);
  return v;
}
const char* PathName(int b) {
  switch (b) {
    case 1: return "portable";
    case 2: return "variant1";
    case 4: return "variant2";
    case 8: return "variant3";
    case 0x10: return "avx";
    case 0x20: return "avx2";
    case 0x40: return "avx512";
  }
  return "default";
}

// ------------------------------------------------------------------ generate
static int PickDim(Rng& rng, int max_dim) {
  int d;
  switch (rng.range(0, 7)) {
    case 0: d = rng.range(1, 8); break;
    case 1: d = rng.range(1, 20); break;
    case 2: d = rng.range(1, 40); break;
    case 3: d = 8 * rng.range(1, 12) + rng.range(-2, 2); break;
    case 4: d = 16 * rng.range(1, 12) + rng.range(-2, 2); break;
    case 5: d = rng.range(1, 130); break;
    case 6: d = rng.pick({1, 2, 4, 8, 16, 32, 64, 128, 256}); break;
    default: d = rng.range(1, 300); break;
  }
  if (d < 1) d = 1;
  if (d > max_dim) d = static_cast<int>(rng.range(1, max_dim));
  return d;
}

void PickShape(Rng& rng, std::int64_t max_macs, int max_dim, int* rows, int* cols, int* depth) {
  *rows = PickDim(rng, max_dim);
  *cols = PickDim(rng, max_dim);
  *depth = PickDim(rng, max_dim);
  const int kind = rng.range(0, 15);
  if (kind == 0) { *cols = 1; *rows = rng.range(1, 1200); }
  else if (kind == 1) { *rows = 1; *cols = rng.range(1, 1200); }
  else if (kind == 2) { *depth = rng.range(300, 3000); *rows = rng.range(1, 20); *cols = rng.range(1, 20); }
  else if (kind == 3) { *depth = rng.range(1, 6); }
  else if (kind == 4) { *cols = rng.range(1, 5); *rows = rng.range(1, 600); }
  while (std::int64_t(*rows) * *cols * *depth > max_macs) {
    int* big = rows;
    if (*cols > *big) big = cols;
    if (*depth > *big) big = depth;
    *big = std::max<int>(1, *big / 2 + rng.range(0, 1));
  }
}

void FillMatrix(Rng& rng, const MatSpec& m, int style, std::int64_t lo, std::int64_t hi, bool dyadic) {
  const std::int64_t n = m.Extent();
  if (IsFloat(m.type)) {
    const int scale = rng.range(-12, 12);
    const double cst = rng.unit() * 2 - 1;
    for (std::int64_t i = 0; i < n; i++) {
      double v;
      if (dyadic) {
        v = static_cast<double>(rng.range(-8, 8));
        if (style == 3 && !rng.chance(1, 8)) v = 0;
        if (style == 2) v = 3;
      } else {
        v = rng.unit() * 2 - 1;
        // keep magnitudes away from zero so that no denormals can appear
        if (std::fabs(v) < 1e-3) v = 1e-3;
        if (style == 1) v = std::ldexp(v, rng.range(-8, 8));
        if (style == 2) v = cst;
        if (style == 3 && !rng.chance(1, 8)) v = 0;
        if (style == 4 && rng.chance(1, 2)) v = -v;
        v = std::ldexp(v, scale);
      }
      if (m.type == T::f32) static_cast<float*>(m.data)[i] = static_cast<float>(v);
      else static_cast<double*>(m.data)[i] = v;
    }
    return;
  }
  const std::int64_t cst = rng.range(lo, hi);
  for (std::int64_t i = 0; i < n; i++) {
    std::int64_t v = rng.range(lo, hi);
    switch (style) {
      case 1: v = rng.chance(7, 8) ? (rng.chance(1, 2) ? lo : hi) : v; break;
      case 2: v = cst; break;
      case 3: v = rng.chance(1, 8) ? v : m.zp; if (v < lo) v = lo; if (v > hi) v = hi; break;
      case 4: v = std::max(lo, std::min<std::int64_t>(hi, m.zp + rng.range(-3, 3))); break;
      case 5: v = hi; break;
      case 6: v = lo; break;
      default: break;
    }
    PutI(m, i, v);
  }
}

static Guard PickGuard(Rng& rng, const GenOpts& o, Guard dflt) {
  if (!o.random_guard) return dflt;
  return rng.chance(2, 3) ? Guard::kEnd : Guard::kStart;
}

static int PickPad(Rng& rng, int inner) {
  switch (rng.range(0, 4)) {
    case 0: return rng.range(1, 5);
    case 1: return rng.range(1, 40);
    case 2: return (64 - inner % 64) % 64;
    case 3: return (16 - inner % 16) % 16;
    default: return 1;
  }
}

void Generate(Rng& rng, const GenOpts& o, Prob* p) {
  Call& c = p->call;
  c.combo = o.combos.empty() ? static_cast<int>(rng.range(0, kNumCombos - 1))
                             : o.combos[rng.range(0, o.combos.size() - 1)];
  const ComboInfo& ci = kCombos[c.combo];
  int rows, cols, depth;
  PickShape(rng, o.max_macs, o.max_dim, &rows, &cols, &depth);
  if (o.force_rows) rows = o.force_rows;
  if (o.force_cols) cols = o.force_cols;
  if (o.force_depth) depth = o.force_depth;
  c.lhs = MatSpec(); c.rhs = MatSpec(); c.dst = MatSpec();
  c.lhs.type = ci.lhs; c.rhs.type = ci.rhs; c.dst.type = ci.dst;
  c.lhs.rows = rows; c.lhs.cols = depth;
  c.rhs.rows = depth; c.rhs.cols = cols;
  c.dst.rows = rows; c.dst.cols = cols;
  MatSpec* ms[3] = {&c.lhs, &c.rhs, &c.dst};
  const int order_bits = rng.chance(1, 3) ? 4 + 2 : rng.range(0, 7);
  for (int i = 0; i < 3; i++) {
    MatSpec& m = *ms[i];
    m.order = i == 0 ? ((order_bits & 1) ? kColMajor : kRowMajor)
            : i == 1 ? ((order_bits & 2) ? kColMajor : kRowMajor)
                     : ((order_bits & 4) ? kColMajor : kRowMajor);
    const int inner = m.order == kColMajor ? m.rows : m.cols;
    m.stride = inner + (o.allow_strides && rng.chance(2, 5) ? PickPad(rng, inner) : 0);
    if (o.wide_strides) m.stride = std::max(inner, static_cast<int>(rng.pick({0, 32760, 65530, 65536, 70000}) + rng.range(0, 20)));
  }
  const bool has16 = ci.lhs == T::i16 || ci.rhs == T::i16;
  std::int64_t lo[2] = {0, 0}, hi[2] = {0, 0};
  if (!IsFloat(ci.dst)) {
    for (int i = 0; i < 2; i++) {
      lo[i] = Lowest(ms[i]->type);
      hi[i] = Highest(ms[i]->type);
      if (!has16) {
        switch (rng.range(0, 4)) {
          case 0: ms[i]->zp = ms[i]->type == T::u8 ? 128 : 0; break;
          case 1: ms[i]->zp = static_cast<int>(hi[i]); break;
          case 2: ms[i]->zp = static_cast<int>(lo[i]); break;
          default: ms[i]->zp = static_cast<int>(rng.range(lo[i], hi[i])); break;
        }
      }
    }
    if (!has16 && c.lhs.zp == lo[0] && c.rhs.zp == lo[1] && !(ci.lhs == T::u8 && ci.rhs == T::u8)) {
      // documented exclusion: both zero points at the lowest value
      (rng.chance(1, 2) ? c.lhs : c.rhs).zp = static_cast<int>(rng.range(1, 100));
    }
    if (has16) {
      // keep |sum| below 2^31
      std::int64_t r = (std::int64_t(1) << 30) / (256 * std::int64_t(depth));
      for (int i = 0; i < 2; i++)
        if (ms[i]->type == T::i16) {
          std::int64_t lim = std::min<std::int64_t>(32767, std::max<std::int64_t>(1, r));
          hi[i] = lim;
          lo[i] = lim == 32767 ? -32768 : -lim;
        }
    }
    if (o.bounded && !has16) {
      // every product of stored values, zero points and differences, summed
      // over the depth, stays below 2^30
      int lim = 1;
      while (lim < 60 && std::int64_t(depth) * (2 * lim + 2) * (2 * lim + 2) < (std::int64_t(1) << 30)) lim++;
      for (int i = 0; i < 2; i++) {
        const bool u = ms[i]->type == T::u8;
        lo[i] = u ? 0 : -lim;
        hi[i] = u ? 2 * lim : lim;
        ms[i]->zp = static_cast<int>(rng.chance(1, 3) ? (rng.chance(1, 2) ? lo[i] : hi[i]) : rng.range(lo[i], hi[i]));
      }
    }
    if (Quantized(c) && !has16) {
      c.dst.zp = static_cast<int>(rng.chance(1, 3) ? 0 : rng.range(Lowest(ci.dst), Highest(ci.dst)));
    }
  }
  const int esz[3] = {SizeOf(ci.lhs), SizeOf(ci.rhs), SizeOf(ci.dst)};
  GuardBuf* bufs[3] = {&p->lhs_buf, &p->rhs_buf, &p->dst_buf};
  for (int i = 0; i < 3; i++) {
    bufs[i]->Init(ms[i]->Extent() * esz[i], PickGuard(rng, o, i == 2 ? o.guard_out : o.guard_in), esz[i]);
    ms[i]->data = bufs[i]->data();
  }
  p->exact_float = IsFloat(ci.dst) && (o.dyadic || rng.chance(1, 2));
  for (int i = 0; i < 2; i++) FillMatrix(rng, *ms[i], rng.pick({0, 0, 0, 1, 1, 2, 3, 4, 5, 6}), lo[i], hi[i], p->exact_float);
  if (o.cache_policies) {
    c.lhs.cache_policy = rng.range(0, 3);
    c.rhs.cache_policy = rng.range(0, 3);
  }
  // parameters
  ParamSpec& mp = c.mp;
  mp = ParamSpec();
  mp.channel_dim = rng.range(0, 1);
  mp.cap_rounding = rng.pick({1, 1, 1, 2, 4, 8, 16, 16, 32, 64});
  const int channels = p->Channels(), cap = p->Capacity();
  std::int64_t bound = 0;  // bound on every |partial sum| of the accumulator
  if (!IsFloat(ci.dst)) {
    auto mag = [](std::int64_t a, std::int64_t b, std::int64_t zp) {
      return std::max(std::max(std::llabs(a - zp), std::llabs(b - zp)), std::max(std::llabs(a), std::llabs(b)));
    };
    bound = std::int64_t(depth) * mag(lo[0], hi[0], c.lhs.zp) * mag(lo[1], hi[1], c.rhs.zp);
  }
  std::int64_t bias_mag = 0;
  if (o.allow_bias && rng.chance(2, 3)) {
    const int bsz = SizeOf(ci.acc);
    p->bias_buf.Init(std::int64_t(cap) * bsz, PickGuard(rng, o, o.guard_in), bsz);
    memset(p->bias_buf.data(), 0, std::int64_t(cap) * bsz);
    mp.bias = p->bias_buf.data();
    if (IsFloat(ci.acc)) {
      for (int i = 0; i < channels; i++) {
        double v = p->exact_float ? static_cast<double>(rng.range(-1000, 1000)) : (rng.unit() * 2 - 1) * 8;
        if (std::fabs(v) < 1e-3) v = 0;
        if (ci.acc == T::f32) p->bias_buf.as<float>()[i] = static_cast<float>(v);
        else p->bias_buf.as<double>()[i] = v;
      }
    } else {
      std::int64_t room = (std::int64_t(1) << 31) - 1 - 4 * bound;
      if (room < 1) room = 1;
      std::int64_t lim = rng.chance(1, 3) ? room : std::min<std::int64_t>(room, std::int64_t(1) << rng.range(1, 20));
      if (Quantized(c)) lim = std::min<std::int64_t>(lim, std::max<std::int64_t>(bound, 4));
      for (int i = 0; i < channels; i++) {
        std::int64_t v = rng.range(-lim, lim);
        p->bias_buf.as<std::int32_t>()[i] = static_cast<std::int32_t>(v);
        bias_mag = std::max(bias_mag, std::int64_t(std::llabs(v)));
      }
    }
  } else {
    p->bias_buf.Free();
  }
  p->mult_buf.Free();
  p->exp_buf.Free();
  if (Quantized(c)) {
    mp.uniform = rng.chance(1, 2);
    // typical accumulator magnitude, to place results within the range of dst
    double typ = 0;
    {
      const int rr = rng.range(0, rows - 1), cc = rng.range(0, cols - 1);
      typ = std::fabs(static_cast<double>(ExactAccum(c, rr, cc))) + 1;
    }
    const std::int64_t maxacc = bound + bias_mag;
    auto pick = [&](std::int32_t* m, int* e) {
      double target = static_cast<double>(Highest(ci.dst)) * std::ldexp(1.0, rng.range(-3, 1));
      double ratio = target / typ;
      int ex;
      double fr = std::frexp(ratio, &ex);
      if (rng.chance(1, 10)) ex += rng.range(-4, 3);
      if (ex < -31) ex = -31;
      if (ex > 7) ex = 7;
      while (ex > 0 && (maxacc << ex) >= (std::int64_t(1) << 31) - 40000) ex--;
      *m = static_cast<std::int32_t>(std::min(2147483647.0, fr * 2147483648.0));
      if (rng.chance(1, 16)) *m = rng.pick<std::int32_t>({0, 1, 1 << 30, 2147483647, (1 << 30) + 1});
      *e = ex;
    };
    if (mp.uniform) {
      pick(&mp.mult, &mp.exponent);
    } else {
      p->mult_buf.Init(std::int64_t(cap) * 4, PickGuard(rng, o, o.guard_in), 4);
      p->exp_buf.Init(std::int64_t(cap) * 4, PickGuard(rng, o, o.guard_in), 4);
      memset(p->mult_buf.data(), 0, std::int64_t(cap) * 4);
      memset(p->exp_buf.data(), 0, std::int64_t(cap) * 4);
      for (int i = 0; i < channels; i++) pick(p->mult_buf.as<std::int32_t>() + i, p->exp_buf.as<int>() + i);
      mp.mult_pc = p->mult_buf.as<std::int32_t>();
      mp.exp_pc = p->exp_buf.as<int>();
    }
    if (rng.chance(1, 2)) {
      mp.has_clamp = true;
      int a = rng.range(Lowest(ci.dst), Highest(ci.dst)), b = rng.range(Lowest(ci.dst), Highest(ci.dst));
      if (rng.chance(1, 2)) { a = Lowest(ci.dst) + rng.range(0, 3); b = Highest(ci.dst) - rng.range(0, 3); }
      mp.clamp_min_i = std::min(a, b);
      mp.clamp_max_i = std::max(a, b);
    }
  } else if (IsFloat(ci.dst)) {
    if (rng.chance(1, 2)) {
      mp.has_clamp = true;
      double a = p->exact_float ? rng.range(-40, 10) : -rng.unit() * 4, b = p->exact_float ? rng.range(11, 100) : rng.unit() * 4;
      if (rng.chance(1, 4)) a = -std::numeric_limits<double>::infinity();
      if (rng.chance(1, 4)) b = std::numeric_limits<double>::infinity();
      if (rng.chance(1, 8)) a = 0;
      mp.clamp_min_f = static_cast<float>(a);
      mp.clamp_max_f = static_cast<float>(b);
    }
  }
  FillDst(rng, p);
}

void FillDst(Rng& rng, Prob* p) {
  const std::size_t n = p->dst_buf.bytes();
  std::uint8_t* d = p->dst_buf.as<std::uint8_t>();
  std::size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    std::uint64_t v = rng.u64();
    memcpy(d + i, &v, 8);
  }
  for (; i < n; i++) d[i] = static_cast<std::uint8_t>(rng.u64());
}

std::vector<std::uint8_t> Entries(const MatSpec& m) {
  const int sz = SizeOf(m.type);
  std::vector<std::uint8_t> v(std::size_t(m.rows) * m.cols * sz);
  std::uint8_t* o = v.data();
  const std::uint8_t* d = static_cast<const std::uint8_t*>(m.data);
  for (int r = 0; r < m.rows; r++)
    for (int c = 0; c < m.cols; c++, o += sz) memcpy(o, d + m.Off(r, c) * sz, sz);
  return v;
}
std::vector<std::uint8_t> Raw(const MatSpec& m) {
  const std::uint8_t* d = static_cast<const std::uint8_t*>(m.data);
  return std::vector<std::uint8_t>(d, d + m.Extent() * SizeOf(m.type));
}

std::string Prob::Describe() const {
  char b[600];
  auto L = [](const MatSpec& m) { return std::string(m.order == kColMajor ? "C" : "R") + "s" + std::to_string(m.stride) + "z" + std::to_string(m.zp) + (m.cache_policy ? "k" + std::to_string(m.cache_policy) : ""); };
  const ParamSpec& q = call.mp;
  snprintf(b, sizeof b, "%s %dx%dx%d lhs=%s rhs=%s dst=%s ch=%s cap=%d bias=%d %s clamp=%d", kCombos[call.combo].name,
           call.dst.rows, call.lhs.cols, call.dst.cols, L(call.lhs).c_str(), L(call.rhs).c_str(), L(call.dst).c_str(),
           q.channel_dim == kChRow ? "row" : "col", q.cap_rounding, q.bias != nullptr,
           !Quantized(call) ? "-" : q.uniform ? ("m=" + std::to_string(q.mult) + "e" + std::to_string(q.exponent)).c_str() : "perchannel",
           q.has_clamp);
  return b;
}
std::uint64_t Prob::ShapeHash() const {
  std::uint64_t h = Mix(call.combo, call.dst.rows);
  h = Mix(h, call.dst.cols);
  h = Mix(h, call.lhs.cols);
  h = Mix(h, call.lhs.order + 2 * call.rhs.order + 4 * call.dst.order + 8 * call.mp.channel_dim + 16 * (call.mp.bias != nullptr) + 32 * call.mp.uniform);
  return Mix(h, Mix(call.lhs.stride, Mix(call.rhs.stride, call.dst.stride)));
}

// ------------------------------------------------------------------ oracles
static std::int64_t BiasI(const Call& c, int r, int col) {
  if (!c.mp.bias) return 0;
  return static_cast<const std::int32_t*>(c.mp.bias)[c.mp.channel_dim == kChRow ? r : col];
}
static double BiasF(const Call& c, int r, int col) {
  if (!c.mp.bias) return 0;
  int ch = c.mp.channel_dim == kChRow ? r : col;
  return ComboOf(c).acc == T::f32 ? static_cast<const float*>(c.mp.bias)[ch] : static_cast<const double*>(c.mp.bias)[ch];
}

std::int64_t ExactAccum(const Call& c, int r, int col) {
  std::int64_t s = 0;
  for (int k = 0; k < c.lhs.cols; k++) s += (c.lhs.GetI(r, k) - c.lhs.zp) * (c.rhs.GetI(k, col) - c.rhs.zp);
  return s + BiasI(c, r, col);
}

void ExactAccums(const Call& c, std::vector<std::int64_t>* out) {
  const int R = c.dst.rows, C = c.dst.cols, K = c.lhs.cols;
  std::vector<std::int32_t> a(std::size_t(R) * K), b(std::size_t(C) * K);
  for (int r = 0; r < R; r++)
    for (int k = 0; k < K; k++) a[std::size_t(r) * K + k] = static_cast<std::int32_t>(c.lhs.GetI(r, k)) - c.lhs.zp;
  for (int j = 0; j < C; j++)
    for (int k = 0; k < K; k++) b[std::size_t(j) * K + k] = static_cast<std::int32_t>(c.rhs.GetI(k, j)) - c.rhs.zp;
  out->resize(std::size_t(R) * C);
  for (int r = 0; r < R; r++)
    for (int j = 0; j < C; j++) {
      const std::int32_t *x = &a[std::size_t(r) * K], *y = &b[std::size_t(j) * K];
      std::int64_t s = 0;
      for (int k = 0; k < K; k++) s += std::int64_t(x[k]) * y[k];
      (*out)[std::size_t(r) * C + j] = s + BiasI(c, r, j);
    }
}

std::int64_t RoundedScale(std::int64_t acc, std::int32_t mult, int exponent) {
  // round half up of acc * mult * 2^(exponent-31)
  __int128 v = static_cast<__int128>(acc) * mult;
  const int sh = 31 - exponent;
  v += static_cast<__int128>(1) << (sh - 1);
  return static_cast<std::int64_t>(v >> sh);
}
void MultiplierOf(const Call& c, int r, int col, std::int32_t* m, int* e) {
  if (c.mp.uniform) { *m = c.mp.mult; *e = c.mp.exponent; return; }
  int ch = c.mp.channel_dim == kChRow ? r : col;
  *m = c.mp.mult_pc[ch];
  *e = c.mp.exp_pc[ch];
}
int ClampMin(const Call& c) { return c.mp.has_clamp ? c.mp.clamp_min_i : static_cast<int>(Lowest(ComboOf(c).dst)); }
int ClampMax(const Call& c) { return c.mp.has_clamp ? c.mp.clamp_max_i : static_cast<int>(Highest(ComboOf(c).dst)); }

void ComputeRef(const Prob& p, Ref* ref) {
  const Call& c = p.call;
  const int R = c.dst.rows, C = c.dst.cols, K = c.lhs.cols;
  if (!FloatCombo(c)) {
    ExactAccums(c, &ref->acc);
    if (Quantized(c)) {
      ref->q.resize(ref->acc.size());
      for (int r = 0; r < R; r++)
        for (int j = 0; j < C; j++) {
          std::int32_t m; int e;
          MultiplierOf(c, r, j, &m, &e);
          ref->q[std::size_t(r) * C + j] = RoundedScale(ref->acc[std::size_t(r) * C + j], m, e) + c.dst.zp;
        }
    }
    return;
  }
  const bool f32acc = ComboOf(c).acc == T::f32;
  const bool f32dst = ComboOf(c).dst == T::f32;
  ref->val.resize(std::size_t(R) * C);
  ref->bound.resize(std::size_t(R) * C);
  std::vector<double> a(std::size_t(R) * K), b(std::size_t(C) * K);
  for (int r = 0; r < R; r++)
    for (int k = 0; k < K; k++) a[std::size_t(r) * K + k] = c.lhs.GetF(r, k);
  for (int j = 0; j < C; j++)
    for (int k = 0; k < K; k++) b[std::size_t(j) * K + k] = c.rhs.GetF(k, j);
  const double u = f32acc ? std::ldexp(1.0, -24) : std::ldexp(1.0, -53);
  const double n = K + 4;
  for (int r = 0; r < R; r++)
    for (int j = 0; j < C; j++) {
      const double *x = &a[std::size_t(r) * K], *y = &b[std::size_t(j) * K];
      double val, abs;
      if (f32acc || p.exact_float) {
        double s = 0, t = 0;
        for (int k = 0; k < K; k++) { double q = x[k] * y[k]; s += q; t += std::fabs(q); }
        val = s + BiasF(c, r, j);
        abs = t + std::fabs(BiasF(c, r, j));
      } else {
        long double s = 0, t = 0;
        for (int k = 0; k < K; k++) { long double q = static_cast<long double>(x[k]) * y[k]; s += q; t += std::fabs(q); }
        val = static_cast<double>(s + BiasF(c, r, j));
        abs = static_cast<double>(t + std::fabs(BiasF(c, r, j)));
      }
      double bd = p.exact_float ? 0 : (n * u / (1 - n * u) * abs * 1.01 + (f32dst && !f32acc ? std::fabs(val) * std::ldexp(1.0, -24) * 1.01 : 0) +
                                       std::fabs(val) * std::ldexp(1.0, -52));
      if (c.mp.has_clamp) val = std::max(std::min(val, c.mp.clamp_max_f), c.mp.clamp_min_f);
      ref->val[std::size_t(r) * C + j] = val;
      ref->bound[std::size_t(r) * C + j] = bd;
    }
}

std::string CheckDst(const Prob& p, const Ref& ref, int tol) {
  const Call& c = p.call;
  const int R = c.dst.rows, C = c.dst.cols;
  char b[300];
  const int cmin = ClampMin(c), cmax = ClampMax(c);
  for (int r = 0; r < R; r++)
    for (int j = 0; j < C; j++) {
      const std::size_t i = std::size_t(r) * C + j;
      if (FloatCombo(c)) {
        double got = c.dst.GetF(r, j);
        double d = std::fabs(got - ref.val[i]);
        if (!(d <= ref.bound[i])) {
          snprintf(b, sizeof b, "entry (%d,%d): got %.9g, expected %.9g within %.3g", r, j, got, ref.val[i], ref.bound[i]);
          return b;
        }
      } else if (RawInt(c)) {
        std::int64_t got = c.dst.GetI(r, j);
        if (got != ref.acc[i]) {
          snprintf(b, sizeof b, "entry (%d,%d): got %lld, expected %lld", r, j, (long long)got, (long long)ref.acc[i]);
          return b;
        }
      } else {
        std::int64_t got = c.dst.GetI(r, j);
        std::int64_t lo = std::max<std::int64_t>(cmin, std::min<std::int64_t>(cmax, ref.q[i] - tol));
        std::int64_t hi = std::max<std::int64_t>(cmin, std::min<std::int64_t>(cmax, ref.q[i] + tol));
        if (got < lo || got > hi) {
          snprintf(b, sizeof b, "entry (%d,%d): got %lld, expected %lld (+-%d, clamp %d..%d)", r, j, (long long)got, (long long)ref.q[i], tol, cmin, cmax);
          return b;
        }
      }
    }
  return "";
}

void Apply(const Config& cfg, ruy::Context* ctx) {
  ctx->set_max_num_threads(cfg.threads);
  ctx->set_num_threads_strategy(cfg.force_max ? ruy::NumThreadsStrategy::kForceMaxNumThreads : ruy::NumThreadsStrategy::kDefault);
  ctx->set_runtime_enabled_paths(static_cast<ruy::Path>(cfg.path));
  ctx->set_explicit_tuning(static_cast<ruy::Tuning>(cfg.tuning));
  if (cfg.spin_ms >= 0) ctx->mutable_thread_pool()->set_spin_milliseconds(cfg.spin_ms);
}
std::string Describe(const Config& cfg) {
  char b[120];
  snprintf(b, sizeof b, "path=%s threads=%d%s tuning=%d", PathName(cfg.path), cfg.threads, cfg.force_max ? "!" : "", cfg.tuning);
  return b;
}

}  // namespace vf
